//go:build go1.21

package sgml

import (
	"html"
	"regexp"
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C11: strings ----

var genEscAlphabet = []string{"<", ">", "&", `"`, "'", "a", " ", "é", "中", "𝔘", "\u00a0", "&lt;", "&gt;", "&amp;", "&#", "&#39;", ";", "#", "l", "t", "&quot;", "\n", "\t", "\x01", "\x7f", "z9"}

var genEscKept = regexp.MustCompile("&lt;|&gt;|&amp;|&#")

// genEscaped: the special characters are escaped, unless they are part of references
func genEscaped(s string) string {
	out := ""
	for {
		k := genEscKept.FindStringIndex(s)
		if k == nil {
			return out + html.EscapeString(s)
		}
		out += html.EscapeString(s[:k[0]]) + s[k[0]:k[1]]
		s = s[k[1]:]
	}
}

func gen_escapeString(g *verifGen) string { return g.Chars(12, genEscAlphabet...) }

//verif:bounded escapeString props=C11 n=20000
func contract_escapeString(s string, out string) {
	ensures(out == genEscaped(s))
	ensures(!strings.ContainsAny(out, `<>"'`))
}

func gen_escapeURL(g *verifGen) string { return g.Chars(12, genEscAlphabet...) }

//verif:bounded escapeURL props=C11 n=20000
func contract_escapeURL(s string, out string) {
	ensures(!strings.ContainsAny(out, `<>"'`))
	ensures(out == strings.ReplaceAll(html.EscapeString(s), "&amp;", "&"))
}

func gen_asciiEntify(g *verifGen) string { return g.Chars(12, genEscAlphabet...) }

func genEntified(s string) string {
	out := ""
	for _, r := range []rune(s) {
		if r == '\n' || r == '\t' || r >= ' ' && r < 127 {
			out += string(r)
		} else {
			out += "&#" + strconv.Itoa(int(r)) + ";"
		}
	}
	return out
}

//verif:bounded asciiEntify props=C11 n=20000
func contract_asciiEntify(s string, out string) {
	ensures(out == genEntified(s))
}

func gen_sgmlRenderer_renderElementID(g *verifGen) (*sgmlRenderer, types.Attributes) {
	a := types.Attributes{}
	if g.Bool() {
		a[types.AttrID] = g.Chars(6, genEscAlphabet...)
	}
	return &sgmlRenderer{}, a
}

//verif:bounded (*sgmlRenderer).renderElementID props=C11,C06 n=2000
func contract_sgmlRenderer_renderElementID(r *sgmlRenderer, attrs types.Attributes, out string) {
	id, _ := attrs[types.AttrID].(string)
	ensures(out == html.EscapeString(id))
}
