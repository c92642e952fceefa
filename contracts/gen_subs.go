//go:build go1.21

package libasciidoc

// C12: bounded contract on whole conversions: a block full of probes, each of which reacts to one substitution,
// shows which substitutions were applied to it

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

type sbDoc struct {
	subs    string   // value of the attribute
	set     bool     // whether it's there
	unknown bool     // whether it has a name that doesn't exist
	before  []string // lines of the block before its content
	after   []string
	kind    int // defaults: 0 none, 1 normal, 2 verbatim
	probes  []int
	indent  bool // a literal paragraph
	decl    bool // what's between the block and the header
}

const (
	sbNone     = 0
	sbNormal   = 1
	sbVerbatim = 2
)

var sbNames = []string{"attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements", "callouts"}

func sbGroup(name string) []string {
	switch name {
	case "normal":
		return []string{"inline_passthrough", "attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements"}
	case "verbatim":
		return []string{"callouts", "specialchars"}
	case "none":
		return nil
	}
	return []string{name}
}

// sbEffective: the substitutions of the block, in order
func (d sbDoc) effective() []string {
	var def []string
	switch d.kind {
	case sbNormal:
		def = sbGroup("normal")
	case sbVerbatim:
		def = sbGroup("verbatim")
	}
	if !d.set {
		return def
	}
	if strings.TrimSpace(d.subs) == "" {
		return nil
	}
	var out []string
	for i, s := range strings.Split(d.subs, ",") {
		s = strings.TrimSpace(s)
		switch {
		case s[0] == '+' || s[0] == '-' || s[len(s)-1] == '+':
			if i == 0 {
				out = append(out, def...)
			}
			g := sbGroup(strings.Trim(s, "+-"))
			switch {
			case s[len(s)-1] == '+':
				out = append(append([]string{}, g...), out...)
			case s[0] == '+':
				out = append(out, g...)
			default:
				var kept []string
				for _, x := range out {
					if !sbHas(g, x) {
						kept = append(kept, x)
					}
				}
				out = kept
			}
		default:
			out = append(out, sbGroup(s)...)
		}
	}
	return out
}

func sbHas(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

type sbProbe struct {
	text string
	want func(on func(string) bool) string
}

func sbRaw(on func(string) bool, s string) string {
	if on("specialchars") {
		return strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;").Replace(s)
	}
	return s
}

func sbOne(sub, text, applied string) sbProbe {
	return sbProbe{text, func(on func(string) bool) string {
		if on(sub) {
			return applied
		}
		return sbRaw(on, text)
	}}
}

var sbProbes = []sbProbe{
	sbOne("attributes", "x{p}y", "xvaly"),
	sbOne("attributes", "{p}", "val"),
	sbOne("quotes", "*b*", "<strong>b</strong>"),
	sbOne("quotes", "a _c_ d", "a <em>c</em> d"),
	sbOne("quotes", "a``c``d", "a<code>c</code>d"),
	sbOne("quotes", "#m#", "<mark>m</mark>"),
	sbOne("specialchars", "1 < 2", "1 &lt; 2"),
	sbOne("specialchars", "a & b", "a &amp; b"),
	sbOne("specialchars", "a > b", "a &gt; b"),
	sbOne("replacements", "(C)", "&#169;"),
	sbOne("replacements", "(TM)", "&#8482;"),
	sbOne("replacements", "a...", "a&#8230;&#8203;"),
	sbOne("replacements", "it's", "it&#8217;s"),
	sbOne("macros", "link:u[t]", `<a href="u">t</a>`),
	sbOne("macros", "http://a.org[t]", `<a href="http://a.org">t</a>`),
	sbOne("macros", "<<here>>", `<a href="#here">[here]</a>`),
	sbOne("macros", "image:i.png[]", `<span class="image"><img src="i.png" alt="i"></span>`),
	sbOne("post_replacements", "x +\n", "x<br>\n"),
	{"end <3>\n", func(on func(string) bool) string {
		if on("callouts") {
			return "end <b class=\"conum\">(3)</b>\n"
		}
		return sbRaw(on, "end <3>\n")
	}},
	sbOne("none", "plain", "plain"),
	sbOne("attributes", "u{r}v", "ud &amp; &lt;c&gt;v"),
	// an attribute whose value has a markup: formatted afterwards only
	{"v{q}w", nil},
	{"+++<u>+++", nil},
}

func (d sbDoc) lines() []string {
	out := []string{}
	for i, p := range d.probes {
		l := fmt.Sprintf("S%d %s", i, sbProbes[p].text)
		if !strings.HasSuffix(l, "\n") {
			l += " "
		}
		l += fmt.Sprintf("E%d.", i)
		out = append(out, strings.Split(l, "\n")...)
	}
	return out
}

func (d sbDoc) source() string {
	l := []string{"= Title", ":p: val", ":q: **z**", ":r: d & <c>", ""}
	if d.decl {
		l = append(l, "before", "")
	}
	l = append(l, d.before...)
	for _, x := range d.lines() {
		if d.indent {
			x = " " + x // literal paragraph
		}
		l = append(l, x)
	}
	l = append(l, d.after...)
	return strings.Join(append(l, "", "*after* {p}"), "\n") + "\n"
}

func drive_subs(d sbDoc) (out string, err error) {
	out, _, err = cvConvert(d.source(), configuration.NewConfiguration(configuration.WithAttributes(types.Attributes{})))
	return out, err
}

func gen_drive_subs(g *verifGen) sbDoc {
	d := sbDoc{decl: g.Bool()}
	if g.Weighted(1, 4) == 1 {
		d.set = true
		pick := func() string {
			return g.Str("attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements", "callouts", "normal", "none", "verbatim", "quotes", "attributes")
		}
		incr := func() string {
			n := pick()
			switch g.Int(0, 2) {
			case 0:
				return n + "+"
			case 1:
				return "+" + n
			}
			return "-" + n
		}
		var subs []string
		mode := g.Int(0, 2)
		for i := g.Int(0, 4); i >= 0; i-- {
			switch {
			case mode == 0, mode == 2 && len(subs) == 0:
				subs = append(subs, pick())
			default:
				subs = append(subs, incr())
			}
		}
		if g.Weighted(8, 1) == 1 {
			subs[g.Int(0, len(subs)-1)] = g.Str("unknown", "+quote", "-Quotes", "macro+", "specialcharacter")
			d.unknown = true
		}
		d.subs = strings.Join(subs, g.Str(",", ",", ", ", " ,"))
		if g.Weighted(12, 1) == 1 {
			d.subs, d.unknown = g.Str("", " "), false
		}
	}
	attr := func(style string) []string {
		l := "[" + style
		if d.set {
			if style != "" {
				l += ","
			}
			if strings.ContainsAny(d.subs, ", ") || d.subs == "" || g.Bool() {
				l += `subs="` + d.subs + `"`
			} else {
				l += "subs=" + d.subs
			}
		}
		if l == "[" {
			return nil
		}
		l += "]"
		if g.Weighted(4, 1) == 1 {
			return []string{"[.role]", l}
		}
		return []string{l}
	}
	block := func(kind int, style, delim string) {
		d.kind = kind
		d.before = append(attr(style), delim)
		d.after = []string{delim}
	}
	para := func(kind int, style string) {
		d.kind = kind
		d.before = attr(style)
	}
	switch g.Int(0, 16) {
	case 0, 1:
		block(sbVerbatim, g.Str("", "", "source", "listing"), "----")
	case 2:
		block(sbVerbatim, "", "....")
	case 3:
		block(sbVerbatim, "", "```")
	case 4:
		block(sbNone, "", "++++")
	case 5:
		block(sbNormal, "verse", "____")
	case 6, 7, 8:
		para(sbNormal, g.Str("", "", "", "NOTE", "quote", "example", ".r"))
	case 9:
		para(sbNormal, "verse")
	case 10, 11:
		para(sbVerbatim, g.Str("source", "listing", "literal", "source"))
	case 12:
		para(sbNone, "pass")
	case 13:
		d.kind = sbVerbatim
		d.before, d.indent = attr(""), true
	default:
		block(sbVerbatim, g.Str("source", "source,go"), g.Str("----", "```", "----"))
	}
	for i := g.Int(1, 6); i > 0; i-- {
		d.probes = append(d.probes, g.Int(0, len(sbProbes)-1))
	}
	return d
}

var sbSeen = map[int]*regexp.Regexp{}

func sbCheck(d sbDoc, out string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	if !strings.Contains(out, "<strong>after</strong> val") {
		verifNote("what follows the block: got\n%s\nof\n%s", out, d.source())
		return false
	}
	subs := d.effective()
	on := func(s string) bool { return sbHas(subs, s) }
	for i, p := range d.probes {
		re := sbSeen[i]
		if re == nil {
			re = regexp.MustCompile(fmt.Sprintf(`(?s)S%d (.*?) ?E%d\.`, i, i))
			sbSeen[i] = re
		}
		m := re.FindStringSubmatch(out)
		if m == nil {
			if d.unknown {
				continue
			}
			verifNote("probe %d lost: got\n%s\nof\n%s", i, out, d.source())
			return false
		}
		if d.unknown {
			verifNote("unknown substitution accepted: got\n%s\nof\n%s", out, d.source())
			return false
		}
		var want string
		switch pr := sbProbes[p]; {
		case pr.want != nil:
			want = pr.want(on)
		case pr.text == "v{q}w":
			want = "v{q}w"
			if on("attributes") {
				want = "v**z**w"
			}
			first, quotes := -1, false
			for j, s := range subs {
				if s == "attributes" && first < 0 {
					first = j
				}
				if s == "quotes" && first >= 0 {
					quotes = true
				}
			}
			if quotes {
				want = "v<strong>z</strong>w"
			}
		default:
			want = sbRaw(on, "+++<u>+++")
			if on("inline_passthrough") {
				want = "<u>"
			}
		}
		if m[1] != want {
			verifNote("probe %d (%s), with %v: expected %q, got %q in\n%s\nof\n%s", i, sbProbes[p].text, subs, want, m[1], out, d.source())
			return false
		}
	}
	return true
}

//verif:bounded drive_subs props=C12 n=4000
func contract_drive_subs(d sbDoc, out string, err error) {
	ensures(sbCheck(d, out, err))
}
