//go:build go1.21

package libasciidoc

// C11: bounded contract on whole conversions: texts with special characters, wherever texts may be, come
// out as they are once the entities are resolved; no markup in the output but the one of the library

import (
	"fmt"
	"html"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
)

type escDoc struct {
	lines   []string
	texts   []string // what's expected, by number
	must    []bool   // the text is displayed
	ascii   bool     // non-ASCII characters as references
	plain   bool     // only for documents without header
	backend string
	title   string   // the title of the document (unless it's not known)
	refs    []string // titles of the blocks which are referred to, by number
}

var escParts = []string{"<", ">", "&", "<b>", "</p>", "<i k>", " & ", "a < b", "é", "中文", "b>c", "&&", "<br/>", "x&y", "<script>", "</div>", "€uro", "𝔘", "1<2>1", "\u00a0", "<img src=x>", "?", "%"}
var escQuotes = []string{`"`, `a"b`, `" onclick=x`, `'`, `">`}

// escText: a text between two marks; the first one tells its number
func (d *escDoc) text(g *verifGen, quotes bool, without string) string {
	t := ""
	for i := g.Int(1, 4); i > 0; i-- {
		p := g.Str(escParts...)
		if quotes && g.Weighted(2, 1) == 1 {
			p = g.Str(escQuotes...)
		}
		if strings.ContainsAny(p, without) {
			p = "w"
		}
		t += p + g.Str("m", "n", " o", "p q")
	}
	m := fmt.Sprintf("Q%dz%szQ", len(d.texts), t)
	d.texts = append(d.texts, t)
	d.must = append(d.must, !strings.Contains(without, `"`))
	return m
}

// in: a text for a place in the text, on one line
func (d *escDoc) in(g *verifGen) string { return d.text(g, false, "") }

// escInline: an inline element with texts
func escInline(g *verifGen, d *escDoc) string {
	t := d.in
	switch g.Int(0, 15) {
	case 0:
		return "*" + t(g) + "*"
	case 1:
		return "_" + t(g) + "_"
	case 2:
		return "`" + t(g) + "`"
	case 3:
		return "#" + t(g) + "#"
	case 4:
		return "**" + t(g) + "**"
	case 5:
		return "http://x.y[" + d.text(g, false, ",=") + "]"
	case 6:
		return "link:f.html[" + d.text(g, false, ",=") + `,window="` + d.text(g, false, `"`) + `",role="` + d.text(g, false, `"`) + `"]`
	case 7:
		return "<<sec," + d.text(g, false, "<>,") + ">>"
	case 8:
		return "xref:other.adoc[" + d.text(g, false, ",=") + "]"
	case 9:
		return `image:x.png["` + d.text(g, false, `"`) + `",width="` + d.text(g, false, `"`) + `",height='` + d.text(g, false, `'"`) + `']`
	case 10:
		return `image:x.png[alt="` + d.text(g, false, `"`) + `",link="` + d.text(g, false, `"`) + `",role="` + d.text(g, false, `"`) + `",float="` + d.text(g, false, `"`) + `"]`
	case 11:
		return "footnote:[" + t(g) + "]"
	case 12:
		return "btn:[" + d.text(g, false, ",=") + "]"
	case 13:
		return "+" + t(g) + "+"
	case 14:
		return `icon:star[alt="` + d.text(g, false, `"`) + `",link="` + d.text(g, false, `"`) + `"]`
	default:
		return "((" + t(g) + "))"
	}
}

// escLine: a line of text
func escLine(g *verifGen, d *escDoc) string {
	s := ""
	for i := g.Int(1, 3); i > 0; i-- {
		if s != "" {
			s += " "
		}
		if g.Weighted(3, 2) == 0 {
			s += d.text(g, true, "'")
		} else {
			s += escInline(g, d)
		}
	}
	return s
}

func escAttrs(g *verifGen, d *escDoc) []string {
	var out []string
	if g.Weighted(2, 1) == 1 {
		out = append(out, "."+d.in(g))
	}
	switch g.Weighted(6, 1, 1, 1, 1) {
	case 1:
		out = append(out, `[role="`+d.text(g, false, `"`)+`"]`)
	case 2:
		out = append(out, `[id="`+d.text(g, false, `"`)+`"]`)
	case 3:
		out = append(out, `[.`+d.text(g, false, `".#%,[] `)+`]`)
	case 4:
		if len(out) == 0 {
			out = append(out, `[title="`+d.text(g, false, `"`)+`"]`)
		}
	}
	return out
}

// escBlock: a block with texts
func escBlock(g *verifGen, d *escDoc) []string {
	at := escAttrs(g, d)
	line := func() string { return escLine(g, d) }
	verb := func() string { return d.text(g, true, "") }
	add := func(l ...string) []string { return append(at, l...) }
	switch g.Int(0, 24) {
	case 0, 1:
		return add(line(), line())
	case 2:
		return add("----", verb(), "----")
	case 3:
		return add("[source,"+d.text(g, false, `,"`)+"]", "----", verb(), "----")
	case 4:
		return add("[source,"+g.Str("go", "html", "none")+"]", "----", verb()+" <1>", "----", "<1> "+d.in(g))
	case 5:
		return add("....", verb(), "....")
	case 6:
		return add("```", verb(), "```")
	case 7:
		return add("====", line(), "====")
	case 8:
		return add("[NOTE]", "====", line(), "====")
	case 9:
		return add("TIP: " + line())
	case 10:
		return add(`[quote,"`+d.text(g, false, `"`)+`","`+d.text(g, false, `"`)+`"]`, "____", line(), "____")
	case 11:
		return add(`[verse,"`+d.text(g, false, `"`)+`","`+d.text(g, false, `"`)+`"]`, "____", line(), "____")
	case 12:
		return add(`[quote,"`+d.text(g, false, `"`)+`"]`, line())
	case 13:
		return add("****", line(), "****")
	case 14:
		return add("* "+line(), "** "+line(), "* [x] "+line())
	case 15:
		return add(`[start="`+d.text(g, false, `"`)+`"]`, ". "+line(), ". "+line())
	case 16:
		return add("Z"+d.in(g)+":: "+line(), "Z"+d.in(g)+":: "+line())
	case 17:
		return add("[qanda]", "Z"+d.in(g)+":: "+line())
	case 18:
		return add("|===", "|"+d.in(g)+" |"+line(), "", "|"+line()+" |"+d.in(g), "|===")
	case 19:
		return add(`[frame="`+d.text(g, false, `"`)+`",grid="`+d.text(g, false, `"`)+`",stripes="`+d.text(g, false, `"`)+`",float="`+d.text(g, false, `"`)+`"]`, "|===", "|"+d.in(g), "|===")
	case 20:
		return add(`image::` + g.Str("x.png", "http://x.y/z.png") + `["` + d.text(g, false, `"`) + `",width="` + d.text(g, false, `"`) + `",height="` + d.text(g, false, `"`) + `",link="` + d.text(g, false, `"`) + `",align="` + d.text(g, false, `"`) + `"]`)
	case 21:
		for i := range d.must {
			if len(at) > 0 && strings.HasPrefix(at[0], fmt.Sprintf(".Q%dz", i)) {
				d.must[i] = false // another title follows
			}
		}
		return add(`[caption="`+d.text(g, false, `"`)+`: "]`, ".T", g.Str("image::x.png[]", "====\nx\n===="))
	case 22:
		return add(" " + d.text(g, true, ""))
	case 23:
		return add("[literal]", verb())
	default:
		return add("--", line(), "--")
	}
}

// escTitled: a block with an identifier and a title, and a reference to it
func escTitled(g *verifGen, d *escDoc) []string {
	n := len(d.refs)
	t := d.in(g)
	d.refs = append(d.refs, t)
	if g.Bool() {
		m := g.Str("*", "_", "`")
		t = m + t + m
	}
	r := fmt.Sprintf("R%dr <<tb%d>> r%dR", n, n, n)
	at := []string{fmt.Sprintf("[#tb%d]", n), "." + t}
	if g.Bool() {
		at[0], at[1] = at[1], at[0]
	}
	b := [][]string{{"image::x.png[]"}, {"image::x.png[]"}, {"====", "x", "===="}, {"word"}, {"* x"}, {". x"}, {"----", "x", "----"}, {"x:: y"}, {"____", "x", "____"}}[g.Int(0, 8)]
	if g.Bool() {
		return append(append(append([]string{r, ""}, at...), b...), "")
	}
	return append(append(at, b...), "", "...", "", r, "")
}

var escSymbols = [][2]string{{"(C)", "©"}, {"(R)", "®"}, {"w(TM)", "w™"}, {"w's", "w’s"}, {"w...w", "w…\u200bw"}, {"->", "→"}, {"=>", "⇒"}, {"w--w", "w—\u200bw"}, {"é", "é"}, {"http://x.y[link]", "link"}}

// escTitle: the title of the document is the one of the header
func escTitle(d *escDoc, out string) bool {
	if d.title == "" {
		return true
	}
	for _, tag := range []string{"title", "h1"} {
		i, j := strings.Index(out, "<"+tag+">"), strings.Index(out, "</"+tag+">")
		if i < 0 || j < i {
			verifNote("<%s> expected in\n%s", tag, out)
			return false
		}
		if got := htmlText(out[i:j]); got != d.title {
			verifNote("title %q expected in <%s>, got %q", d.title, tag, got)
			return false
		}
	}
	return true
}

// escRefs: the references are shown with the titles
func escRefs(d *escDoc, out string) bool {
	for n, t := range d.refs {
		a := strings.SplitN(out, fmt.Sprintf("R%dr ", n), 2)
		if len(a) < 2 {
			verifNote("reference %d expected in\n%s", n, out)
			return false
		}
		a = strings.SplitN(a[1], fmt.Sprintf(" r%dR", n), 2)
		if got := strings.ReplaceAll(htmlText(a[0]), "’", "'"); got != t {
			verifNote("reference to block %d shown as %q instead of %q (in %s)", n, got, t, a[0])
			return false
		}
	}
	return true
}

func gen_drive_escape(g *verifGen) *escDoc {
	d := &escDoc{backend: g.Str("html5", "html5", "xhtml5")}
	if g.Weighted(4, 1) == 1 {
		d.ascii = true
	}
	header := g.Bool()
	if header {
		if g.Bool() {
			d.lines = append(d.lines, "= Zt"+escLine(g, d))
		} else {
			t, x := "= Zt", "Zt"
			for i := g.Int(1, 3); i > 0; i-- {
				k := g.Int(0, len(escSymbols)+1)
				if k < len(escSymbols) {
					t, x = t+" "+escSymbols[k][0], x+" "+escSymbols[k][1]
					continue
				}
				w, m := d.in(g), g.Str("", "*", "_", "`", "#", "**")
				t, x = t+" "+m+w+m, x+" "+w
			}
			d.lines, d.title = append(d.lines, t), x
		}
		if g.Bool() {
			d.lines = append(d.lines, ":description: "+d.text(g, true, ""))
			d.must[len(d.must)-1] = d.backend == "html5"
		}
		if g.Bool() {
			d.lines = append(d.lines, ":toc:", ":toc-title: "+d.in(g))
			d.must[len(d.must)-1] = false // no table of contents without sections
		}
		if g.Weighted(2, 1) == 1 {
			d.lines = append(d.lines, ":figure-caption: "+d.text(g, false, `"`))
		}
		if g.Weighted(2, 1) == 1 {
			d.lines = append(d.lines, ":note-caption: "+d.text(g, false, `"`))
		}
		if g.Weighted(2, 1) == 1 {
			d.lines = append(d.lines, ":revnumber: "+d.text(g, false, `"`))
		}
		if g.Weighted(2, 1) == 1 {
			d.lines = append(d.lines, ":icons: font")
		}
	}
	d.lines = append(d.lines, ":experimental:", ":source-highlighter: "+g.Str("", "chroma", "pygments"))
	if d.ascii {
		d.lines = append(d.lines, ":unicode: false")
	}
	ref := ""
	if g.Bool() {
		ref = d.text(g, true, "")
		d.must[len(d.must)-1] = false
		d.lines = append(d.lines, ":ref: "+ref)
	}
	d.lines = append(d.lines, "")
	for i := g.Int(1, 4); i > 0; i-- {
		if header && g.Weighted(2, 1) == 1 {
			d.lines = append(d.lines, "== Zs"+escLine(g, d), "")
		}
		d.lines = append(d.lines, escBlock(g, d)...)
		d.lines = append(d.lines, "", "...", "")
		if g.Weighted(3, 1) == 1 {
			d.lines = append(d.lines, escTitled(g, d)...)
		}
	}
	if ref != "" {
		d.lines = append(d.lines, g.Str("{ref} x", "* {ref}", "image::x.png[{ref}]", "[quote,{ref}]\nfoo", ".{ref}\nfoo", "footnote:[{ref}]", "|===\n|{ref}\n|===", "{ref}:: x"))
	}
	return d
}

var escTagRE = regexp.MustCompile(`^</?([a-zA-Z][a-zA-Z0-9]*)((?:\s+[a-zA-Z_:\-]+(?:="[^"<>]*")?)*)\s*/?>`)
var escEntRE = regexp.MustCompile(`^&(?:#[0-9]+|lt|gt|amp|quot);`)
var escTags = map[string]bool{}

func init() {
	for _, t := range strings.Fields("a b blockquote body br button caption cite code col colgroup dd div dl dt em h1 h2 h3 head hr html i img input kbd li link mark meta ol p pre span strong style sub sup table tbody td tfoot th thead title tr ul") {
		escTags[t] = true
	}
}

// escMarkup: the output is made of well-formed tags which the library writes, and of texts without
// special characters
func escMarkup(out string, ascii bool) string {
	if strings.HasPrefix(out, "<!DOCTYPE html>") {
		out = out[len("<!DOCTYPE html>"):]
	}
	for i := 0; i < len(out); {
		switch out[i] {
		case '<':
			m := escTagRE.FindStringSubmatch(out[i:])
			if m == nil || !escTags[m[1]] || strings.Contains(m[2], "onclick=") && !strings.Contains(m[2], "&#34; onclick=") {
				return "unexpected markup: " + out[i:min(len(out), i+60)]
			}
			if k := strings.IndexByte(m[0], '&'); k >= 0 {
				for j := 0; j < len(m[0]); j++ {
					if m[0][j] == '&' && !escEntRE.MatchString(m[0][j:]) {
						return "unescaped & in " + m[0]
					}
				}
			}
			i += len(m[0])
		case '>':
			return "unexpected > before: " + out[i:min(len(out), i+60)]
		case '&':
			m := escEntRE.FindString(out[i:])
			if m == "" {
				return "unescaped & in: " + out[i:min(len(out), i+60)]
			}
			i += len(m)
		default:
			i++
		}
	}
	return ""
}

var escTextRE = regexp.MustCompile(`(?s)Q([0-9]+)z(.*?)zQ`)
var escSpanRE = regexp.MustCompile(`</?(?:span|b)(?: [^<>]*)?>`)

// escCheck: all the texts are there as they were
func escCheck(d *escDoc, out string, err error) bool {
	if err != nil {
		verifNote("%v", err)
		return false
	}
	if m := escMarkup(out, d.ascii); m != "" {
		verifNote("%s\n%s", m, out)
		return false
	}
	seen := map[string]bool{}
	for _, m := range escTextRE.FindAllStringSubmatch(out, -1) {
		var n int
		fmt.Sscan(m[1], &n)
		if n >= len(d.texts) {
			verifNote("unknown text %s", m[0])
			return false
		}
		raw := m[2]
		if strings.Contains(raw, "<") {
			// highlighted source
			raw = escSpanRE.ReplaceAllString(raw, "")
		}
		if got := strings.ReplaceAll(html.UnescapeString(raw), "’", "'"); got != d.texts[n] {
			verifNote("text %d: %q expected, got %q in\n%s", n, d.texts[n], m[0], out)
			return false
		}
		seen[m[1]] = true
	}
	for i := range d.texts {
		if d.must[i] && !seen[fmt.Sprint(i)] {
			verifNote("text %d (%q) expected in\n%s", i, d.texts[i], out)
			return false
		}
	}
	return escTitle(d, out) && escRefs(d, out)
}

func drive_escape(d *escDoc) (string, error) {
	c := configuration.NewConfiguration(configuration.WithHeaderFooter(true), configuration.WithBackEnd(d.backend))
	out, _, err := cvConvert(strings.Join(d.lines, "\n")+"\n", c)
	return out, err
}

//verif:bounded drive_escape props=C11 n=4000
func contract_drive_escape(d *escDoc, out string, err error) {
	ensures(escCheck(d, out, err))
}
