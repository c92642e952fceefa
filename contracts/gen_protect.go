//go:build go1.21

package libasciidoc

// C13: bounded contract on whole conversions: passthroughs, and everything else which is set aside while
// references to attributes are replaced, come back once, as they were, and where they were

import (
	"fmt"
	"html"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
)

type protDoc struct {
	lines  []string
	marks  []string // the expected marks, in order
	notes  []string // those in footnotes
	n      int
	within bool
}

var protParts = []string{"*x*", "_y_", "{foo}", "{bar}", "{sp}", "<u>", "&", "`z`", "#w#", "^2^", "~i~", "http://x.y", "a -- b", "(C)", "->", "'", "1", "\uFFFD1\uFFFD", "\uFFFD", "image:a.png[]", "<<ref>>", "((t))", "link:u[v]", "\\", "&amp;", "...", " ", "é", "{counter:c}", "footnote:[n]", "**b**", "footnote:f[m]", "<1>", "{nope}", "\"`q`\""}

func (d *protDoc) mark(s string) {
	if d.within {
		d.notes = append(d.notes, s)
	} else {
		d.marks = append(d.marks, s)
	}
}

// protPass: a passthrough, which comes out as it is
func protPass(g *verifGen, d *protDoc, without string, glued bool) string {
	c := ""
	for i := g.Int(1, 4); i > 0; i-- {
		p := g.Str(protParts...)
		if strings.ContainsAny(p, regexp.MustCompile("Q.").ReplaceAllString(without, "")) {
			p = "v"
		}
		c += p + g.Str("", "k", " ")
	}
	d.n++
	c = fmt.Sprintf("Q%dz%szQ", d.n, c)
	k := g.Int(0, 2)
	if glued {
		k = 0
	}
	switch k {
	case 0:
		d.mark(c)
		return "+++" + c + "+++"
	case 1:
		c = strings.NewReplacer("[", "(", "]", ")").Replace(c)
		d.mark(c)
		return "pass:[" + c + "]"
	default:
		d.mark(html.EscapeString(c))
		return "+" + c + "+"
	}
}

func (d *protDoc) word() string {
	d.n++
	d.mark(fmt.Sprintf("W%dw", d.n))
	return fmt.Sprintf("W%dw", d.n)
}

// protInline: text with passthroughs
func protInline(g *verifGen, d *protDoc, depth int, without string) string {
	s := ""
	for i := g.Int(1, 2+depth); i > 0; i-- {
		if s != "" {
			s += " "
		}
		k := g.Int(0, 12)
		if depth <= 0 {
			k %= 6
		}
		q := ""
		if k >= 6 && k < 12 {
			// no quoted text within another one of the same kind
			q = []string{"*", "_", "*", "#", "`", "^"}[k-6]
			if strings.Contains(without, "Q"+q) {
				k = 2
			}
		}
		in := func() string { return protInline(g, d, depth-1, without+"Q"+q) }
		switch k {
		case 0, 1:
			s += protPass(g, d, without, false)
		case 2:
			s += d.word()
		case 3:
			s += g.Str("{foo}", "{bar}", "{sp}", "{nope}") + " " + d.word()
		case 4:
			s += g.Str("\uFFFD1\uFFFD", "\uFFFD", "\uFFFD2\uFFFD", "<", "&", "->", "(C)") + " " + d.word()
		case 5:
			s += d.word() + protPass(g, d, without, true) + d.word()
		case 6:
			s += "*" + in() + "*"
		case 7:
			s += "_" + in() + "_"
		case 8:
			s += "**" + in() + "**"
		case 9:
			s += "#" + in() + "#"
		case 10:
			s += "`" + in() + "`"
		case 11:
			s += "^" + d.word() + "^"
		default:
			if d.within || strings.ContainsAny(without, "]Q") {
				s += d.word()
				break
			}
			d.within = true
			s += d.wordOut() + "footnote:[" + protInline(g, d, 0, without+"[]") + "]"
			d.within = false
		}
	}
	return s
}

func (d *protDoc) wordOut() string {
	w := d.within
	d.within = false
	s := d.word()
	d.within = w
	return s
}

func protBlock(g *verifGen, d *protDoc) []string {
	in := func() string { return protInline(g, d, g.Weighted(1, 3, 1), "") }
	title := func() []string {
		if g.Weighted(2, 1) == 1 {
			return []string{"." + d.word() + " " + protInline(g, d, 1, "]")}
		}
		return nil
	}
	add := func(l ...string) []string { return l }
	if g.Weighted(40, 1) == 1 { // more passthroughs than there are digits
		l := d.word()
		n := g.Int(9, 13)
		if g.Weighted(5, 1) == 1 {
			n = g.Int(98, 140)
		}
		for ; n > 0; n-- {
			l += " " + protPass(g, d, "", false)
			if g.Bool() {
				l += " " + d.word()
			}
		}
		return add(l + " {foo}")
	}
	switch g.Int(0, 12) {
	case 0, 1, 2:
		return append(title(), d.word()+" "+in(), in())
	case 3:
		return add("* "+in(), "** "+in(), "* "+in())
	case 4:
		return add(". "+in(), "+", d.word()+" "+in())
	case 5:
		return add(d.word() + " x:: " + in())
	case 6:
		return append(title(), "====", d.word()+" "+in(), "", "* "+in(), "====")
	case 7:
		return add("____", d.word()+" "+in(), "____")
	case 8:
		return add("|===", "|"+protInline(g, d, 1, "|"), "|"+protInline(g, d, 1, "|"), "|===")
	case 9:
		return add("NOTE: " + in())
	case 10:
		return add(`[subs="quotes,attributes"]`, d.word()+" "+d.word())
	case 11:
		return add("[verse]", d.word()+" "+in())
	default:
		return add("****", d.word()+" "+in(), "****")
	}
}

func gen_drive_protect(g *verifGen) *protDoc {
	d := &protDoc{}
	d.lines = append(d.lines, ":foo: FOO", ":bar: B<A>R", "")
	for i := g.Int(1, 4); i > 0; i-- {
		if g.Weighted(3, 1) == 1 {
			d.lines = append(d.lines, "== "+d.word()+" "+protInline(g, d, 1, "]"), "")
		}
		d.lines = append(d.lines, protBlock(g, d)...)
		d.lines = append(d.lines, "", "...", "")
	}
	return d
}

var protMarkRE = regexp.MustCompile(`(?s)Q[0-9]+z.*?zQ|W[0-9]+w`)
var protIDRE = regexp.MustCompile(` (?:id|href)="[^"]*"`)

func protCheck(d *protDoc, out string, err error) bool {
	if err != nil {
		verifNote("%v", err)
		return false
	}
	out = protIDRE.ReplaceAllString(out, "")
	got := protMarkRE.FindAllString(out, -1)
	want := append(append([]string{}, d.marks...), d.notes...)
	if len(got) != len(want) {
		verifNote("%d marks expected, got %d: %q instead of %q in\n%s", len(want), len(got), got, want, out)
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			verifNote("mark %d: %q expected, got %q in\n%s", i, want[i], got[i], out)
			return false
		}
	}
	return true
}

func drive_protect(d *protDoc) (string, error) {
	c := configuration.NewConfiguration()
	out, _, err := cvConvert(strings.Join(d.lines, "\n")+"\n", c)
	return out, err
}

//verif:bounded drive_protect props=C13 n=4000
func contract_drive_protect(d *protDoc, out string, err error) {
	ensures(protCheck(d, out, err))
}
