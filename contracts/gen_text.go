//go:build go1.21

package libasciidoc

// C19: bounded contract on whole conversions: the text of the document comes out with every character
// in its place, however it is cut in pieces while it is parsed, substituted and merged

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

type textDoc struct {
	lines []string
	texts map[int]string // what's expected, by number
	n     int
	count int // value of the counter
}

// the pieces, with what they give
var textPieces = [][2]string{{".", "."}, {",", ","}, {";", ";"}, {":", ":"}, {"!", "!"}, {"?", "?"}, {"(", "("}, {")", ")"}, {"/", "/"}, {"%", "%"}, {"$", "$"}, {" @ ", " @ "}, {" k@w.x ", " k@w.x "}, {"=", "="}, {"-", "-"},
	{"{", "{"}, {"}", "}"}, {"[", "["}, {"]", "]"}, {`"`, `"`}, {" ", " "}, {"  ", "  "}, {"\t", "\t"}, {"'", "\u2019"}, {"...", "\u2026\u200b"}, {"(C)", "\u00a9"}, {"(TM)", "\u2122"}, {"(R)", "\u00ae"},
	{" -- ", "\u2009\u2014\u2009"}, {"--", "\u2014\u200b"}, {"->", "\u2192"}, {"=>", "\u21d2"}, {"<-", "\u2190"}, {"<=", "\u21d0"}, {"{foo}", "FOO"}, {"{empty}", ""}, {"{sp}", " "}, {"{lt}", "<"}, {"{bar}", "B<A>R"},
	{"{num}", "12"}, {"{long}", "a b  c"}, {"<", "<"}, {">", ">"}, {"&", "&"}, {"+++..+++", ".."}, {"**t**", "t"}, {"__u  v__", "u  v"}, {"##w##", "w"}, {"``m``", "m"}, {"^n^", "n"}, {"~o~", "o"}, {" *p q* ", " p q "}, {" _r_ ", " r "}, {" `s` ", " s "},
	{" **a *b _c_ d* e** ", " a b c d e "}, {"\n", "\n"}, {" +\n", "\n"}, {"\\...", "..."}, {"\\(C)", "(C)"}, {"\\{foo}", "{foo}"}, {"{nope}", "{nope}"}, {"||", "||"}, {"\\", "\\"}, {"é", "é"}, {"{foo}{num}", "FOO12"}, {"http://x.y ", "http://x.y "}}

// the pieces that may come after spaces
var textAfter = [][2]string{{"**t**", "t"}, {"__u__", "u"}, {"##w##", "w"}, {"``m``", "m"}, {"<", "<"}, {">", ">"}, {"&", "&"}, {"{foo}", "FOO"}, {"{lt}", "<"}, {"{bar}", "B<A>R"}, {"+++..+++", ".."}, {"{empty}", ""}, {"é", "é"}, {"(C)", "\u00a9"}}

func (d *textDoc) text(g *verifGen, without string) string {
	d.n++
	src, want := fmt.Sprintf("Q%dz", d.n), ""
	for i := g.Int(1, 7); i > 0; i-- {
		w := g.Str("ab", "x1", "Z", "é", "日本", "k")
		if k := len(src) - 1; (src[k] == ' ' || src[k] == '\t') && g.Bool() { // no letter between spaces and the next piece
			p := textAfter[g.N(len(textAfter))]
			if !strings.ContainsAny(p[0], without) {
				src, want = src+p[0], want+p[1]
			}
		}
		src, want = src+w, want+w
		if g.Weighted(12, 1) == 1 {
			d.count++
			src, want = src+"{counter:c}", want+strconv.Itoa(d.count)
			continue
		}
		p := textPieces[g.Int(0, len(textPieces)-1)]
		if strings.ContainsAny(p[0], without) {
			continue
		}
		src, want = src+p[0], want+p[1]
	}
	d.texts[d.n] = want + "e"
	return src + "ezQ"
}

func gen_drive_text(g *verifGen) *textDoc {
	d := &textDoc{texts: map[int]string{}}
	d.lines = append(d.lines, ":foo: FOO", ":bar: B<A>R", ":num: 12", ":long: a b  c", "")
	add := func(l ...string) { d.lines = append(d.lines, l...) }
	for i := g.Int(1, 3); i > 0; i-- {
		switch g.Weighted(8, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1) {
		case 0:
			l := []string{}
			if g.Weighted(2, 1) == 1 {
				l = append(l, "."+d.text(g, "\n"))
			}
			for j := g.Int(1, 3); j > 0; j-- {
				l = append(l, d.text(g, ""))
			}
			add(l...)
		case 1:
			add("* "+d.text(g, ""), "** "+d.text(g, ""))
		case 2:
			add(strings.Repeat("=", g.Int(2, 3))+" "+d.text(g, "\n[]"), "", d.text(g, ""))
		case 3:
			add("|===", "|"+d.text(g, "|\n")+" |"+d.text(g, "|\n"), "|===")
		case 4:
			add(d.text(g, "\n:;")+":: "+d.text(g, ""))
		case 5:
			add("____", d.text(g, ""), "____")
		case 6:
			add(d.text(g, "") + " footnote:[" + d.text(g, "[]\n") + "] " + d.text(g, ""))
		case 7:
			add(d.text(g, "") + " http://a.b[" + d.text(g, "[],=\n\"/@\\") + "] " + d.text(g, ""))
		case 8:
			add("NOTE: " + d.text(g, ""))
		case 9:
			add("====", d.text(g, ""), "", ". "+d.text(g, ""), "====")
		case 10:
			add("x *"+d.text(g, "*\n")+"* y _"+d.text(g, "_\n")+"_", d.text(g, ""))
		case 11:
			add("[verse]", d.text(g, ""))
		default:
			// verbatim
			l := []string{}
			for j := g.Int(1, 4); j > 0; j-- {
				n := d.count
				t := d.text(g, "\n")
				d.count = n
				d.texts[d.n] = t[strings.Index(t, "z")+1 : len(t)-2]
				l = append(l, t)
			}
			b := g.Str("----", "....", "```")
			if b == "----" && g.Bool() {
				add("[source,go" + g.Str("", ",linenums", ",options=nowrap") + "]")
			}
			add(b)
			add(l...)
			add(b)
		}
		add("", "'''", "")
	}
	return d
}

var textRE = regexp.MustCompile(`(?s)Q([0-9]+)z(.*?)zQ`)

// textNorm: whether symbols are replaced is no matter here
var textNorm = strings.NewReplacer("\u2019", "'", "\u2026\u200b", "...", "\u00a9", "(C)", "\u2122", "(TM)", "\u00ae", "(R)", "\u2009\u2014\u2009", " -- ", "\u2014\u200b", "--", "\u2192", "->", "\u21d2", "=>", "\u2190", "<-", "\u21d0", "<=")

func textCheck(d *textDoc, out string, err error) bool {
	if err != nil {
		verifNote("%v", err)
		return false
	}
	seen := map[int]bool{}
	for _, m := range textRE.FindAllStringSubmatch(htmlText(out), -1) {
		k, _ := strconv.Atoi(m[1])
		if textNorm.Replace(m[2]) != textNorm.Replace(d.texts[k]) {
			verifNote("text %d: %q expected, got %q in\n%s", k, d.texts[k], m[2], out)
			return false
		}
		seen[k] = true
	}
	for k := range d.texts {
		if !seen[k] {
			verifNote("text %d (%q) is missing in\n%s", k, d.texts[k], out)
			return false
		}
	}
	return true
}

func drive_text(d *textDoc) (string, error) {
	return cvBody(d.lines)
}

//verif:bounded drive_text props=C19 n=4000
func contract_drive_text(d *textDoc, out string, err error) {
	ensures(textCheck(d, out, err))
}
