//go:build go1.21

package libasciidoc

// C05: bounded contract on whole conversions: marks and list of notes.

import (
	"fmt"
	"html"
	"regexp"
	"strings"
)

func drive_footnotes(doc []string) (string, error) { return cvBody(doc) }

var (
	fnMark  = regexp.MustCompile(`(w\d+w) footnote:([A-Za-z0-9-]*)\[([^\]]*)\]`)
	fnOut   = regexp.MustCompile(`(w\d+w) <sup class="(footnote|footnoteref|footnoteref red)"([^>]*)>\[(?:<a( id="[^"]*")? class="footnote" href="#([^"]*)" title="View footnote.">(\d+)</a>|([A-Za-z0-9-]*))\]</sup>`)
	fnList  = regexp.MustCompile(`<div class="footnote" id="_footnotedef_(\d+)">\n<a href="#_footnoteref_(\d+)">(\d+)</a>\. (.*)\n</div>`)
	fnWord  = regexp.MustCompile(`w\d+w`)
	fnPlain = regexp.MustCompile(`v\d+v footnote:[A-Za-z0-9-]*\[[^\]]*\]`)
)

// fnText: the text of the content of a note
func fnText(s string) string {
	s = strings.ReplaceAll(s, "{a}", "val")
	return strings.NewReplacer("*", "", "_", "", "`", "", "+++", "").Replace(s)
}

func fnCheck(doc []string, out string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	src := strings.Join(doc, "\n")
	type mark struct {
		word, class, name string
		num               int
	}
	var want, got []mark
	var notes []string
	named := map[string]int{}
	for _, m := range fnMark.FindAllStringSubmatch(src, -1) {
		switch {
		case m[3] != "":
			notes = append(notes, fnText(m[3]))
			want = append(want, mark{m[1], "footnote", "", len(notes)})
			if _, ok := named[m[2]]; !ok {
				named[m[2]] = len(notes)
			}
		case m[2] != "" && named[m[2]] > 0:
			want = append(want, mark{m[1], "footnoteref", "", named[m[2]]})
		default:
			want = append(want, mark{m[1], "footnoteref red", m[2], 0})
		}
	}
	body, list := out, ""
	if k := strings.Index(out, `<div id="footnotes">`); k >= 0 {
		body, list = out[:k], out[k:]
	}
	for _, m := range fnOut.FindAllStringSubmatch(body, -1) {
		k := mark{m[1], m[2], m[7], 0}
		fmt.Sscan(m[6], &k.num)
		if k.num > 0 && m[5] != fmt.Sprintf("_footnotedef_%d", k.num) {
			verifNote("mark %s with number %d points to %s", k.word, k.num, m[5])
			return false
		}
		if k.class == "footnote" && m[4] != fmt.Sprintf(` id="_footnoteref_%d"`, k.num) {
			verifNote("mark %s with number %d has anchor %s", k.word, k.num, m[4])
			return false
		}
		got = append(got, k)
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		verifNote("marks: expected %v, got %v in\n%s", want, got, out)
		return false
	}
	if n := len(fnWord.FindAllString(htmlStrip(body), -1)); n != len(want) {
		verifNote("%d marks written, %d read in\n%s", n, len(want), out)
		return false
	}
	items := fnList.FindAllStringSubmatch(list, -1)
	if len(items) != len(notes) || strings.Count(list, `<div class="footnote"`) != len(notes) {
		verifNote("expected %d notes, got %d in\n%s", len(notes), len(items), out)
		return false
	}
	for i, m := range items {
		n := fmt.Sprint(i + 1)
		if m[1] != n || m[2] != n || m[3] != n || html.UnescapeString(htmlStrip(m[4])) != notes[i] {
			verifNote("note %d: expected %q, got %q (numbers %s %s %s)", i+1, notes[i], m[4], m[1], m[2], m[3])
			return false
		}
	}
	for _, p := range fnPlain.FindAllString(src, -1) {
		if !strings.Contains(html.UnescapeString(body), p) {
			verifNote("verbatim text changed: %q", p)
			return false
		}
	}
	return true
}

func gen_drive_footnotes(g *verifGen) []string {
	n := 0
	named := 0
	mark := func() string {
		n++
		w := fmt.Sprintf("w%dw ", n)
		content := fmt.Sprintf("c%d", n) + g.Str("", " and more", " *bold* x", " with _it_", " {a}", " < & >", " +++plus+++")
		name := g.Str("na", "nb", "nc")
		if g.Weighted(4, 1) == 1 { // names that differ a little
			name = g.Str("Na", "nA", "na2", "n2a", "n", "NB")
		}
		switch g.Weighted(5, 3, 3, 1) {
		case 0:
			return w + "footnote:[" + content + "]"
		case 1:
			named++
			return w + "footnote:" + name + "[" + content + "]"
		case 2:
			return w + "footnote:" + name + "[]"
		}
		return w + "footnote:[]"
	}
	d := []string{":a: val", ""}
	if g.Weighted(3, 1) == 1 {
		d = []string{"= Title", ":a: val", "", "preamble " + mark(), ""}
	}
	var block func(depth int) []string
	block = func(depth int) []string {
		switch g.Weighted(6, 2, 2, 2, 2, 2, 1, 1, 2, 1, 2, 1, 1) {
		case 0:
			return []string{"text " + mark() + " more " + g.Str("", mark()), "next line" + g.Str("", " "+mark()), ""}
		case 1:
			q := g.Str("*", "_", "`", "#")
			return []string{"text " + q + "q " + mark() + " q" + q + " more", ""}
		case 2:
			return []string{"text \"`q " + mark() + " q`\" more " + mark(), ""}
		case 3:
			return []string{"* item " + mark(), "** sub " + mark(), "* item " + mark(), ""}
		case 4:
			return []string{". item " + mark(), "+", "attached " + mark(), "", ". item *b " + mark() + "*", ""}
		case 5:
			return []string{"term " + mark() + ":: desc " + mark(), ""}
		case 6:
			return []string{"|===", "|h " + mark() + " |x", "", "|c " + mark() + " |*d " + mark() + "*", "|===", ""}
		case 7:
			return []string{"[options=\"header,footer\"]", "|===", "|h " + mark(), "|c " + mark(), "|f " + mark(), "|===", ""}
		case 8:
			if depth > 1 {
				return []string{"NOTE: text " + mark(), ""}
			}
			dl := g.Str("====", "****", "____", "--")
			out := []string{dl}
			out = append(out, block(depth+1+map[string]int{"--": 0}[dl])...)
			if depth == 0 && dl == "====" && g.Bool() {
				out = append([]string{"[NOTE]"}, out...)
			}
			for i := 1; i < len(out); i++ {
				if out[i] == dl && i > 1 {
					return []string{"NOTE: text " + mark(), ""} // nested block with the same delimiter
				}
			}
			return append(out, dl, "")
		case 9:
			return []string{"[verse]", "____", "line " + mark(), "____", ""}
		case 10:
			return []string{".Block title " + mark(), "text " + mark(), ""}
		case 11:
			return []string{"[quote,someone]", "quoted " + mark(), ""}
		}
		n++
		dl := g.Str("----", "....")
		return []string{dl, fmt.Sprintf("v%dv footnote:[x%d]", n, n), dl, ""}
	}
	for i := g.Len(6); i > 0; i-- {
		if g.Weighted(5, 1) == 1 {
			d = append(d, "== Section "+mark(), "")
		}
		if g.Weighted(40, 1) == 1 { // more than there are digits
			l := "many"
			for j := g.Int(9, 13); j > 0; j-- {
				l += " and " + mark()
			}
			d = append(d, l, "")
		}
		d = append(d, block(0)...)
	}
	return d
}

//verif:bounded drive_footnotes props=C05 n=3000
func contract_drive_footnotes(doc []string, out string, err error) {
	ensures(fnCheck(doc, out, err))
}
