//go:build go1.21

package libasciidoc

// C07, C09: bounded contracts on whole conversions: numbers of the sections, and table of contents.

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

func tocConvert(doc []string, attrs types.Attributes) (string, types.Metadata, error) {
	return cvConvert(strings.Join(doc, "\n")+"\n", configuration.NewConfiguration(configuration.WithAttributes(attrs)))
}

func drive_numbers(doc []string, attrs types.Attributes) (string, types.Metadata, error) {
	return tocConvert(doc, attrs)
}

func drive_toc(doc []string, attrs types.Attributes) (string, types.Metadata, error) {
	return tocConvert(doc, attrs)
}

type tocSec struct {
	level  int
	title  string
	number string
}

var tocHeading = regexp.MustCompile(`^(=+) (t\d+)$`)
var tocHead = regexp.MustCompile(`<h([1-6]) id="_(t\d+)"[^>]*>(?:([0-9.]+)\. )?([^<]*)</h[1-6]>`)

// tocSections: the sections of the document, with the numbers they should have
func tocSections(doc []string, attrs types.Attributes) []tocSec {
	type open struct {
		level, counter int
		number         string
		numbered       bool
	}
	stack := []open{{level: -1, numbered: true}}
	on, locked := false, false
	for _, n := range []string{"sectnums", "numbered"} {
		if v, ok := attrs[n]; ok {
			on, locked = on || v != nil, true
		}
	}
	var secs []tocSec
	delim := ""
	for i, l := range doc {
		if l == "----" || l == "====" {
			if delim == "" {
				delim = l
			} else if delim == l {
				delim = ""
			}
		}
		if delim != "" || i == 0 && strings.HasPrefix(l, "= ") {
			continue
		}
		if !locked {
			switch l {
			case ":sectnums:", ":numbered:", ":sectnums: all":
				on = true
			case ":!sectnums:", ":sectnums!:", ":!numbered:":
				on = false
			}
		}
		m := tocHeading.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		s := tocSec{level: len(m[1]) - 1, title: m[2]}
		for stack[len(stack)-1].level >= s.level {
			stack = stack[:len(stack)-1]
		}
		p := &stack[len(stack)-1]
		if on && p.numbered {
			p.counter++
			s.number = fmt.Sprint(p.counter)
			if p.number != "" {
				s.number = p.number + "." + s.number
			}
		}
		stack = append(stack, open{level: s.level, number: s.number, numbered: s.number != ""})
		secs = append(secs, s)
	}
	return secs
}

func numCheck(doc []string, attrs types.Attributes, out string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	want := tocSections(doc, attrs)
	var got []tocSec
	for _, m := range tocHead.FindAllStringSubmatch(out, -1) {
		got = append(got, tocSec{level: int(m[1][0] - '1'), title: m[4], number: m[3]})
		if m[2] != m[4] {
			verifNote("section %q has id %q", m[4], m[2])
			return false
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		verifNote("sections: expected %v, got %v", want, got)
		return false
	}
	return true
}

type tocItem struct {
	depth  int
	id     string
	number string
	title  string
}

func tocTree(depth int, sections []*types.ToCSection, add func(tocItem)) {
	for _, s := range sections {
		add(tocItem{depth, s.ID, s.Number, s.Title})
		tocTree(depth+1, s.Children, add)
	}
}

var tocText = regexp.MustCompile(`^(?:([0-9.]+)\. )?(.*)$`)

func tocCheck(doc []string, attrs types.Attributes, out string, meta types.Metadata, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	depth := 2
	for _, l := range doc {
		if strings.HasPrefix(l, ":toclevels:") {
			fmt.Sscan(l[len(":toclevels:"):], &depth)
		}
	}
	if v, ok := attrs["toclevels"]; ok && v == nil {
		depth = 2
	} else if ok {
		fmt.Sscan(fmt.Sprint(v), &depth)
	}
	var want, meta1, html1 []tocItem
	var stack []int
	for _, s := range tocSections(doc, attrs) {
		if s.level > depth {
			continue
		}
		for len(stack) > 0 && stack[len(stack)-1] >= s.level {
			stack = stack[:len(stack)-1]
		}
		want = append(want, tocItem{len(stack), "_" + s.title, s.number, s.title})
		stack = append(stack, s.level)
	}
	if meta.TableOfContents != nil {
		tocTree(0, meta.TableOfContents.Sections, func(i tocItem) { meta1 = append(meta1, i) })
	}
	if fmt.Sprint(want) != fmt.Sprint(meta1) {
		verifNote("entries: expected %v, got %v", want, meta1)
		return false
	}
	k := strings.Index(out, `<div id="toc"`)
	v, placed := attrs["toc"]
	if placed && v == nil {
		if k >= 0 {
			verifNote("table of contents although the caller unset it")
			return false
		}
		return true
	}
	placed = placed || strings.Contains(strings.Join(doc, "\n"), ":toc:")
	if k < 0 {
		if placed && len(want) > 0 {
			verifNote("no table of contents in\n%s", out)
			return false
		}
		return true
	}
	toc := out[k:]
	toc = toc[:strings.Index(toc, "</div>\n</div>")+len("</div>\n</div>")]
	if e := strings.Index(out[k:], "</ul>\n</div>"); e >= 0 {
		toc = out[k:][:e]
	}
	ul := -1
	id := ""
	for _, t := range htmlTokens(toc) {
		switch {
		case t.Kind == '<' && t.Name == "ul":
			ul++
		case t.Kind == '/' && t.Name == "ul":
			ul--
		case t.Kind == '<' && t.Name == "a":
			id = strings.TrimPrefix(t.Attrs["href"], "#")
		case t.Kind == '/' && t.Name == "a":
			id = ""
		case t.Kind == 't' && id != "":
			m := tocText.FindStringSubmatch(t.Text)
			html1 = append(html1, tocItem{ul, id, m[1], m[2]})
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(html1) {
		verifNote("table of contents: expected %v, got %v in\n%s", want, html1, toc)
		return false
	}
	return true
}

func tocDoc(g *verifGen, toc bool) ([]string, types.Attributes) {
	var d []string
	attrs := types.Attributes{}
	n := 0
	title := g.Bool()
	if title {
		d = append(d, "= Title")
	}
	if toc {
		if g.Weighted(3, 1) == 0 {
			d = append(d, ":toc:")
		} else {
			attrs["toc"] = ""
		}
		if g.Weighted(15, 1) == 1 {
			attrs[g.Str("toc", "toclevels")] = nil
		}
		if g.Bool() {
			d = append(d, fmt.Sprintf(":toclevels: %d", g.Int(1, 5)))
		}
		if g.Weighted(6, 1) == 1 {
			attrs["toclevels"] = fmt.Sprint(g.Int(1, 4))
		}
	}
	if g.Bool() {
		d = append(d, g.Str(":sectnums:", ":sectnums:", ":numbered:", ":sectnums: all"))
	}
	if g.Weighted(7, 1) == 1 {
		attrs[g.Str("sectnums", "numbered")] = ""
	}
	if g.Weighted(9, 1) == 1 {
		attrs[g.Str("sectnums", "numbered")] = nil
	}
	if len(d) > 0 {
		d = append(d, "")
	}
	toggle := func() {
		if g.Weighted(5, 1) == 1 {
			d = append(d, g.Str(":sectnums:", ":!sectnums:", ":sectnums!:", ":numbered:", ":!numbered:"), "")
		}
	}
	content := func() {
		switch g.Weighted(5, 3, 1, 1) {
		case 1:
			d = append(d, "some text", "")
		case 2:
			d = append(d, "----", "== t0", ":sectnums:", "----", "")
		case 3:
			d = append(d, "* item", "", "====", "text", "====", "")
		}
	}
	toggle()
	content()
	toggle()
	many, at := 0, 1
	if g.Weighted(14, 1) == 1 { // more siblings than there are digits
		many, at = g.Int(9, 13), g.Int(1, 3)
	}
	for i := g.Len(9) + many; i > 0; i-- {
		n++
		lv := g.Weighted(0, 5, 5, 4, 2, 1)
		if many > 0 && g.Weighted(1, 9) == 1 {
			lv = at
			if g.Weighted(5, 1) == 1 {
				lv++
			}
		}
		if title && g.Weighted(14, 1) == 1 {
			lv = 0
		}
		d = append(d, strings.Repeat("=", lv+1)+fmt.Sprintf(" t%d", n), "")
		toggle()
		content()
		toggle()
	}
	return d, attrs
}

func gen_drive_numbers(g *verifGen) ([]string, types.Attributes) { return tocDoc(g, false) }

func gen_drive_toc(g *verifGen) ([]string, types.Attributes) { return tocDoc(g, true) }

//verif:bounded drive_numbers props=C07 n=3000
func contract_drive_numbers(doc []string, attrs types.Attributes, out string, meta types.Metadata, err error) {
	ensures(numCheck(doc, attrs, out, err))
}

//verif:bounded drive_toc props=C09 n=3000
func contract_drive_toc(doc []string, attrs types.Attributes, out string, meta types.Metadata, err error) {
	ensures(tocCheck(doc, attrs, out, meta, err))
}
