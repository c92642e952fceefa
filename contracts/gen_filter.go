//go:build go1.21

package libasciidoc

// C14: bounded contract on whole conversions: a document with comments and surplus blank lines converts to the
// very same output as the one without them, and everything else reaches the output, in its order

import (
	"fmt"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// a line, and whether it's a comment or a surplus blank line
type flLine struct {
	text string
	drop bool
}

type flDoc struct {
	lines []flLine
}

func (d flDoc) source(all bool) string {
	b := &strings.Builder{}
	for _, l := range d.lines {
		if all || !l.drop {
			b.WriteString(l.text + "\n")
		}
	}
	return b.String()
}

func drive_filter(d flDoc) (with string, without string, err error) {
	conf := func() *configuration.Configuration {
		return configuration.NewConfiguration(configuration.WithAttributes(types.Attributes{}))
	}
	if with, _, err = cvConvert(d.source(true), conf()); err != nil {
		return with, without, err
	}
	without, _, err = cvConvert(d.source(false), conf())
	return with, without, err
}

type flGen struct {
	g *verifGen
	d *flDoc
	n int
}

func (f *flGen) next() string {
	f.n++
	return fmt.Sprintf("m%d", f.n)
}

func (f *flGen) put(lines ...string) {
	for _, l := range lines {
		f.d.lines = append(f.d.lines, flLine{text: l})
	}
}

func (f *flGen) drop(lines ...string) {
	for _, l := range lines {
		f.d.lines = append(f.d.lines, flLine{text: l, drop: true})
	}
}

// comments: some single line comments, maybe
func (f *flGen) comments() {
	for f.g.Weighted(3, 1) == 1 {
		f.drop(f.g.Str("//", "// gone", "//gone", "// == gone", "// |gone", "// * gone", "// gone:: gone", "// [[gone]]", "// {counter:gone}",
			"// footnote:[gone]", "// ----", "// // gone", "//  <<gone>> *gone*", "// +", "//\tgone", "// [gone]", "//* gone", "//|==="))
	}
}

// between: what may come between two blocks
func (f *flGen) between() {
	f.put("")
	for f.g.Weighted(3, 1) == 1 {
		switch f.g.Int(0, 2) {
		case 0:
			f.drop("")
		case 1:
			f.drop("////", f.g.Str("gone", "== gone", "* gone", "----", "|===", ":m1: gone", "[quote]", "++++", "// gone", ""), f.g.Str("gone", "", "gone"), "////", "")
		case 2:
			f.drop("// gone", "")
		}
	}
}

func (f *flGen) attributes() {
	for f.g.Weighted(3, 1) == 1 {
		f.put(f.g.Str("[.role]", ".Title", "[#an_id]", "[[an_id]]", "[%option]"))
		f.comments()
	}
}

// hidden: comment blocks only, attached to the element of a list
func (f *flGen) hidden() {
	for n := f.g.Int(1, 2); n > 0; n-- {
		f.drop("+")
		f.comments()
		f.drop("////", f.g.Str("gone", "gone:: gone", "* gone", "+"), "////")
	}
}

// text: the lines of a paragraph from its second one on
func (f *flGen) text() {
	for f.g.Weighted(1, 2) == 1 {
		f.comments()
		f.put(f.g.Str("", "/// ", "*b* ", "x // ") + f.next())
	}
	f.comments()
}

func (f *flGen) verbatim() {
	for i := f.g.Int(1, 4); i > 0; i-- {
		f.put(f.g.Str("", "// ", "//", "/// ", "  // ", "x // ") + f.next())
	}
}

func (f *flGen) block(inner, list bool) bool {
	w := []int{6, 2, 2, 2, 3, 2, 1, 1, 1, 1}
	if list {
		w[2], w[3], w[4] = 0, 0, 0
	}
	switch f.g.Weighted(w...) {
	case 0: // a paragraph
		f.comments()
		f.attributes()
		f.put(f.g.Str("", "NOTE: ", "TIP: ", "") + f.next())
		f.text()
	case 1: // a paragraph with its content as is
		f.put(f.g.Str("[source]", "[listing]", "[literal]", "[verse]", "[source,go]", "[pass]"))
		f.comments()
		f.put(f.next())
		f.verbatim()
	case 2: // a literal paragraph
		f.put(" " + f.next())
		for f.g.Bool() {
			f.put(f.g.Str(" ", "// ", " // ", "//", "") + f.next())
		}
	case 3: // a block with its content as is
		f.attributes()
		d := f.g.Str("----", "....", "```", "++++")
		f.put(d)
		for i := f.g.Int(1, 3); i > 0; i-- {
			f.verbatim()
			if i > 1 {
				f.put("")
			}
		}
		f.put(d)
	case 4: // a list
		f.attributes()
		mark := f.g.Str("* ", "- ", ". ", "t:: ")
		for i := f.g.Int(1, 3); i > 0; i-- {
			if mark == "t:: " && i > 1 && f.g.Weighted(2, 1) == 1 { // without description
				f.n++
				f.put(fmt.Sprintf("m%d::", f.n))
				if f.g.Weighted(2, 1) == 1 {
					f.hidden()
					continue
				}
			} else {
				f.put(mark + f.next())
				f.text()
			}
			for f.g.Weighted(2, 1) == 1 {
				f.put("+")
				f.comments()
				switch f.g.Int(0, 4) {
				case 0, 1:
					f.put(f.next())
					f.text()
				case 2:
					f.put("----", f.next())
					f.verbatim()
					f.put("----")
					f.comments()
				case 3:
					f.put("[source]", f.next())
					f.verbatim()
				case 4:
					f.put("****", f.next())
					f.text()
					f.between()
					f.put(f.next())
					f.text()
					f.put("****")
					f.comments()
				}
			}
		}
		return true
	case 5: // blocks in a block
		if inner {
			f.put(f.next())
			f.text()
			return false
		}
		f.attributes()
		d := f.g.Str("====", "____", "--")
		f.put(d)
		was := false
		for i := f.g.Int(1, 3); i > 0; i-- {
			was = f.block(true, was)
			if i > 1 {
				f.between()
			}
		}
		f.put(d)
	case 6: // a table
		if inner {
			f.put(f.next())
			f.text()
			return false
		}
		f.attributes()
		f.put("|===")
		f.comments()
		n := f.g.Int(1, 3)
		for i := f.g.Int(1, 4); i > 0; i-- {
			l := ""
			for j := 0; j < n; j++ {
				l += "|" + f.g.Str("", "// ", " // ") + f.next() + " "
			}
			f.put(l)
			f.comments()
		}
		f.put("|===")
	case 7:
		if inner {
			f.put("image::" + f.next() + ".png[]")
			return false
		}
		f.attributes()
		f.put("[verse]", "____", f.next())
		f.verbatim()
		f.put("____")
	case 8:
		f.put("> "+f.next(), "> // "+f.next())
	case 9:
		f.comments()
		f.put("image::" + f.next() + ".png[]")
	}
	return false
}

func gen_drive_filter(g *verifGen) flDoc {
	d := flDoc{}
	f := &flGen{g: g, d: &d}
	for g.Weighted(2, 1) == 1 {
		switch g.Int(0, 3) {
		case 0:
			f.drop("")
		case 1:
			f.drop("////", "gone", "", "= gone", "////")
		case 2:
			f.drop("// gone", "")
		case 3:
			f.comments()
		}
	}
	if g.Bool() {
		if g.Weighted(3, 1) == 1 {
			f.put(":x: y")
			f.comments()
		}
		f.put("= Title")
		f.comments()
		if g.Bool() {
			f.put("John Doe <john@doe.org>")
			f.comments()
		}
		for g.Bool() {
			f.put(g.Str(":a: b", ":!c:"))
			f.comments()
		}
		f.between()
	}
	list := false
	for i := g.Len(6); i > 0; i-- {
		if g.Weighted(4, 1) == 1 {
			f.comments()
			f.put(strings.Repeat("=", g.Int(2, 4)) + " " + f.next())
			f.comments()
			f.put("")
			list = false
			continue
		}
		list = f.block(false, list)
		f.between()
	}
	return d
}

// flNormal: without the line breaks that mean nothing
func flNormal(s string) string {
	b := &strings.Builder{}
	for i, p := range strings.Split(s, "<pre") {
		if j := strings.Index(p, "</pre>"); i > 0 && j >= 0 {
			b.WriteString("<pre" + p[:j])
			p = p[j:]
		}
		b.WriteString(strings.ReplaceAll(strings.Join(strings.Fields(p), " "), " </p>", "</p>"))
	}
	return b.String()
}

func flCheck(d flDoc, with, without string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	var want, got []string
	for _, l := range d.lines {
		if !l.drop {
			want = append(want, trMark.FindAllString(l.text, -1)...)
		}
	}
	body := with
	if i := strings.Index(with, `<div class="toc"`); i >= 0 {
		body = with[:i]
	}
	for _, m := range trMark.FindAllString(body, -1) {
		if len(got) == 0 || got[len(got)-1] != m {
			got = append(got, m)
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		verifNote("content: expected %v, got %v in\n%s\nof\n%s", want, got, with, d.source(true))
		return false
	}
	if strings.Contains(with, "gone") {
		verifNote("comment in the output:\n%s\nof\n%s", with, d.source(true))
		return false
	}
	if flNormal(with) != flNormal(without) {
		verifNote("expected\n%s\nas without comments, got\n%s\nof\n%s", without, with, d.source(true))
		return false
	}
	return true
}

//verif:bounded drive_filter props=C14 n=3000
func contract_drive_filter(d flDoc, with string, without string, err error) {
	ensures(flCheck(d, with, without, err))
}
