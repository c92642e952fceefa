//go:build go1.21

package libasciidoc

// C08: bounded contract on whole conversions: the tree of the document, and the order of its content in the output

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/parser"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// a block of the source, and what it should become
type trBlock struct {
	lines []string
	tree  string // "" when it leaves no trace
	level int    // level of a section, -1 for other blocks
	empty bool   // an attribute declaration
}

type trDoc struct {
	title  int // 0: no header, 1: title, 2: title and attributes
	blocks []trBlock
}

func (d trDoc) source() string {
	var l []string
	switch d.title {
	case 1:
		l = append(l, "= Title", "")
	case 2:
		l = append(l, "= Title", "John Doe <j@doe.org>", ":foo: bar", "")
	}
	for _, b := range d.blocks {
		l = append(l, b.lines...)
		l = append(l, "")
	}
	return strings.Join(l, "\n")
}

func drive_tree(d trDoc) (tree string, out string, err error) {
	conf := func() *configuration.Configuration {
		return configuration.NewConfiguration(configuration.WithAttributes(types.Attributes{}))
	}
	src, err := parser.Preprocess(strings.NewReader(d.source()), conf())
	if err != nil {
		return "", "", err
	}
	doc, err := parser.ParseDocument(strings.NewReader(src), conf())
	if err != nil {
		return "", "", err
	}
	tree = trTree(doc.Elements)
	out, _, err = cvConvert(d.source(), conf())
	return tree, out, err
}

var trMark = regexp.MustCompile(`\bm\d+\b`)

func trTexts(v reflect.Value, b *strings.Builder) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			trTexts(v.Elem(), b)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			trTexts(v.Index(i), b)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if n := v.Type().Field(i).Name; n != "Attributes" {
				trTexts(v.Field(i), b)
			}
		}
	case reflect.String:
		b.WriteString(v.String() + " ")
	}
}

func trText(e interface{}) string {
	b := &strings.Builder{}
	trTexts(reflect.ValueOf(e), b)
	return strings.Join(trMark.FindAllString(b.String(), -1), "+")
}

// trTree: the tree as text
func trTree(elements []interface{}) string {
	var r []string
	for _, e := range elements {
		switch e := e.(type) {
		case *types.DocumentHeader:
			r = append(r, "header")
		case *types.Preamble:
			r = append(r, "preamble("+trTree(e.Elements)+")")
		case *types.Section:
			r = append(r, fmt.Sprintf("s%d:%s(%s)", e.Level, trText(e.Title), trTree(e.Elements)))
		case *types.DelimitedBlock:
			switch e.Kind {
			case types.Example, types.Quote, types.Sidebar, types.Open:
				r = append(r, "block("+trTree(e.Elements)+")")
			default:
				r = append(r, "verbatim:"+trText(e))
			}
		case *types.List:
			var items []string
			for _, i := range e.Elements {
				items = append(items, "item("+trTree(i.GetElements())+")")
			}
			r = append(r, "list("+strings.Join(items, " ")+")")
		case *types.AttributeDeclaration, *types.AttributeReset:
			r = append(r, "attr")
		default:
			k := strings.ToLower(strings.TrimPrefix(fmt.Sprintf("%T", e), "*types."))
			if t := trText(e); t != "" {
				k += ":" + t
			}
			r = append(r, k)
		}
	}
	return strings.Join(r, " ")
}

func (d trDoc) want() string {
	type node struct {
		level int
		tree  []string
		head  string
	}
	stack := []node{{level: -1}}
	closeTo := func(level int) {
		for len(stack) > 1 && stack[len(stack)-1].level >= level {
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			p := &stack[len(stack)-1]
			p.tree = append(p.tree, n.head+"("+strings.Join(n.tree, " ")+")")
		}
	}
	pre := -1 // number of elements before the first section
	content := false
	for _, b := range d.blocks {
		if b.level >= 0 {
			if pre < 0 {
				pre = len(stack[0].tree)
			}
			closeTo(b.level)
			stack = append(stack, node{level: b.level, head: b.tree})
			continue
		}
		content = content || pre < 0 && b.tree != "" && !b.empty
		if b.tree != "" {
			t := &stack[len(stack)-1]
			t.tree = append(t.tree, b.tree)
		}
	}
	closeTo(-1)
	top := stack[0].tree
	if d.title > 0 {
		if pre > 0 && content {
			top = append([]string{"preamble(" + strings.Join(top[:pre], " ") + ")"}, top[pre:]...)
		}
		top = append([]string{"header"}, top...)
	}
	return strings.Join(top, " ")
}

func trCheck(d trDoc, tree, out string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	if w := d.want(); w != tree {
		verifNote("tree: expected\n%s\ngot\n%s\nof\n%s", w, tree, d.source())
		return false
	}
	var want, got []string
	for _, b := range d.blocks {
		if b.tree != "" {
			want = append(want, trMark.FindAllString(b.tree, -1)...)
		}
	}
	for _, m := range trMark.FindAllString(out, -1) {
		if len(got) == 0 || got[len(got)-1] != m {
			got = append(got, m)
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		verifNote("order: expected %v, got %v in\n%s", want, got, out)
		return false
	}
	return true
}

func trBlockOf(g *verifGen, next func() string, inner bool, list bool) trBlock {
	b := trBlock{level: -1}
	w := []int{8, 2, 2, 2, 2, 2, 1, 2, 1, 2, 2, 1, 1}
	if inner {
		w[2], w[4] = 0, 0
	}
	if list {
		w[3] = 0
	}
	switch g.Weighted(w...) {
	case 0:
		m := next()
		b.lines, b.tree = []string{m + " text"}, "paragraph:"+m
		if g.Weighted(4, 1) == 1 {
			m2 := next()
			b.lines, b.tree = []string{m, "// comment", "and " + m2}, "paragraph:"+m+"+"+m2
		}
	case 1:
		m := next()
		b.lines, b.tree = []string{"----", "== " + m, "", "// no comment", "----"}, "verbatim:"+m
		if g.Bool() {
			b.lines[0], b.lines[4] = "....", "...."
		}
	case 2: // a block with blocks
		d := g.Str("====", "____", "****", "--")
		b.lines = []string{d}
		var t []string
		was := false
		for i := g.Int(1, 3); i > 0; i-- {
			x := trBlockOf(g, next, true, was)
			was = strings.HasPrefix(x.tree, "list")
			b.lines = append(b.lines, x.lines...)
			if i > 1 {
				b.lines = append(b.lines, "")
			}
			if x.tree != "" {
				t = append(t, x.tree)
			}
		}
		b.lines = append(b.lines, d)
		b.tree = "block(" + strings.Join(t, " ") + ")"
	case 3:
		var t []string
		mark := g.Str("* ", "- ", ". ")
		for i := g.Int(1, 3); i > 0; i-- {
			m := next()
			b.lines = append(b.lines, mark+m)
			t = append(t, "item(paragraph:"+m+")")
		}
		b.tree = "list(" + strings.Join(t, " ") + ")"
	case 4:
		m := next()
		b.lines, b.tree = []string{"|===", "|" + m, "|==="}, "table:"+m
	case 5:
		m := next()
		b.lines, b.tree = []string{"image::" + m + ".png[]"}, "imageblock:"+m
	case 6:
		b.lines, b.tree = []string{"'''"}, "thematicbreak"
	case 7:
		m := next()
		b.lines, b.tree = []string{g.Str("NOTE: ", "TIP: ", " ") + m}, "paragraph:"+m
	case 8:
		m := next()
		b.lines, b.tree = []string{"[#id-" + m[1:] + "]", ".title", m}, "paragraph:"+m
	case 9:
		b.lines, b.tree, b.empty = []string{g.Str(":x: y", ":!x:", ":zz:")}, "attr", true
	case 10:
		b.lines = []string{"// a comment"}
	case 11:
		b.lines = []string{"////", "a comment", "", "== no heading", "////"}
	case 12:
		m := next()
		b.lines, b.tree = []string{"```", "= " + m, "```"}, "verbatim:"+m
	}
	return b
}

func gen_drive_tree(g *verifGen) trDoc {
	d := trDoc{title: g.Weighted(2, 3, 1)}
	n := 0
	next := func() string {
		n++
		return fmt.Sprintf("m%d", n)
	}
	list := false
	for i := g.Len(14); i > 0; i-- {
		if g.Weighted(3, 2) == 1 {
			lv := g.Weighted(0, 5, 4, 4, 2, 1)
			if d.title > 0 && g.Weighted(9, 1) == 1 && n > 0 {
				lv = 0
			}
			m := next()
			d.blocks = append(d.blocks, trBlock{level: lv, lines: []string{strings.Repeat("=", lv+1) + " " + m}, tree: fmt.Sprintf("s%d:%s", lv, m)})
			list = false
			continue
		}
		b := trBlockOf(g, next, false, list)
		if b.tree != "" {
			list = strings.HasPrefix(b.tree, "list")
		}
		d.blocks = append(d.blocks, b)
	}
	return d
}

//verif:bounded drive_tree props=C08,C14 n=3000
func contract_drive_tree(d trDoc, tree string, out string, err error) {
	ensures(trCheck(d, tree, out, err))
}
