//go:build go1.21

package libasciidoc

// C17: bounded contract on whole conversions: items of lists nest by marker and keep their order,
// and attached blocks belong to their item

import (
	"fmt"
	"regexp"
	"strings"
)

type listDoc struct {
	lines []string
	want  string // lists with their items and texts, in order
}

type listNode struct {
	kind, marker string
	items        []*itemNode
}

type itemNode struct {
	content []interface{} // texts and lists
}

type listGen struct {
	g       *verifGen
	n       int
	markers map[string]string // form of the markers in the document
	within  map[string]bool   // delimiters of the open blocks
}

func (n *listNode) String() string {
	b := &strings.Builder{}
	b.WriteString(n.kind + "(")
	for _, i := range n.items {
		b.WriteString("[")
		for _, c := range i.content {
			fmt.Fprintf(b, "%v ", c)
		}
		b.WriteString("]")
	}
	b.WriteString(")")
	return b.String()
}

func (l *listGen) text() string {
	l.n++
	return fmt.Sprintf("X%dq", l.n)
}

// the markers of each kind, from the first level on
var listMarkers = map[string][]string{"ul": {"*", "**", "***", "****", "*****", "-"}, "ol": {".", "..", "...", "....", "....."}, "dl": {"::", ":::", "::::"}}

// item gives the lines of an item, with its texts
func (l *listGen) item(kind, marker string, last bool) ([]string, *itemNode, bool) {
	g := l.g
	n := &itemNode{}
	t := l.text()
	n.content = append(n.content, t)
	w := t + g.Str("", "", "", " word", " *bold*", " a: b", " x + y")
	indent := g.Str("", "", "", " ", "  ", "\t")
	if f := l.markers[marker]; f != "" {
		marker = f
	}
	lines := []string{}
	open := true // whether other lines may follow the text
	if kind == "dl" {
		bare := 1
		if last {
			bare = 0
		}
		switch g.Weighted(3, 2, bare) {
		case 0:
			t := l.text()
			n.content = append(n.content, t)
			lines = append(lines, w+marker+" "+t)
		case 1:
			t := l.text()
			n.content = append(n.content, t)
			lines = append(lines, w+marker, t)
			if g.Weighted(3, 1) == 1 {
				lines = []string{w + marker, "", t}
			}
		default:
			lines = append(lines, w+marker)
			open = false
		}
	} else {
		if kind == "ul" && g.Weighted(6, 1) == 1 {
			w = g.Str("[ ] ", "[x] ", "[*] ") + w
		}
		lines = append(lines, indent+marker+g.Str(" ", " ", "  ", "\t")+w)
	}
	for open && g.Weighted(4, 1) == 1 {
		t := l.text()
		n.content = append(n.content, t)
		lines = append(lines, g.Str("", "", "  ")+t)
		if g.Weighted(4, 1) == 1 {
			lines = append(lines, "// comment")
		}
	}
	return lines, n, open
}

// block gives the lines of an attached block, with its content
func (l *listGen) block(depth int) ([]string, []interface{}) {
	g := l.g
	t := l.text()
	one := []interface{}{t}
	pre := []string{}
	if g.Weighted(5, 1) == 1 {
		pre = append(pre, g.Str("[.role]", "[#id"+t+"]", "[role=r]"))
	}
	switch g.Weighted(6, 2, 2, 2, 2, 3, 1, 1, 1) {
	case 1:
		return append(pre, "----", t, "* no item", "----"), one
	case 2:
		return append(pre, "....", t, "", ". no item", "...."), one
	case 3:
		return append(pre, "NOTE: "+t), one
	case 4:
		return append(pre, "|===", "|"+t, "|==="), one
	case 5:
		if depth < 2 {
			if lines, content := l.inBlock(depth, 3); lines != nil {
				return append(pre, lines...), content
			}
		}
	case 6:
		if l.within["****"] {
			break
		}
		u := l.text()
		return append(pre, "****", t, "", u, "****"), []interface{}{t, u}
	case 7:
		return append(pre, " "+t), one
	case 8:
		u := l.text()
		return append(pre, "// comment", t, u), []interface{}{t, u}
	}
	return append(pre, t), one
}

// inBlock gives the lines of a delimited block with a list
func (l *listGen) inBlock(depth, max int) ([]string, []interface{}) {
	g := l.g
	d := g.Str("====", "--", "____", "****")
	if l.within[d] {
		return nil, nil
	}
	l.within[d] = true
	defer delete(l.within, d)
	src, content := l.lists(depth+1, max)
	lines := []string{d}
	if d == "====" && g.Weighted(3, 1) == 1 {
		lines = []string{"[NOTE]", d}
	}
	if g.Weighted(2, 1) == 1 { // a paragraph before
		t := l.text()
		lines = append(lines, t, "")
		content = append([]interface{}{t}, content...)
	}
	lines = append(lines, src...)
	if g.Weighted(2, 1) == 1 { // something after
		t := l.text()
		lines = append(lines, "", "----", t, "----")
		content = append(content, t)
	}
	return append(lines, d), content
}

// lists gives the lines of a sequence of items, with the lists
func (l *listGen) lists(depth, max int) ([]string, []interface{}) {
	g := l.g
	var lines []string
	var root *listNode
	var stack []*listNode
	kinds := []string{"ul"}
	switch g.Int(0, 3) {
	case 0:
		kinds = []string{"ul", "ol"}
	case 1:
		kinds = []string{"ul", "ol", "dl"}
	case 2:
		kinds = []string{"ol", "dl", "ul"}
	}
	for i := g.Int(1, max); i > 0; i-- {
		kind := kinds[g.Int(0, len(kinds)-1)]
		var marker string
		if len(stack) > 0 && g.Weighted(1, 1) == 0 { // a marker in use
			s := stack[g.Int(0, len(stack)-1)]
			kind, marker = s.kind, s.marker
		} else {
			marker = listMarkers[kind][g.Int(0, len(listMarkers[kind])-1)]
			if len(stack) > 0 && kind == "ul" && marker != "-" {
				// no level of asterisks is skipped
				if top := stack[len(stack)-1]; top.kind == "ul" && top.marker != "-" && len(marker) > len(top.marker)+1 {
					marker = top.marker + "*"
				}
			}
		}
		k := -1
		for j, s := range stack {
			if s.kind == kind && s.marker == marker {
				k = j
			}
		}
		if len(stack) > 0 && !strings.HasSuffix(lines[len(lines)-1], "::") || len(stack) > 0 && g.Bool() {
			for g.Weighted(3, 1) == 1 {
				lines = append(lines, "")
			}
		}
		if k < 0 && len(stack) == 0 && g.Weighted(5, 1) == 1 {
			lines = append(lines, g.Str("[.role]", ".title", "[#id"+l.text()+"]"))
		}
		src, n, open := l.item(kind, marker, i == 1)
		lines = append(lines, src...)
		if k < 0 {
			s := &listNode{kind: kind, marker: marker}
			if len(stack) > 0 {
				top := stack[len(stack)-1]
				item := top.items[len(top.items)-1]
				item.content = append(item.content, s)
			} else {
				root = s
			}
			stack = append(stack, s)
		} else {
			stack = stack[:k+1]
		}
		top := stack[len(stack)-1]
		top.items = append(top.items, n)
		_ = open
		for g.Weighted(5, 1) == 1 { // attached block
			up := 0
			if g.Weighted(3, 1) == 1 && lines[len(lines)-1] != "" && !strings.HasSuffix(lines[len(lines)-1], ":") {
				up = g.Int(1, len(stack))
			}
			for j := 0; j < up; j++ {
				lines = append(lines, g.Str("", "", " "))
				if len(stack) > 1 {
					stack = stack[:len(stack)-1]
				}
			}
			src, content := l.block(depth)
			lines = append(lines, "+"+g.Str("", "", " "))
			lines = append(lines, src...)
			top := stack[len(stack)-1]
			item := top.items[len(top.items)-1]
			item.content = append(item.content, content...)
		}
	}
	return lines, []interface{}{root}
}

func gen_drive_lists(g *verifGen) *listDoc {
	l := &listGen{g: g, markers: map[string]string{}, within: map[string]bool{}}
	if g.Weighted(2, 1) == 1 {
		l.markers["."] = g.Str("1.", "2.", "10.")
		l.markers[".."] = g.Str("a.", "c.")
		l.markers["..."] = g.Str("i)", "v)")
		l.markers["...."] = g.Str("A.", "C.")
		l.markers["....."] = g.Str("I)", "V)")
	}
	d := &listDoc{lines: []string{}}
	for i := g.Int(1, 2); i > 0; i-- {
		lines, content := []string(nil), []interface{}(nil)
		if g.Weighted(4, 1) == 1 {
			lines, content = l.inBlock(0, 6)
		} else {
			lines, content = l.lists(0, 8)
		}
		d.lines = append(d.lines, lines...)
		for _, c := range content {
			d.want += fmt.Sprintf("%v ", c)
		}
		d.lines = append(d.lines, "", "'''", "")
	}
	return d
}

var listTokenRE = regexp.MustCompile(`</?(?:ul|ol|dl|li|dt|dd)\b[^>]*>|X[0-9]+q`)

// listTree gives the lists in the output, with their items and texts
func listTree(out string) string {
	b := &strings.Builder{}
	pending := []bool{} // whether a term is open, in the labeled lists
	for _, tok := range listTokenRE.FindAllString(out, -1) {
		if tok[0] == 'X' {
			b.WriteString(tok + " ")
			continue
		}
		name := strings.Trim(strings.Fields(tok)[0], "<>")
		switch name {
		case "ul", "ol", "dl":
			b.WriteString(name + "(")
			if name == "dl" {
				pending = append(pending, false)
			}
		case "/ul", "/ol":
			b.WriteString(") ")
		case "/dl":
			if n := len(pending); n > 0 {
				if pending[n-1] {
					b.WriteString("]")
				}
				pending = pending[:n-1]
			}
			b.WriteString(") ")
		case "li":
			b.WriteString("[")
		case "/li":
			b.WriteString("]")
		case "dt":
			if n := len(pending); n > 0 {
				if pending[n-1] {
					b.WriteString("]")
				}
				pending[n-1] = true
			}
			b.WriteString("[")
		}
	}
	return b.String()
}

var listIDsRE = regexp.MustCompile(` id="[^"]*"`)

func listsCheck(d *listDoc, out string, err error) bool {
	if err != nil {
		verifNote("%v", err)
		return false
	}
	got := listTree(listIDsRE.ReplaceAllString(out, ""))
	if got != d.want {
		verifNote("expected %s\n     got %s\n from\n%s", d.want, got, strings.Join(d.lines, "\n"))
		return false
	}
	return true
}

func drive_lists(d *listDoc) (string, error) {
	return cvBody(d.lines)
}

//verif:bounded drive_lists props=C17 n=4000
func contract_drive_lists(d *listDoc, out string, err error) {
	ensures(listsCheck(d, out, err))
}
