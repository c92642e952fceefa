//go:build go1.21

package libasciidoc

// C18: bounded contract on whole conversions: elements with attributes given in all the ways there are;
// the ID, the classes and the other properties of the elements in the output are compared with what the
// attributes say

import (
	"fmt"
	"sort"
	"strings"
)

// clSet: the attributes of an element, as given one after the other
type clSet struct {
	id, title string
	roles     []string
	opts      []string
	pos       [4]string
	named     map[string]string
}

func (s *clSet) has(opt string) bool {
	for _, o := range s.opts {
		if o == opt {
			return true
		}
	}
	return false
}

type clElement struct {
	kind   string
	lines  []string
	want   []string // what's expected, as "tag attr=value"
	inline bool
}

var clIDs = []string{"i1", "i2", "some-id", "z_9"}
var clRoles = []string{"r1", "r2", "r3", "lead", "a-b"}

// clBracket: a list of attributes between brackets, applied to s
func clBracket(g *verifGen, s *clSet, first, second, third []string, named map[string][]string, opts []string) string {
	var parts []string
	p1 := ""
	if len(first) > 0 && g.Bool() {
		p1 = g.Str(first...)
	}
	head := p1
	for i := g.Weighted(3, 2, 2, 1); i > 0; i-- {
		switch g.Weighted(2, 4, 2) {
		case 0:
			s.id = g.Str(clIDs...)
			head += "#" + s.id
		case 1:
			r := g.Str(clRoles...)
			s.roles = append(s.roles, r)
			head += "." + r
		default:
			if len(opts) > 0 {
				o := g.Str(opts...)
				s.opts = append(s.opts, o)
				head += "%" + o
			}
		}
	}
	if p1 != "" {
		s.pos[1] = p1
	}
	p2, p3 := "", ""
	if len(second) > 0 && g.Weighted(2, 1) == 1 {
		p2 = g.Str(second...)
		s.pos[2] = p2
	}
	if len(third) > 0 && g.Weighted(3, 1) == 1 {
		p3 = g.Str(third...)
		s.pos[3] = p3
	}
	sep := g.Str(",", ", ")
	switch {
	case p3 != "":
		parts = append(parts, head, p2, p3)
	case p2 != "":
		parts = append(parts, head, p2)
	case head != "":
		parts = append(parts, head)
	}
	for i := g.Weighted(3, 2, 1, 1); i > 0; i-- {
		switch g.Weighted(3, 2, 2, 4, 1) {
		case 4: // other attributes, which mean nothing
			parts = append(parts, g.Str("ID", "Role", "ROLE", "Title", "Options", "id2", "roles2", "my-role", "Subs", "option-x", "1a")+"="+g.Str("zz", `"z z"`))
		case 0:
			r := g.Str(clRoles...)
			s.roles = append(s.roles, r)
			parts = append(parts, "role="+g.Str(r, `"`+r+`"`, "'"+r+"'"))
		case 1:
			s.id = g.Str(clIDs...)
			parts = append(parts, "id="+s.id)
		case 2:
			if len(opts) > 0 {
				o, o2 := g.Str(opts...), g.Str(opts...)
				switch g.Int(0, 2) {
				case 0:
					s.opts = append(s.opts, o)
					parts = append(parts, g.Str("opts=", "options=")+o)
				case 1:
					s.opts = append(s.opts, o, o2)
					parts = append(parts, g.Str("opts=", "options=")+`"`+o+","+o2+`"`)
				default:
					s.opts = append(s.opts, o, o2)
					parts = append(parts, g.Str("opts=", "options=")+`"`+o+", "+o2+`"`)
				}
			}
		default:
			if len(named) > 0 {
				var ns []string
				for n := range named {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				n := g.Str(ns...)
				v := g.Str(named[n]...)
				s.named[n] = v
				if strings.ContainsAny(v, " ,") {
					v = `"` + v + `"`
				}
				parts = append(parts, n+"="+v)
			}
		}
	}
	return "[" + strings.Join(parts, sep) + "]"
}

// clLines: the lines of attributes before a block
func clLines(g *verifGen, s *clSet, first, second, third []string, named map[string][]string, opts []string) []string {
	var out []string
	for i := g.Weighted(1, 4, 3, 2); i > 0; i-- {
		switch g.Weighted(1, 1, 4) {
		case 0:
			s.id = g.Str(clIDs...)
			out = append(out, "[["+s.id+"]]")
		case 1:
			s.title = g.Str("One", "Two words", "a title")
			out = append(out, "."+s.title)
		default:
			b := clBracket(g, s, first, second, third, named, opts)
			if b == "[]" {
				continue
			}
			out = append(out, b)
		}
		if g.Weighted(9, 1) == 1 {
			out = append(out, g.Str("// a comment", ""))
		}
	}
	return out
}

func clAttr(tag string, kv ...string) string {
	s := tag
	for i := 0; i+1 < len(kv); i += 2 {
		s += "|" + kv[i] + "=" + kv[i+1]
	}
	return s
}

func clJoin(parts ...string) string {
	var out []string
	for _, p := range parts {
		if p != "" {
			out = append(out, p)
		}
	}
	return strings.Join(out, " ")
}

// clBlock: a block with its attributes
func clBlock(g *verifGen) clElement {
	s := &clSet{named: map[string]string{}}
	e := clElement{}
	kinds := []string{"paragraph", "listing", "source", "literal", "example", "sidebar", "quote", "open", "fenced", "ulist", "olist", "dlist", "table", "image", "note", "admonition", "qparagraph"}
	e.kind = g.Str(kinds...)
	base, tag := "", "div"
	var rest []string // further expectations, in the order of the output
	titled := true
	switch e.kind {
	case "paragraph":
		e.lines = append(clLines(g, s, nil, []string{"p2"}, nil, nil, []string{"hardbreaks", "other"}), "one", "two")
		base = "paragraph"
		if s.has("hardbreaks") {
			rest = append(rest, "br")
		}
	case "listing":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, []string{"nowrap", "other"}), "----", "x", "----")
		base = "listingblock"
		rest = append(rest, "pre")
	case "source":
		e.lines = clLines(g, s, []string{"source"}, []string{"ruby", "go", "c"}, nil, nil, []string{"nowrap", "other"})
		e.lines = append(e.lines, "----", "x", "----")
		base = "listingblock"
		if s.pos[1] == "source" {
			rest = append(rest, clAttr("pre", "class", clJoin("highlight", map[bool]string{true: "nowrap"}[s.has("nowrap")])))
			if s.pos[2] != "" {
				rest = append(rest, clAttr("code", "class", "language-"+s.pos[2], "data-lang", s.pos[2]))
			} else {
				rest = append(rest, "code")
			}
		} else {
			rest = append(rest, "pre")
		}
	case "literal":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, []string{"other"}), "....", "x", "....")
		base = "literalblock"
		rest = append(rest, "pre")
	case "example":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, nil), "====", "x", "====")
		base = "exampleblock"
	case "admonition":
		// the style is the last one given
		e.lines = clLines(g, s, []string{"NOTE", "TIP", "WARNING"}, nil, nil, nil, nil)
		if s.pos[1] == "" {
			s.pos[1] = "CAUTION"
			e.lines = append(e.lines, "[CAUTION]")
		}
		e.lines = append(e.lines, "====", "x", "====")
		base = "admonitionblock " + strings.ToLower(s.pos[1])
		rest = append(rest, "table")
	case "sidebar":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, []string{"other"}), "****", "x", "****")
		base = "sidebarblock"
	case "quote":
		e.lines = append(clLines(g, s, []string{"quote", "quote", "NOTE", "source"}, []string{"An Author", "B"}, []string{"Some Title", "T"}, nil, nil), "____", "x", "____")
		base = "quoteblock"
	case "qparagraph":
		e.lines = clLines(g, s, []string{"quote"}, []string{"An Author", "B"}, []string{"Some Title", "T"}, nil, nil)
		if s.pos[1] == "" {
			s.pos[1] = "quote"
			e.lines = append(e.lines, "[quote]")
		}
		e.lines = append(e.lines, "x")
		base = "quoteblock"
	case "open":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, []string{"other"}), "--", "x", "--")
		base = "openblock"
	case "fenced":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, nil), "```", "x", "```")
		base = "listingblock"
		rest = append(rest, clAttr("pre", "class", "highlight"), "code")
	case "ulist":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, []string{"interactive", "other"}), "* [x] a", "* [ ] b")
		base = "ulist checklist"
		if s.has("interactive") {
			rest = append(rest, clAttr("ul", "class", "checklist"), clAttr("input", "type", "checkbox", "data-item-complete", "1"), clAttr("input", "type", "checkbox", "data-item-complete", "0"))
		} else {
			rest = append(rest, clAttr("ul", "class", "checklist"))
		}
	case "olist":
		e.lines = append(clLines(g, s, []string{"loweralpha", "upperroman", "arabic"}, nil, nil, map[string][]string{"start": {"2", "5"}}, []string{"reversed", "other"}), ". a", ". b")
		style, typ := "arabic", ""
		if s.pos[1] != "" {
			style = s.pos[1]
			typ = map[string]string{"loweralpha": "a", "upperroman": "I"}[style]
		}
		base = "olist " + style
		kv := []string{"class", style}
		if typ != "" {
			kv = append(kv, "type", typ)
		}
		if v := s.named["start"]; v != "" {
			kv = append(kv, "start", v)
		}
		if s.has("reversed") {
			kv = append(kv, "reversed", "")
		}
		rest = append(rest, clAttr("ol", kv...))
	case "dlist":
		e.lines = append(clLines(g, s, []string{"disc", "NOTE"}, nil, nil, nil, nil), "a:: b")
		base = "dlist"
		rest = append(rest, "dl")
	case "table":
		e.lines = append(clLines(g, s, nil, nil, nil, map[string][]string{"width": {"50", "75"}, "frame": {"sides", "none"}, "grid": {"rows", "cols"}, "stripes": {"even", "all"}, "float": {"left", "right"}},
			[]string{"header", "footer", "autowidth"}), "|===", "|a", "|b", "|c", "|===")
		get := func(n, d string) string {
			if v := s.named[n]; v != "" {
				return v
			}
			return d
		}
		stripes := ""
		if v := s.named["stripes"]; v != "" {
			stripes = "stripes-" + v
		}
		fit := "stretch"
		if s.named["width"] != "" { // an explicit width wins
			fit = ""
		} else if s.has("autowidth") {
			fit = "fit-content"
		}
		tag = "table"
		base = clJoin("tableblock", "frame-"+get("frame", "all"), "grid-"+get("grid", "all"), stripes, fit, s.named["float"])
		if s.has("header") {
			rest = append(rest, "thead")
		}
		rest = append(rest, "tbody")
		if s.has("footer") {
			rest = append(rest, "tfoot")
		}
	case "image":
		named := map[string][]string{"alt": {"Alt1", "Alt 2"}, "width": {"10", "20"}, "height": {"30", "40"}, "link": {"http://u.v"}, "float": {"left"}, "align": {"center"}}
		lines := clLines(g, s, nil, nil, nil, named, nil)
		i := &clSet{named: map[string]string{}}
		in := clBracket(g, i, []string{"P1", "alt", "Some text"}, []string{"100", "width"}, []string{"200"}, named, nil)
		in = clInline(in, i)
		// what the macro says comes after the attributes of the block; its positional attributes give way to the named ones
		for n, p := range map[string]string{"alt": i.pos[1], "width": i.pos[2], "height": i.pos[3]} {
			if _, ok := i.named[n]; !ok && p != "" {
				i.named[n] = p
			}
		}
		for n, v := range i.named {
			s.named[n] = v
		}
		s.roles = append(s.roles, i.roles...)
		if i.id != "" {
			s.id = i.id
		}
		e.lines = append(lines, "image::pix.png"+in)
		align := ""
		if v := s.named["align"]; v != "" {
			align = "text-" + v
		}
		base = clJoin("imageblock", s.named["float"], align)
		if v := s.named["link"]; v != "" {
			rest = append(rest, clAttr("a", "class", "image", "href", v))
		}
		alt := "pix"
		if v, ok := s.named["alt"]; ok {
			alt = v
		}
		kv := []string{"src", "pix.png", "alt", alt}
		for _, n := range []string{"width", "height"} {
			if v := s.named[n]; v != "" {
				kv = append(kv, n, v)
			}
		}
		rest = append(rest, clAttr("img", kv...))
	case "note":
		e.lines = append(clLines(g, s, nil, nil, nil, nil, nil), "NOTE: x")
		base = "admonitionblock note"
		rest = append(rest, "table")
	}
	kv := []string{}
	if s.id != "" {
		kv = append(kv, "id", s.id)
	}
	kv = append(kv, "class", clJoin(base, strings.Join(s.roles, " ")))
	if tag == "table" && s.named["width"] != "" {
		kv = append(kv, "style", "width: "+s.named["width"]+"%;")
	}
	e.want = append(e.want, clAttr(tag, kv...))
	if titled && s.title != "" {
		e.want = append(e.want, "title "+s.title)
	}
	if e.kind == "quote" || e.kind == "qparagraph" {
		if s.pos[2] != "" {
			rest = append(rest, "author "+s.pos[2])
		}
		if s.pos[3] != "" && s.pos[2] != "" {
			rest = append(rest, "cite "+s.pos[3])
		} else if s.pos[3] != "" { // alone
			rest = append(rest, "author "+s.pos[3])
		}
	}
	e.want = append(e.want, rest...)
	return e
}

// clInline: a list of attributes which may not have shorthand attributes (those of a macro): they are a text there
func clInline(b string, s *clSet) string {
	b = strings.TrimSuffix(strings.TrimPrefix(b, "["), "]")
	parts := strings.Split(b, ",")
	head := parts[0]
	if strings.Contains(head, "=") {
		return "[" + b + "]"
	}
	if i := strings.IndexAny(head, "#.%"); i >= 0 {
		parts[0] = head[:i]
		// the shorthand attributes are dropped
		n := strings.Count(head, ".")
		s.roles = s.roles[n:]
		if strings.Contains(head, "#") && !strings.Contains(b, "id=") {
			s.id = ""
		}
		if parts[0] == "" && len(parts) == 1 {
			return "[]"
		}
	}
	return "[" + strings.Join(parts, ",") + "]"
}

// clSpan: a paragraph with inline elements which have attributes
func clSpan(g *verifGen) clElement {
	e := clElement{kind: "inline", inline: true}
	line := "start"
	for i := g.Int(1, 3); i > 0; i-- {
		s := &clSet{named: map[string]string{}}
		line += " "
		switch g.Int(0, 4) {
		case 0, 1: // quoted text: the first position gives a role
			mark := g.Str("*", "_", "`", "#")
			b := clBracket(g, s, []string{"pr", "roles"}, nil, nil, nil, nil)
			if b == "[]" {
				b = ""
			}
			roles := s.roles
			if s.pos[1] != "" {
				roles = append([]string{s.pos[1]}, roles...)
			}
			tag := map[string]string{"*": "strong", "_": "em", "`": "code", "#": "mark"}[mark]
			if mark == "#" && len(roles) > 0 {
				tag = "span"
			}
			var kv []string
			if s.id != "" {
				kv = append(kv, "id", s.id)
			}
			if len(roles) > 0 {
				kv = append(kv, "class", strings.Join(roles, " "))
			}
			e.want = append(e.want, clAttr(tag, kv...))
			line += b + mark + "w" + mark
		case 2: // link
			named := map[string][]string{"window": {"w", "_blank", "a b"}}
			b := clInline(clBracket(g, s, []string{"T", "text", "some text", "blank^"}, nil, nil, named, []string{"noopener", "nofollow"}), s)
			if strings.Contains(b, "%") || s.pos[1] == "" {
				b, s = "[T]", &clSet{named: map[string]string{}, pos: [4]string{1: "T"}}
			}
			s.opts = clOpts(b)
			var kv []string
			if s.id != "" {
				kv = append(kv, "id", s.id)
			}
			kv = append(kv, "href", "http://x.y")
			if len(s.roles) > 0 {
				kv = append(kv, "class", strings.Join(s.roles, " "))
			}
			if strings.HasSuffix(s.pos[1], "^") {
				s.named["window"] = "_blank"
			}
			if v := s.named["window"]; v != "" {
				kv = append(kv, "target", v)
			}
			if s.named["window"] == "_blank" || s.has("noopener") {
				kv = append(kv, "rel", "noopener")
			}
			e.want = append(e.want, clAttr("a", kv...), "text "+strings.TrimSuffix(s.pos[1], "^"))
			line += g.Str("link:http://x.y", "http://x.y") + b
		case 3: // image
			named := map[string][]string{"alt": {"Alt1", "Alt 2"}, "width": {"10", "20"}, "height": {"30", "40"}, "link": {"http://u.v"}, "float": {"left"}}
			b := clInline(clBracket(g, s, []string{"P1", "alt", "Some text"}, []string{"100"}, []string{"200"}, named, nil), s)
			alt := "pix"
			if s.pos[1] != "" {
				alt = s.pos[1]
			}
			if v := s.named["alt"]; v != "" {
				alt = v
			}
			e.want = append(e.want, clAttr("span", "class", clJoin("image", s.named["float"], strings.Join(s.roles, " "))))
			if v := s.named["link"]; v != "" {
				e.want = append(e.want, clAttr("a", "class", "image", "href", v))
			}
			kv := []string{"src", "pix.png", "alt", alt}
			for i, n := range []string{"width", "height"} {
				v := s.named[n]
				if v == "" {
					v = s.pos[i+2]
				}
				if v != "" {
					kv = append(kv, n, v)
				}
			}
			e.want = append(e.want, clAttr("img", kv...))
			line += "image:pix.png" + b
		default: // icon
			named := map[string][]string{"alt": {"Alt1"}, "link": {"http://u.v"}}
			b := clInline(clBracket(g, s, []string{"2x", "size"}, nil, nil, named, nil), s)
			var kv []string
			if s.id != "" {
				kv = append(kv, "id", s.id)
			}
			kv = append(kv, "class", clJoin("icon", strings.Join(s.roles, " ")))
			e.want = append(e.want, clAttr("span", kv...))
			if v := s.named["link"]; v != "" {
				e.want = append(e.want, clAttr("a", "class", "image", "href", v))
			}
			alt := "star"
			if v := s.named["alt"]; v != "" {
				alt = v
			}
			e.want = append(e.want, "text ["+alt+"]")
			line += "icon:star" + b
		}
	}
	e.lines = []string{line + " end"}
	return e
}

// clOpts: the options of the bracket
func clOpts(b string) []string {
	var out []string
	for _, o := range []string{"noopener", "nofollow"} {
		if strings.Contains(b, o) {
			out = append(out, o)
		}
	}
	return out
}

func gen_drive_classes(g *verifGen) []clElement {
	var es []clElement
	for i := g.Int(1, 3); i > 0; i-- {
		if g.Weighted(5, 3) == 0 {
			es = append(es, clBlock(g))
		} else {
			es = append(es, clSpan(g))
		}
	}
	return es
}

func clDoc(es []clElement) []string {
	var d []string
	for i, e := range es {
		if i > 0 {
			d = append(d, "", "plain", "")
		}
		d = append(d, e.lines...)
	}
	return d
}

var clVoid = map[string]bool{"img": true, "br": true, "col": true, "input": true, "hr": true}

// clTops: the elements at the top of the output
func clTops(out string) [][]htmlTok {
	var tops [][]htmlTok
	depth := 0
	for _, t := range htmlTokens(out) {
		if depth == 0 {
			if t.Kind == 't' {
				continue
			}
			tops = append(tops, nil)
		}
		tops[len(tops)-1] = append(tops[len(tops)-1], t)
		if t.Kind == '<' && !clVoid[t.Name] {
			depth++
		} else if t.Kind == '/' {
			depth--
		}
	}
	return tops
}

// clFind: the position of the first token, from i on, which is as wanted (-1 if there is none)
func clFind(toks []htmlTok, i int, want string) int {
	if k := strings.Index(want, " "); k > 0 {
		text := want[k+1:]
		switch want[:k] {
		case "text":
			for ; i < len(toks); i++ {
				if toks[i].Kind == 't' && toks[i].Text == text {
					return i
				}
			}
			return -1
		case "title":
			for ; i+1 < len(toks); i++ {
				if toks[i].Attrs["class"] == "title" && (toks[i+1].Text == text || strings.HasSuffix(toks[i+1].Text, ". "+text)) {
					return i
				}
			}
			return -1
		case "author":
			for ; i+1 < len(toks); i++ {
				if toks[i].Attrs["class"] == "attribution" && strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(toks[i+1].Text), "&#8212;")) == text {
					return i
				}
			}
			return -1
		case "cite":
			for ; i+1 < len(toks); i++ {
				if toks[i].Name == "cite" && toks[i].Kind == '<' && toks[i+1].Text == text {
					return i
				}
			}
			return -1
		}
	}
	for ; i < len(toks); i++ {
		if toks[i].Kind == '<' && clTag(toks[i], want) {
			return i
		}
	}
	return -1
}

func clTag(t htmlTok, want string) bool {
	parts := strings.Split(want, "|")
	if t.Name != parts[0] {
		return false
	}
	for _, p := range parts[1:] {
		k := strings.Index(p, "=")
		if v, ok := t.Attrs[p[:k]]; !ok || v != p[k+1:] {
			return false
		}
	}
	return len(t.Attrs) == len(parts)-1 || t.Name == "input" // with other attributes, or not
}

// clCheck: every element has what its attributes say
func clCheck(es []clElement, out string, err error) bool {
	if err != nil {
		verifNote("%v", err)
		return false
	}
	tops := clTops(out)
	if len(tops) != 2*len(es)-1 {
		verifNote("%d elements expected, %d in\n%s", 2*len(es)-1, len(tops), out)
		return false
	}
	for i, e := range es {
		toks := tops[2*i]
		if i > 0 && tops[2*i-1][0].Text != `<div class="paragraph">` {
			verifNote("the plain paragraph before element %d has attributes:\n%s", i, out)
			return false
		}
		pos := 0
		if e.inline && toks[0].Text != `<div class="paragraph">` {
			verifNote("element %d: the paragraph has attributes:\n%s", i, out)
			return false
		}
		for j, w := range e.want {
			p := clFind(toks, pos, w)
			if p < 0 || j == 0 && !e.inline && p > 0 {
				verifNote("element %d (%s): %q expected in\n%s", i, e.kind, w, out)
				return false
			}
			// the title may come after the content
			if !strings.HasPrefix(w, "title ") {
				pos = p + 1
			}
		}
		if e.kind == "paragraph" && len(e.want) == 1 && clFind(toks, 0, "br") >= 0 {
			verifNote("element %d: unexpected line break", i)
			return false
		}
		for _, n := range []string{"thead", "tfoot"} {
			wanted := false
			for _, w := range e.want {
				wanted = wanted || w == n
			}
			if !wanted && e.kind == "table" && clFind(toks, 0, n) >= 0 {
				verifNote("element %d: unexpected %s", i, n)
				return false
			}
		}
	}
	return true
}

func drive_classes(es []clElement) (string, error) {
	return cvBody(clDoc(es))
}

//verif:bounded drive_classes props=C18 n=4000
func contract_drive_classes(es []clElement, out string, err error) {
	ensures(clCheck(es, out, err))
}

var _ = fmt.Sprint
