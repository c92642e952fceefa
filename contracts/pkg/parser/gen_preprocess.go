package parser

// Bounded contracts on the whole preprocessing step (C01, C02, C03, C15): the real Preprocess is run
// on small sets of files and compared with an executable reading of the properties.  The grammar that
// splits the lines is generated code (parser.go) and beyond the verifier, hence bounded.

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

type ppFile struct {
	Name  string
	Lines []string
}

var ppScratch string

func ppDir() string {
	if ppScratch == "" {
		base := os.Getenv("VERIF_SCRATCH")
		d, err := os.MkdirTemp(base, "verif_pp")
		if err != nil {
			panic(err)
		}
		ppScratch = d
	}
	return ppScratch
}

func drive_preprocess(doc []string, files []ppFile, attrs types.Attributes) (string, error) {
	d := ppDir()
	defer func() {
		for _, f := range files {
			os.Remove(filepath.Join(d, f.Name))
		}
	}()
	for _, f := range files {
		p := filepath.Join(d, f.Name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		text := ""
		if len(f.Lines) > 0 {
			text = strings.Join(f.Lines, "\n") + "\n"
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	c := configuration.NewConfiguration(configuration.WithFilename(filepath.Join(d, "main.adoc")))
	for k, v := range attrs {
		c.Attributes[k] = v
	}
	return Preprocess(strings.NewReader(strings.Join(append(append([]string{}, doc...), ""), "\n")), c)
}

// ---- the reference reading ----

var errPP = errors.New("error expected")

const ppEmpty = "\x00empty\x00" // stands for an inclusion that selects nothing

type ppOffset struct {
	absolute bool
	value    int
	bad      *bool
}

func (o *ppOffset) apply(level int) int {
	if o.absolute {
		o.absolute = false
		o.value -= level
	}
	if level+o.value < 0 {
		*o.bad = true
		return 0
	}
	return level + o.value
}

type ppState struct {
	caller  map[string]interface{}
	doc     map[string]interface{}
	offsets []*ppOffset
	incl    bool
	files   map[string]ppFile
	dir     string
	clamped *bool
}

var (
	ppDecl    = regexp.MustCompile(`^:([a-z]+):(?: +(.*))?$`)
	ppReset   = regexp.MustCompile(`^:!([a-z]+):$|^:([a-z]+)!:$`)
	ppCond    = regexp.MustCompile(`^(ifdef|ifndef)::([a-z]+)\[(.*)\]$`)
	ppEval    = regexp.MustCompile(`^ifeval::\[(\S+) (==|!=|<|<=|>|>=) (\S+)\]$`)
	ppEndif   = regexp.MustCompile(`^endif::[a-z]*\[\]$`)
	ppIncl    = regexp.MustCompile(`^include::([^\[]+)\[(.*)\]$`)
	ppHeading = regexp.MustCompile(`^(={1,6})([ \t]+\S.*)$`)
	ppDelim   = regexp.MustCompile("^(----+|====+|\\.\\.\\.\\.+|____+|\\*\\*\\*\\*+|\\+\\+\\+\\++|////+|```+)([a-z]*)$")
	ppTag     = regexp.MustCompile(`(tag|end)::([a-z0-9]+)\[\]`)
)

func ppLookup(st *ppState, n string) (interface{}, bool) {
	if v, ok := st.caller[n]; ok {
		return v, true
	}
	v, ok := st.doc[n]
	return v, ok
}

func ppMember(st *ppState, s string) interface{} {
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	s = strings.Trim(s, `"'`)
	if strings.HasPrefix(s, "{") {
		if v, ok := ppLookup(st, s[1:len(s)-1]); ok {
			return v
		}
		return nil // unknown: compares with nothing
	}
	return s
}

func ppCompare(l interface{}, op string, r interface{}) bool {
	c := 0
	switch x := l.(type) {
	case string:
		y, ok := r.(string)
		if !ok {
			return false
		}
		c = strings.Compare(x, y)
	case int:
		y, ok := r.(int)
		if !ok {
			return false
		}
		c = x - y
	default:
		return false
	}
	switch op {
	case "==":
		return c == 0
	case "!=":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	}
	return c >= 0
}

var ppVerbatim = map[byte]bool{'-': true, '.': true, '+': true, '/': true, '`': true}

func ppExpand(lines []string, st *ppState) ([]string, error) {
	var out []string
	var conds []bool
	var blocks []string
	on := func() bool {
		for _, c := range conds {
			if !c {
				return false
			}
		}
		return true
	}
	for _, l := range lines {
		if m := ppCond.FindStringSubmatch(l); m != nil {
			_, def := ppLookup(st, m[2])
			v := def == (m[1] == "ifdef")
			if m[3] == "" {
				conds = append(conds, v)
			} else if v && on() {
				out = append(out, m[3])
			}
			continue
		}
		if m := ppEval.FindStringSubmatch(l); m != nil {
			conds = append(conds, ppCompare(ppMember(st, m[1]), m[2], ppMember(st, m[3])))
			continue
		}
		if ppEndif.MatchString(l) {
			if len(conds) > 0 {
				conds = conds[:len(conds)-1]
			}
			continue
		}
		if !on() {
			continue
		}
		if m := ppDecl.FindStringSubmatch(l); m != nil {
			st.doc[m[1]] = strings.TrimSpace(m[2])
		} else if m := ppReset.FindStringSubmatch(l); m != nil {
			delete(st.doc, m[1]+m[2])
		} else if m := ppIncl.FindStringSubmatch(l); m != nil {
			x, err := ppInclude(m[1], m[2], st)
			if err != nil {
				return nil, err
			}
			out = append(out, x...)
			continue
		} else if m := ppDelim.FindStringSubmatch(l); m != nil {
			k := m[1]
			switch {
			case len(blocks) > 0 && blocks[len(blocks)-1] == k && m[2] == "":
				blocks = blocks[:len(blocks)-1]
			case len(blocks) > 0 && ppVerbatim[blocks[len(blocks)-1][0]]:
			default:
				blocks = append(blocks, k)
			}
		} else if m := ppHeading.FindStringSubmatch(l); m != nil && st.incl && len(blocks) == 0 {
			level := len(m[1]) - 1
			for _, o := range st.offsets {
				level = o.apply(level)
			}
			l = strings.Repeat("=", level+1) + m[2]
		}
		out = append(out, l)
	}
	return out, nil
}

func ppInclude(path, attrs string, st *ppState) ([]string, error) {
	p := filepath.Join(st.dir, path)
	f, ok := st.files[p]
	if !ok {
		return nil, errPP
	}
	sel := map[string]string{}
	for attrs != "" {
		k := strings.Index(attrs, "=")
		key, rest := attrs[:k], attrs[k+1:]
		val := ""
		if strings.HasPrefix(rest, `"`) {
			e := strings.Index(rest[1:], `"`)
			val, rest = rest[1:e+1], rest[e+2:]
		} else if e := strings.Index(rest, ","); e >= 0 {
			val, rest = rest[:e], rest[e:]
		} else {
			val, rest = rest, ""
		}
		sel[key] = val
		attrs = strings.TrimPrefix(rest, ",")
	}
	if v, ok := sel["tag"]; ok {
		sel["tags"] = v
	}
	split := func(s string) []string {
		return strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ';' })
	}
	var kept []string
	if lr, ok := sel["lines"]; ok {
		for i, l := range f.Lines {
			if !ppTag.MatchString(l) && ppLineSelected(split(lr), i+1) {
				kept = append(kept, l)
			}
		}
	} else if tr, ok := sel["tags"]; ok {
		var err error
		if kept, err = ppTagged(f.Lines, split(tr)); err != nil {
			return nil, err
		}
	} else {
		for _, l := range f.Lines {
			if !ppTag.MatchString(l) {
				kept = append(kept, l)
			}
		}
	}
	if !strings.HasSuffix(path, ".adoc") {
		if len(kept) == 0 {
			return []string{ppEmpty}, nil
		}
		return append(kept, ppEmpty), nil
	}
	n := &ppState{caller: st.caller, doc: map[string]interface{}{}, incl: true, files: st.files, dir: filepath.Dir(p), clamped: st.clamped}
	for k, v := range st.doc {
		n.doc[k] = v
	}
	n.offsets = append(n.offsets, st.offsets...)
	if o, ok := sel["leveloffset"]; ok {
		v, err := strconv.Atoi(o)
		if err != nil {
			return nil, errPP
		}
		if o[0] == '+' || o[0] == '-' {
			n.offsets = append(n.offsets, &ppOffset{value: v, bad: st.clamped})
		} else {
			n.offsets = []*ppOffset{{absolute: true, value: v, bad: st.clamped}}
		}
	}
	x, err := ppExpand(kept, n)
	if err == nil && len(x) == 0 {
		x = []string{ppEmpty}
	}
	return x, err
}

func ppLineSelected(sel []string, n int) bool {
	for _, s := range sel {
		lo, hi := s, s
		if k := strings.Index(s, ".."); k >= 0 {
			lo, hi = s[:k], s[k+2:]
		}
		a, _ := strconv.Atoi(lo)
		b, _ := strconv.Atoi(hi)
		if a <= n && (n <= b || b == -1) {
			return true
		}
	}
	return false
}

func ppTagged(lines []string, sel []string) ([]string, error) {
	open := map[string]bool{}
	seen := map[string]bool{}
	var out []string
	for _, l := range lines {
		if ms := ppTag.FindAllStringSubmatch(l, -1); ms != nil {
			for _, m := range ms {
				if m[1] == "tag" {
					seen[m[2]] = true
					open[m[2]] = true
				} else {
					delete(open, m[2])
				}
			}
			continue
		}
		in := false
		for _, s := range sel {
			name := strings.TrimPrefix(s, "!")
			if name == "**" || name == "*" && len(open) > 0 || open[name] {
				in = s == name
			}
		}
		if in {
			out = append(out, l)
		}
	}
	for _, s := range sel {
		if n := strings.TrimPrefix(s, "!"); n != "*" && n != "**" && !seen[n] {
			return nil, errPP
		}
	}
	return out, nil
}

func ppWant(doc []string, files []ppFile, attrs types.Attributes) (with, without string, clamped bool, err error) {
	fm := map[string]ppFile{}
	for _, f := range files {
		fm[f.Name] = f
	}
	st := &ppState{caller: attrs, doc: map[string]interface{}{}, files: fm, dir: ".", clamped: &clamped}
	x, err := ppExpand(doc, st)
	if err != nil {
		return "", "", clamped, err
	}
	var a, b []string
	for _, l := range x {
		if l == ppEmpty {
			a = append(a, "")
			continue
		}
		a = append(a, l)
		b = append(b, l)
	}
	return strings.Join(a, "\n"), strings.Join(b, "\n"), clamped, nil
}

func ppCheck(doc []string, files []ppFile, attrs types.Attributes, result string, err error) bool {
	with, without, clamped, werr := ppWant(doc, files, attrs)
	if werr != nil {
		verifNote("expected: an error; got %q, %v", result, err)
		return err != nil
	}
	verifNote("expected: %q", with)
	verifNote("got:      %q (error: %v)", result, err)
	if clamped {
		return true
	}
	if err != nil {
		return false
	}
	return result == with || result == without
}

// ---- generators ----

func ppText(g *verifGen, n *int) string {
	*n++
	return fmt.Sprintf(g.Str("line %d", "l%d", "* item %d", "some {a} text %d", "x: %d", "ifdef: %d", " indented %d", "tag:a[] %d", "{\"k\": %d}  ", "=l%d"), *n)
}

// ppFileLines: plain lines and tag directives
func ppTagLines(g *verifGen, max int) []string {
	var out []string
	n := 0
	for i := g.Len(max); i > 0; i-- {
		t := g.Str("a", "b", "c1")
		switch g.Weighted(6, 3, 3, 1) {
		case 0:
			out = append(out, ppText(g, &n))
		case 1:
			out = append(out, g.Str("tag::", "// tag::", "# tag::")+t+"[]"+g.Str("", " more"))
		case 2:
			out = append(out, g.Str("end::", "// end::")+t+"[]")
		case 3:
			out = append(out, "")
		}
	}
	return out
}

// ppRegions: regions that open and close, over and over, with a line after each directive
func ppRegions(g *verifGen, max int) []string {
	open := map[string]bool{}
	out := []string{"0"}
	for i := g.Len(max); i > 0; i-- {
		t := g.Str("a", "b", "c1")
		if open[t] {
			out = append(out, "// end::"+t+"[]")
		} else {
			out = append(out, "// tag::"+t+"[]")
		}
		open[t] = !open[t]
		out = append(out, fmt.Sprint(i))
	}
	return out
}

func ppLinesSel(g *verifGen, max int) string {
	one := func() string {
		a := g.Int(1, max)
		switch g.N(4) {
		case 0:
			return fmt.Sprint(a)
		case 1:
			return fmt.Sprintf("%d..%d", a, a+g.Int(0, 4))
		case 2:
			return fmt.Sprintf("%d..-1", a)
		}
		return fmt.Sprintf("%d..%d", a, g.Int(1, max))
	}
	xs := []string{one()}
	for i := g.Len(3); i > 0; i-- {
		xs = append(xs, one())
	}
	if g.Bool() {
		return "lines=" + strings.Join(xs, ";")
	}
	return `lines="` + strings.Join(xs, ",") + `"`
}

func ppTagsSel(g *verifGen) string {
	one := func() string {
		return g.Str("", "", "", "!") + g.Str("a", "b", "c1", "*", "**")
	}
	xs := []string{one()}
	for i := g.Len(3); i > 0; i-- {
		xs = append(xs, one())
	}
	switch g.N(3) {
	case 0:
		return "tags=" + strings.Join(xs, ";")
	case 1:
		return `tags="` + strings.Join(xs, ",") + `"`
	}
	return g.Str("tag=", "tags=") + xs[0]
}

func gen_drive_preprocess_lines(g *verifGen) ([]string, []ppFile, types.Attributes) {
	name := g.Str("f.adoc", "sub/f.adoc", "f.go")
	f := ppFile{name, ppTagLines(g, 12)}
	max := 9
	if g.Weighted(15, 1) == 1 { // a long file
		for i := g.Str("30", "110", "300"); len(f.Lines) < 300; {
			f.Lines = append(f.Lines, fmt.Sprintf("more %d", len(f.Lines)))
			if fmt.Sprint(len(f.Lines)) == i {
				break
			}
		}
		max = len(f.Lines) + 2
	}
	if g.Weighted(100, 1) == 1 { // a long line
		f.Lines = append(f.Lines, strings.Repeat(g.Str("long ", "é"), g.Int(12000, 15000))+"x", "last")
	}
	sel := ""
	if g.Weighted(1, 5) == 1 {
		sel = ppLinesSel(g, max)
	}
	return ppAround(g, "include::"+name+"["+sel+"]"), []ppFile{f}, types.Attributes{}
}

func ppAround(g *verifGen, l string) []string {
	switch g.N(4) {
	case 0:
		return []string{l}
	case 1:
		return []string{"before", l, "after"}
	case 2:
		return []string{"----", l, "----"}
	}
	return []string{"a", "", l, "", "b"}
}

func gen_drive_preprocess_tags(g *verifGen) ([]string, []ppFile, types.Attributes) {
	name := g.Str("f.adoc", "sub/f.adoc", "f.go")
	f := ppFile{name, nil}
	if g.Bool() {
		f.Lines = ppTagLines(g, 14)
	} else {
		f.Lines = ppRegions(g, 10)
	}
	return ppAround(g, "include::"+name+"["+ppTagsSel(g)+"]"), []ppFile{f}, types.Attributes{}
}

var ppAttrNames = []string{"a", "b", "cc"}

func ppCondLines(g *verifGen, max int, incl func() string) []string {
	var out []string
	n := 0
	depth := 0
	for i := g.Len(max); i > 0; i-- {
		a := g.Str(ppAttrNames...)
		switch g.Weighted(6, 4, 3, 2, 5, 3, 2, 2, 1) {
		case 8:
			out = append(out, g.Str("----", "====", "....", "////", "|==="))
		case 0:
			out = append(out, ppText(g, &n))
		case 1:
			out = append(out, g.Str("ifdef::", "ifndef::")+a+"[]")
			depth++
		case 2:
			m := func() string {
				return g.Str("1", "2", "10", `"x"`, `"y"`, `'x'`, "{a}", "{b}", `"{a}"`, `'{cc}'`)
			}
			out = append(out, "ifeval::["+m()+" "+g.Str("==", "!=", "<", "<=", ">", ">=")+" "+m()+"]")
			depth++
		case 3:
			n++
			out = append(out, g.Str("ifdef::", "ifndef::")+a+"["+fmt.Sprintf("single %d", n)+"]")
		case 4:
			out = append(out, "endif::"+g.Str("", a)+"[]")
			depth--
		case 5:
			out = append(out, ":"+a+":"+g.Str("", " x", " y", " 2"))
		case 6:
			out = append(out, g.Str(":!"+a+":", ":"+a+"!:"))
		case 7:
			if incl != nil {
				out = append(out, incl())
			}
		}
	}
	for ; depth > 0; depth-- {
		out = append(out, "endif::[]")
		if g.Bool() {
			out = append(out, ppText(g, &n))
		}
	}
	return out
}

func gen_drive_preprocess_conditions(g *verifGen) ([]string, []ppFile, types.Attributes) {
	attrs := types.Attributes{}
	for _, a := range ppAttrNames {
		switch g.Weighted(4, 1, 1, 1) {
		case 1:
			attrs[a] = g.Str("x", "", "y")
		case 2:
			attrs[a] = g.Int(1, 3)
		}
	}
	var files []ppFile
	if g.Weighted(2, 1) == 1 {
		files = append(files, ppFile{"f.adoc", ppCondLines(g, 6, nil)})
	}
	doc := ppCondLines(g, 14, func() string {
		if len(files) == 0 {
			return "include::missing.adoc[]"
		}
		return "include::f.adoc[]"
	})
	if g.Weighted(200, 1) == 1 { // a long line
		doc = append(doc, strings.Repeat("long ", g.Int(12000, 15000))+"x", "last")
	}
	return doc, files, attrs
}

func ppHeadLines(g *verifGen, max int, incl func() string) []string {
	var out []string
	n := 0
	for i := g.Len(max); i > 0; i-- {
		n++
		switch g.Weighted(6, 3, 3, 1) {
		case 0:
			out = append(out, strings.Repeat("=", g.Int(1, 6))+g.Str(" ", " ", "  ", "\t")+fmt.Sprintf(g.Str("Title %d", "T%d", "A = B %d", "A == %d", "A === B %d"), n))
		case 1:
			out = append(out, fmt.Sprintf(g.Str("text %d", "a == b %d", "==no%d", ""), n))
			if out[len(out)-1] == "%!(EXTRA int="+fmt.Sprint(n)+")" {
				out[len(out)-1] = ""
			}
		case 2:
			if incl != nil {
				out = append(out, incl())
			}
		case 3:
			// a block, headings in it are not headings
			d := g.Str("----", "====", "....", "```", "-----", "____", "****", "++++")
			start := d
			if d == "```" {
				start += g.Str("", "go")
			}
			out = append(out, start, strings.Repeat("=", g.Int(1, 3))+" "+fmt.Sprintf("inside %d", n))
			if ppVerbatim[d[0]] && g.Bool() {
				out = append(out, g.Str("====", "----", "....", "```", "-----"))
				if out[len(out)-1] == d {
					continue
				}
			}
			out = append(out, d)
		}
	}
	return out
}

func gen_drive_preprocess_offsets(g *verifGen) ([]string, []ppFile, types.Attributes) {
	sel := func() string {
		return "[" + g.Str("", "leveloffset=+1", "leveloffset=+2", "leveloffset=-1", "leveloffset=1", "leveloffset=2", "leveloffset=0", "leveloffset=3", "leveloffset=-2") + "]"
	}
	files := []ppFile{{Name: "a.adoc"}, {Name: "sub/b.adoc"}, {Name: "sub/c.adoc"}}
	files[2].Lines = ppHeadLines(g, 5, nil)
	files[1].Lines = ppHeadLines(g, 6, func() string { return "include::c.adoc" + sel() })
	files[0].Lines = ppHeadLines(g, 6, func() string { return "include::sub/" + g.Str("b", "b", "c") + ".adoc" + sel() })
	doc := ppHeadLines(g, 6, func() string { return "include::" + g.Str("a", "a", "sub/b", "sub/c") + ".adoc" + sel() })
	return doc, files, types.Attributes{}
}

//verif:bounded drive_preprocess props=C01 variant=lines n=4000
func contract_drive_preprocess_lines(doc []string, files []ppFile, attrs types.Attributes, result string, err error) {
	ensures(ppCheck(doc, files, attrs, result, err))
}

//verif:bounded drive_preprocess props=C02 variant=tags n=4000
func contract_drive_preprocess_tags(doc []string, files []ppFile, attrs types.Attributes, result string, err error) {
	ensures(ppCheck(doc, files, attrs, result, err))
}

//verif:bounded drive_preprocess props=C03 variant=conditions n=4000
func contract_drive_preprocess_conditions(doc []string, files []ppFile, attrs types.Attributes, result string, err error) {
	ensures(ppCheck(doc, files, attrs, result, err))
}

//verif:bounded drive_preprocess props=C15 variant=offsets n=4000
func contract_drive_preprocess_offsets(doc []string, files []ppFile, attrs types.Attributes, result string, err error) {
	ensures(ppCheck(doc, files, attrs, result, err))
}
