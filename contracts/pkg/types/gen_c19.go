//go:build go1.21

package types

import (
	"fmt"
	"strings"
)

// C19: oracles and generators of the bounded contracts on merging

// SpecTokens: the text before the first element which is no text, this element, the text after it, ...
func SpecTokens(elements []interface{}) []string {
	out := []string{""}
	var add func(e interface{})
	add = func(e interface{}) {
		switch e := e.(type) {
		case nil:
		case string:
			out[len(out)-1] += e
		case []byte:
			out[len(out)-1] += string(e)
		case *StringElement:
			out[len(out)-1] += e.Content
		case []interface{}:
			for _, x := range e {
				add(x)
			}
		case *Symbol:
			out = append(out, fmt.Sprintf("%s %p", e.Name, e), "")
		default:
			out = append(out, fmt.Sprintf("%T %p", e, e), "")
		}
	}
	for _, e := range elements {
		add(e)
	}
	return out
}

func SpecSameTokens(want, got []string) bool {
	if len(want) != len(got) {
		verifNote("%q expected, got %q", want, got)
		return false
	}
	for i := range want {
		w, g := want[i], got[i]
		if i+1 < len(want) && strings.HasPrefix(want[i+1], " -- ") {
			// the space of a dash between spaces is part of its symbol, and those before it do not count
			w, g = strings.TrimRight(w, " "), strings.TrimRight(g, " ")
		}
		if w != g {
			verifNote("%q expected, got %q (%q, %q)", want[i], got[i], want, got)
			return false
		}
	}
	return true
}

func specDash(e interface{}) bool {
	s, ok := e.(*Symbol)
	return ok && s.Name == " -- "
}

// SpecMerged: the same texts and elements as before, and if merged, then there is nothing else than elements in the result
func SpecMerged(want []string, result []interface{}, merged bool) bool {
	for i, e := range result {
		switch e := e.(type) {
		case nil, string, []byte, []interface{}:
			if merged {
				verifNote("not merged: %v", e)
				return false
			}
		case *StringElement:
			if merged && e.Content == "" && (i+1 == len(result) || !specDash(result[i+1])) {
				verifNote("empty text")
				return false
			}
		}
	}
	return SpecSameTokens(want, SpecTokens(result))
}

func SpecReduced(want []string, opts []ReduceOption, result interface{}) bool {
	switch r := result.(type) {
	case nil:
		return len(want) == 1 && SpecApplied(want[0], opts) == ""
	case string:
		if len(want) != 1 || SpecApplied(want[0], opts) != r {
			verifNote("%q expected, got %q", want, r)
			return false
		}
		return true
	case []interface{}:
		return SpecMerged(want, r, true)
	default:
		return SpecSameTokens(want, SpecTokens([]interface{}{r}))
	}
}

func SpecApplied(s string, opts []ReduceOption) string {
	for _, o := range opts {
		s = o(s)
	}
	return s
}

// SpecSplit: the lines, one after the other, give what there was
func SpecSplit(want []string, result [][]interface{}) bool {
	var all []interface{}
	for i, l := range result {
		for _, e := range l {
			if s, ok := e.(*StringElement); ok && (strings.Contains(s.Content, "\n") || s.Content == "") {
				verifNote("line with %q", s.Content)
				return false
			}
		}
		all = append(all, append([]interface{}{}, l...)...)
		if i < len(result)-1 {
			all = append(all, "\n")
		}
	}
	got := SpecTokens(all)
	// an empty last line is not kept
	if got[len(got)-1]+"\n" == want[len(want)-1] {
		got[len(got)-1] += "\n"
	}
	return SpecSameTokens(want, got)
}

func genInlineValue(g *verifGen, depth int, flat bool) interface{} {
	k := g.Weighted(6, 3, 2, 2, 2, 1)
	if flat && (k == 1 || k == 5) {
		k = 0
	}
	if depth == 0 && k == 2 {
		k = 0
	}
	text := func() string { return g.Str("a", " ", "b ", "", " c", "\n", "d\n\ne", "é", "  ", "--", "f", "\t", "h\t", " -- ", "\n ", "g  ") }
	switch k {
	case 0:
		return &StringElement{Content: text()}
	case 1:
		if g.Bool() {
			return []byte(text())
		}
		return text()
	case 2:
		return genInlineValues(g, depth-1, flat)
	case 3:
		return &QuotedText{Kind: SingleQuoteBold, Elements: []interface{}{&StringElement{Content: text()}}}
	case 4:
		return &Symbol{Name: g.Str(" -- ", "--", "...", "'")}
	default:
		return nil
	}
}

func genInlineValues(g *verifGen, depth int, flat bool) []interface{} {
	out := []interface{}{}
	for i := g.Int(0, 5); i > 0; i-- {
		out = append(out, genInlineValue(g, depth, flat))
	}
	return out
}

func gen_merge(g *verifGen) []interface{}   { return genInlineValues(g, 3, false) }
func gen_Append(g *verifGen) []interface{}  { return genInlineValues(g, 2, false) }
func gen_Flatten(g *verifGen) []interface{} { return genInlineValues(g, 2, false) }

func gen_AllNilEntries(g *verifGen) []interface{} {
	out := []interface{}{}
	for i := g.Int(0, 3); i > 0; i-- {
		switch g.Weighted(4, 2, 1) {
		case 0:
			out = append(out, nil)
		case 1:
			out = append(out, gen_AllNilEntries(g))
		default:
			out = append(out, genInlineValue(g, 0, true))
		}
	}
	return out
}

func gen_InsertAt(g *verifGen) ([]interface{}, interface{}, int) {
	l := genInlineValues(g, 1, false)
	return l, genInlineValue(g, 1, false), g.Int(0, len(l))
}

func gen_TrimTrailingSpaces(g *verifGen) []interface{} { return genInlineValues(g, 1, false) }

func gen_SplitElementsPerLine(g *verifGen) []interface{} { return genInlineValues(g, 0, true) }

func gen_Reduce(g *verifGen) (interface{}, []ReduceOption) {
	var opts []ReduceOption
	for i := g.Int(0, 2); i > 0; i-- {
		if g.Bool() {
			opts = append(opts, strings.TrimSpace)
		} else {
			opts = append(opts, strings.ToUpper)
		}
	}
	switch g.Int(0, 3) {
	case 0:
		return genInlineValue(g, 2, false), opts
	default:
		return genInlineValues(g, 2, false), opts
	}
}

//verif:bounded merge props=C19 n=3000
func contract_merge(elements []interface{}, result []interface{}) {
	ensures(SpecMerged(old(func() []string { return SpecTokens(elements) }), result, true))
	// what is given is left as it is
	ensures(SpecSameTokens(old(func() []string { return SpecTokens(elements) }), SpecTokens(elements)))
}

//verif:bounded Reduce props=C19 n=3000
func contract_Reduce(elements interface{}, opts []ReduceOption, result interface{}) {
	ensures(SpecReduced(old(func() []string { return SpecTokens([]interface{}{elements}) }), opts, result))
}

//verif:bounded SplitElementsPerLine props=C19 n=3000
func contract_SplitElementsPerLine(elements []interface{}, result [][]interface{}) {
	ensures(SpecSplit(old(func() []string { return SpecTokens(elements) }), result))
}

//verif:bounded Append props=C19 n=3000
func contract_Append_items(elements []interface{}, result []interface{}, err error) {
	ensures(SpecMerged(old(func() []string { return SpecTokens(elements) }), result, false))
	ensures(forall(0, len(elements), func(i int) bool {
		return forall(0, len(SpecSlice(elements[i])), func(j int) bool {
			return same(SpecSlice(elements[i])[j], result[SpecSizes(elements, i, false)+j])
		})
	}))
}

//verif:bounded Flatten props=C19 n=3000
func contract_Flatten_items(elements []interface{}, result []interface{}) {
	ensures(SpecMerged(old(func() []string { return SpecTokens(elements) }), result, false))
	ensures(forall(0, len(elements), func(i int) bool {
		return forall(0, len(SpecSlice(elements[i])), func(j int) bool {
			return same(SpecSlice(elements[i])[j], result[SpecSizes(elements, i, true)+j])
		})
	}))
}

//verif:bounded AllNilEntries props=C19 n=5000
func contract_AllNilEntries_exact(elements []interface{}, result bool) {
	ensures(result == SpecAllNil(elements, len(elements)))
}

