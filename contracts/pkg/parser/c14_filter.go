//go:build go1.21

package parser

import "github.com/bytesparadise/libasciidoc/pkg/types"

// ---- C14: what is filtered out ----

//verif:contract singleLineCommentMatcher props=C14
func contract_singleLineCommentMatcher(element interface{}, result bool) {
	_, ok := element.(*types.SinglelineComment)
	ensures(result == ok)
}

//verif:contract commentBlockMatcher props=C14
func contract_commentBlockMatcher(element interface{}, result bool) {
	e, ok := element.(*types.DelimitedBlock)
	requires(!ok || e != nil)
	ensures(result == (ok && e.Kind == "comment"))
}

//verif:contract blanklineMatcher props=C14
func contract_blanklineMatcher(element interface{}, result bool) {
	_, ok := element.(*types.BlankLine)
	ensures(result == ok)
}

// SpecMatched: whether one of the matchers, from i on, accepts the element
func SpecMatched(matchers []filterMatcher, e interface{}, i int) bool {
	if i >= len(matchers) {
		return false
	}
	return matchers[i](e) || SpecMatched(matchers, e, i+1)
}

// SpecKept: the number of elements among the first n ones which no matcher accepts
func SpecKept(elements []interface{}, matchers []filterMatcher, n int) int {
	if n <= 0 {
		return 0
	}
	return SpecKept(elements, matchers, n-1) + ite(SpecMatched(matchers, elements[n-1], 0), 0, 1)
}

// SpecNoHeader: no document header among the elements (an empty one is dropped, too)
func SpecNoHeader(elements []interface{}) bool {
	return forall(0, len(elements), func(i int) bool { return !SpecIsDocHeader(elements[i]) })
}

func SpecIsDocHeader(e interface{}) bool {
	_, ok := e.(*types.DocumentHeader)
	return ok
}

//verif:contract doFilterOut props=C14 havoc keeps=A!any,A!parser_filterMatcher nosafety nonative
func contract_doFilterOut(elements []interface{}, matchers []filterMatcher, result []interface{}, err error) {
	ensures(err == nil || result == nil)
	plain := SpecNoHeader(elements)
	ensures(fresh(result))
	// what no matcher accepts is kept, nothing else is
	ensures(err != nil || !plain || len(result) == SpecKept(elements, matchers, len(elements)))
	// in its order
	ensures(err != nil || !plain || forall(0, len(elements), func(i int) bool {
		k := old(func() int { return SpecKept(elements, matchers, i) })
		return old(func() bool { return SpecMatched(matchers, elements[i], 0) }) || same(result[k], old(func() interface{} { return elements[i] }))
	}))
	invariant(func(rangeindex int, element interface{}) bool {
		return SpecMatched(matchers, element, 0) == SpecMatched(matchers, element, rangeindex+1)
	})
	invariant(func(result []interface{}) bool { return fresh(result) })
	invariant(func(rangeindex int, result []interface{}) bool { return !plain || len(result) == SpecKept(elements, matchers, rangeindex+1) })
	invariant(func(rangeindex int, result []interface{}) bool {
		return !plain || forall(0, rangeindex+1, func(i int) bool {
			return 0 <= old(func() int { return SpecKept(elements, matchers, i) })
		})
	})
	invariant(func(rangeindex int, result []interface{}) bool {
		return !plain || forall(0, rangeindex+1, func(i int) bool {
			return old(func() bool { return SpecMatched(matchers, elements[i], 0) }) || old(func() int { return SpecKept(elements, matchers, i) }) < len(result)
		})
	})
	invariant(func(rangeindex int, result []interface{}) bool {
		return !plain || forall(0, rangeindex+1, func(i int) bool {
			k := old(func() int { return SpecKept(elements, matchers, i) })
			return old(func() bool { return SpecMatched(matchers, elements[i], 0) }) || same(result[k], old(func() interface{} { return elements[i] }))
		})
	})
}

//verif:contract filterOut props=C14 havoc keeps=A!any,A!parser_filterMatcher nosafety nonative
func contract_filterOut(f types.DocumentFragment, matchers []filterMatcher, result types.DocumentFragment) {
	// errors stay errors
	ensures(result.Position == f.Position)
	ensures(f.Error == nil || same(result.Error, f.Error))
	ensures(result.Error != nil || f.Error == nil)
	ok := result.Error == nil && SpecNoHeader(f.Elements)
	ensures(!ok || len(result.Elements) == SpecKept(f.Elements, matchers, len(f.Elements)))
	ensures(!ok || forall(0, len(f.Elements), func(i int) bool {
		k := old(func() int { return SpecKept(f.Elements, matchers, i) })
		return old(func() bool { return SpecMatched(matchers, f.Elements[i], 0) }) || same(result.Elements[k], old(func() interface{} { return f.Elements[i] }))
	}))
}
