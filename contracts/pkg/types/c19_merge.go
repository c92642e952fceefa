//go:build go1.21

package types

import "strings"

// ---- C19: merging and flattening of elements ----

// SpecSlice: the slice which is the value, if any
func SpecSlice(e interface{}) []interface{} {
	s, ok := e.([]interface{})
	if !ok {
		return nil
	}
	return s
}

// SpecIsSlice: whether the value is a slice
func SpecIsSlice(e interface{}) bool {
	_, ok := e.([]interface{})
	return ok
}

// SpecSize: number of elements in the value
func SpecSize(e interface{}, nils bool) int {
	switch e := e.(type) {
	case nil:
		if nils {
			return 1
		}
		return 0
	case []interface{}:
		return len(e)
	default:
		return 1
	}
}

// SpecSizes: number of elements in the first n values
func SpecSizes(elements []interface{}, n int, nils bool) int {
	decreases(n)
	if n <= 0 {
		return 0
	}
	return SpecSizes(elements, n-1, nils) + SpecSize(elements[n-1], nils)
}

//verif:contract Append props=C19
func contract_Append(elements []interface{}, result []interface{}, err error) {
	requires(valid(elements))
	trusts(forall(0, len(elements), func(i int) bool { return valid(SpecSlice(elements[i])) }))
	ensures(err == nil && result != nil && fresh(result))
	ensures(len(result) == SpecSizes(elements, len(elements), false))
	ensures(forall(0, len(elements), func(i int) bool {
		return SpecIsSlice(elements[i]) || elements[i] == nil || same(elements[i], result[SpecSizes(elements, i, false)])
	}))
	invariant(func(rangeindex int, result []interface{}) bool { return fresh(result) && result != nil && rangeindex >= 0-1 })
	invariant(func(rangeindex int, result []interface{}) bool {
		return len(result) == SpecSizes(elements, rangeindex+1, false)
	})
	invariant(func(rangeindex int, result []interface{}) bool {
		return forall(0, rangeindex+1, func(i int) bool {
			return SpecSizes(elements, i, false)+SpecSize(elements[i], false) <= len(result)
		})
	})
	invariant(func(rangeindex int, result []interface{}) bool {
		return forall(0, rangeindex+1, func(i int) bool {
			return SpecIsSlice(elements[i]) || elements[i] == nil || same(elements[i], result[SpecSizes(elements, i, false)])
		})
	})
}

//verif:contract Flatten props=C19
func contract_Flatten(elements []interface{}, result []interface{}) {
	requires(valid(elements))
	trusts(forall(0, len(elements), func(i int) bool { return valid(SpecSlice(elements[i])) }))
	ensures(result != nil && fresh(result))
	ensures(len(result) == SpecSizes(elements, len(elements), true))
	ensures(forall(0, len(elements), func(i int) bool {
		return SpecIsSlice(elements[i]) || same(elements[i], result[SpecSizes(elements, i, true)])
	}))
	invariant(func(rangeindex int, result []interface{}) bool { return fresh(result) && result != nil && rangeindex >= 0-1 })
	invariant(func(rangeindex int, result []interface{}) bool {
		return len(result) == SpecSizes(elements, rangeindex+1, true)
	})
	invariant(func(rangeindex int, result []interface{}) bool {
		return forall(0, rangeindex+1, func(i int) bool {
			return SpecSizes(elements, i, true)+SpecSize(elements[i], true) <= len(result)
		})
	})
	invariant(func(rangeindex int, result []interface{}) bool {
		return forall(0, rangeindex+1, func(i int) bool {
			return SpecIsSlice(elements[i]) || same(elements[i], result[SpecSizes(elements, i, true)])
		})
	})
}

//verif:contract InsertAt props=C19
func contract_InsertAt(elements []interface{}, element interface{}, index int, result []interface{}) {
	requires(index >= 0 && index <= len(elements))
	ensures(element != nil || same(result, elements))
	ensures(element == nil || len(result) == len(elements)+1 && same(result[index], element))
	ensures(element == nil || forall(0, index, func(i int) bool { return same(result[i], elements[i]) }))
	ensures(element == nil || forall(index, len(elements), func(i int) bool { return same(result[i+1], elements[i]) }))
}

//verif:contract TrimTrailingSpaces props=C19
func contract_TrimTrailingSpaces(content []interface{}, result []interface{}) {
	requires(valid(content))
	requires(len(content) == 0 || SpecNotNilText(content[len(content)-1]))
	modifies(SpecString(content))
	// only the last text may change, and only its trailing spaces
	ensures(len(result) <= len(content) && len(result) >= len(content)-1)
	ensures(forall(0, len(result), func(i int) bool { return same(result[i], content[i]) }))
	ensures(len(result) == len(content) || SpecIsText(content[len(content)-1]) && SpecTextOf(content[len(content)-1]) == "")
	ensures(len(content) == 0 || !SpecIsText(content[len(content)-1]) || SpecTextOf(content[len(content)-1]) ==
		old(func() string { return strings.TrimRight(SpecTextOf(content[len(content)-1]), " ") }))
}

// SpecNotNilText: not a nil text
func SpecNotNilText(e interface{}) bool {
	s, ok := e.(*StringElement)
	return !ok || s != nil
}

// SpecString: the last element, if it is a text
func SpecString(content []interface{}) *StringElement {
	if len(content) == 0 {
		return nil
	}
	s, ok := content[len(content)-1].(*StringElement)
	if !ok {
		return nil
	}
	return s
}

// SpecIsText: a text element
func SpecIsText(e interface{}) bool {
	s, ok := e.(*StringElement)
	return ok && s != nil
}

// SpecTextOf: its text
func SpecTextOf(e interface{}) string {
	s, ok := e.(*StringElement)
	if !ok || s == nil {
		return ""
	}
	return s.Content
}

//verif:contract AllNilEntries props=C19
func contract_AllNilEntries(elements []interface{}, result bool) {
	requires(valid(elements))
	trusts(forall(0, len(elements), func(i int) bool { return valid(SpecSlice(elements[i])) }))
	ensures(!result || SpecAllNil(elements, len(elements)))
	invariant(func(rangeindex int) bool { return SpecAllNil(elements, rangeindex+1) })
}

// SpecAllNil: nothing but nil in the first n elements
func SpecAllNil(elements []interface{}, n int) bool {
	decreases(n)
	if n <= 0 {
		return true
	}
	if SpecIsSlice(elements[n-1]) {
		return SpecAllNil(elements, n-1) && SpecAllNil(SpecSlice(elements[n-1]), len(SpecSlice(elements[n-1])))
	}
	return SpecAllNil(elements, n-1) && elements[n-1] == nil
}
