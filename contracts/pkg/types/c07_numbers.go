//go:build go1.21

package types

import (
	"strconv"
	"strings"
)

// ---- C07: section numbers ----

// SpecSwitch: the numbering after one element of a document, sections and the preamble aside
func SpecSwitch(element interface{}, enabled bool) bool {
	switch e := element.(type) {
	case *AttributeDeclaration:
		return e.Name == AttrSectionNumbering || e.Name == AttrNumbered || enabled
	case *AttributeReset:
		return e.Name != AttrSectionNumbering && e.Name != AttrNumbered && enabled
	}
	return enabled
}

// SpecSwitches: the numbering after the elements from i on
func SpecSwitches(elements []interface{}, enabled bool, i int) bool {
	if i >= len(elements) {
		return enabled
	}
	return SpecSwitches(elements, SpecSwitch(elements[i], enabled), i+1)
}

// SpecNumberable: no nil in the tree, from element i on
func SpecNumberable(elements []interface{}, i int) bool {
	if i >= len(elements) {
		return true
	}
	switch e := elements[i].(type) {
	case *AttributeDeclaration:
		return e != nil && SpecNumberable(elements, i+1)
	case *AttributeReset:
		return e != nil && SpecNumberable(elements, i+1)
	case *Preamble:
		return e != nil && SpecNumberable(e.Elements, 0) && SpecNumberable(elements, i+1)
	case *Section:
		return e != nil && SpecNumberable(e.Elements, 0) && SpecNumberable(elements, i+1)
	}
	return SpecNumberable(elements, i+1)
}

// SpecNumberingAfter: the numbering after the elements from i on, their content included
func SpecNumberingAfter(elements []interface{}, enabled bool, i int) bool {
	if i >= len(elements) {
		return enabled
	}
	switch e := elements[i].(type) {
	case *Preamble:
		return SpecNumberingAfter(elements, SpecSwitches(e.Elements, enabled, 0), i+1)
	case *Section:
		return SpecNumberingAfter(elements, SpecNumberingAfter(e.Elements, enabled, 0), i+1)
	}
	return SpecNumberingAfter(elements, SpecSwitch(elements[i], enabled), i+1)
}

//verif:contract isNumberingEnabled props=C07
func contract_isNumberingEnabled(elements []interface{}, enabled bool, result bool) {
	requires(SpecNumberable(elements, 0))
	ensures(result == SpecSwitches(elements, enabled, 0))
	ensures(len(elements) != 1 || result == SpecSwitch(elements[0], enabled))
	on := enabled
	invariant(func(rangeindex int, enabled bool) bool {
		return SpecNumberable(elements, rangeindex+1) &&
			SpecSwitches(elements, on, 0) == SpecSwitches(elements, enabled, rangeindex+1)
	})
}

//verif:contract numberSections props=C07 opaque=SpecSwitches
func contract_numberSections(elements []interface{}, enabled, locked, numbered bool, prefix string, numbers map[string]string, after bool) {
	requires(SpecNumberable(elements, 0))
	ensures(numbers != nil && fresh(numbers))
	ensures(after == ite(locked, enabled, SpecNumberingAfter(elements, enabled, 0)))
	// all the numbers continue the number of the parent, and there is none without a number of the parent
	ensures(forallStr(mapKeys(numbers), func(id string) bool {
		return !hasKey(numbers, id) || numbered && strings.HasPrefix(numbers[id], prefix) && len(numbers[id]) > len(prefix)
	}))
	on := enabled
	invariant(func(rangeindex int) bool { return SpecNumberable(elements, rangeindex+1) })
	invariant(func(counter int) bool { return counter >= 0 })
	invariant(func(rangeindex int, enabled bool) bool {
		return ite(locked, enabled == on, SpecNumberingAfter(elements, on, 0) == SpecNumberingAfter(elements, enabled, rangeindex+1))
	})
	invariant(func(result map[string]string) bool {
		return forallStr(nil, func(id string) bool {
			return !hasKey(result, id) || numbered && strings.HasPrefix(result[id], prefix) && len(result[id]) > len(prefix)
		})
	})
}

var _ = strconv.Itoa
