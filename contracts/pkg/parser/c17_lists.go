//go:build go1.21

package parser

import "github.com/bytesparadise/libasciidoc/pkg/types"

// ---- C17: stack of the open lists ----

// SpecGoodStack: a marker for each list
func SpecGoodStack(s *listStack) bool {
	return s != nil && len(s.stack) == len(s.markers)
}

// SpecUnorderedElement: the element of an unordered list which is the value, if any
func SpecUnorderedElement(e interface{}) *types.UnorderedListElement {
	u, ok := e.(*types.UnorderedListElement)
	if !ok {
		return nil
	}
	return u
}

//verif:contract newListStack props=C17
func contract_newListStack(result *listStack) {
	ensures(result != nil && fresh(result) && SpecGoodStack(result) && len(result.stack) == 0)
}

//verif:contract (*listStack).root props=C17
func contract_listStack_root(s *listStack, result *types.List) {
	requires(s != nil)
	ensures(len(s.stack) != 0 || result == nil)
	ensures(len(s.stack) == 0 || result == s.stack[0])
}

//verif:contract (*listStack).get props=C17
func contract_listStack_get(s *listStack, result *types.List) {
	requires(s != nil)
	ensures(len(s.stack) != 0 || result == nil)
	ensures(len(s.stack) == 0 || result == s.stack[len(s.stack)-1])
}

//verif:contract (*listStack).pop props=C17
func contract_listStack_pop(s *listStack, result *types.List) {
	requires(SpecGoodStack(s))
	modifies(s)
	n := old(func() int { return len(s.stack) })
	ensures(SpecGoodStack(s))
	ensures(n != 0 || result == nil && len(s.stack) == 0)
	ensures(n == 0 || len(s.stack) == n-1 && result == old(func() *types.List { return s.stack[len(s.stack)-1] }))
	ensures(forall(0, len(s.stack), func(i int) bool { return s.stack[i] == old(func() *types.List { return s.stack[i] }) }))
	ensures(forall(0, len(s.stack), func(i int) bool {
		return s.markers[i] == old(func() types.UnorderedListElementBulletStyle { return s.markers[i] })
	}))
}

//verif:contract (*listStack).markerOf props=C17
func contract_listStack_markerOf(s *listStack, element types.ListElement, result types.UnorderedListElementBulletStyle) {
	requires(SpecGoodStack(s))
	requires(forall(0, len(s.stack), func(i int) bool { return s.stack[i] != nil }))
	u := SpecUnorderedElement(element)
	requires(u != nil || !SpecIsUnordered(element))
	ensures(u != nil || result == "")
	// the marker itself, unless a level of asterisks is skipped
	ensures(u == nil || u.BulletStyle != types.Dash && u.BulletStyle != types.OneAsterisk || result == u.BulletStyle)
	ensures(u == nil || len(s.stack) > 0 || result == u.BulletStyle)
	ensures(u == nil || len(s.stack) == 0 || s.markers[len(s.markers)-1] != types.Dash || result == u.BulletStyle)
	ensures(u == nil || len(s.stack) == 0 || s.stack[len(s.stack)-1].Kind == types.UnorderedListKind || result == u.BulletStyle)
	ensures(u == nil || len(s.stack) == 0 || s.markers[len(s.markers)-1] != types.OneAsterisk || u.BulletStyle != types.TwoAsterisks || result == u.BulletStyle)
	ensures(u == nil || len(s.stack) == 0 || s.markers[len(s.markers)-1] != types.TwoAsterisks || u.BulletStyle != types.TwoAsterisks && u.BulletStyle != types.ThreeAsterisks || result == u.BulletStyle)
	ensures(u == nil || len(s.stack) == 0 || s.markers[len(s.markers)-1] != types.ThreeAsterisks || u.BulletStyle == types.FiveAsterisks || result == u.BulletStyle)
}

// SpecIsUnordered: whether the value is an element of an unordered list
func SpecIsUnordered(e interface{}) bool {
	_, ok := e.(*types.UnorderedListElement)
	return ok
}

//verif:contract (*listStack).canAdd props=C17 havoc nosafety
func contract_listStack_canAdd(s *listStack, i int, element interface{}, result bool) {
	requires(SpecGoodStack(s) && i >= 0 && i < len(s.stack))
	requires(SpecGoodList(s.stack[i]) && SpecGoodElement(element))
	ensures(SpecGoodStack(s))
	ensures(len(s.stack) == old(func() int { return len(s.stack) }))
	ensures(same(s.stack, old(func() []*types.List { return s.stack })))
	ensures(types.SpecContinuation(element) == nil || result)
	ensures(SpecUnorderedElement(element) == nil || result == old(func() bool {
		return s.stack[i].Kind == types.UnorderedListKind && s.markers[i] == SpecUnorderedElement(element).BulletStyle
	}))
}

// SpecGoodList: a list with at least an element
func SpecGoodList(l *types.List) bool {
	return l != nil && len(l.Elements) > 0 && types.SpecIsListElement(types.SpecLast(l))
}

// SpecGoodElement: not a nil element
func SpecGoodElement(e interface{}) bool {
	return (!types.SpecIsAnyListElement(e) || types.SpecIsListElement(e)) && (types.SpecKind(e) == "" || types.SpecIsListElement(e)) &&
		(!types.SpecIsContinuation(e) || types.SpecContinuation(e) != nil)
}

//verif:contract (*listStack).parentFor props=C17 havoc nosafety
func contract_listStack_parentFor(s *listStack, element interface{}, result *types.List) {
	requires(SpecGoodStack(s) && SpecGoodElement(element))
	requires(forall(0, len(s.stack), func(i int) bool { return SpecGoodList(s.stack[i]) }))
	ensures(SpecGoodStack(s))
	// the list is the last one which is still open, and it was open before
	ensures(result == nil || len(s.stack) > 0 && result == s.stack[len(s.stack)-1])
	ensures(len(s.stack) <= old(func() int { return len(s.stack) }))
	ensures(forall(0, len(s.stack), func(i int) bool { return s.stack[i] == old(func() *types.List { return s.stack[i] }) }))
	ensures(forall(0, len(s.stack), func(i int) bool {
		return s.markers[i] == old(func() types.UnorderedListElementBulletStyle { return s.markers[i] })
	}))
	invariant(func(i int) bool { return SpecGoodStack(s) && len(s.stack) <= old(func() int { return len(s.stack) }) })
	invariant(func(i int) bool {
		return forall(0, len(s.stack), func(k int) bool { return SpecGoodList(s.stack[k]) })
	})
	invariant(func(i int) bool {
		return forall(0, len(s.stack), func(k int) bool { return s.stack[k] == old(func() *types.List { return s.stack[k] }) })
	})
	invariant(func(i int) bool {
		return forall(0, len(s.stack), func(k int) bool {
			return s.markers[k] == old(func() types.UnorderedListElementBulletStyle { return s.markers[k] })
		})
	})
	invariant(func(i int) bool { return i >= 0-1 && i < len(s.stack) })
}
