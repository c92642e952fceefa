//go:build go1.21

package types

// ---- C17: lists and their elements ----

// SpecUnordered: the element of an unordered list which is the value, if any
func SpecUnordered(e interface{}) *UnorderedListElement {
	u, ok := e.(*UnorderedListElement)
	if !ok {
		return nil
	}
	return u
}

// SpecOrdered: the element of an ordered list which is the value, if any
func SpecOrdered(e interface{}) *OrderedListElement {
	u, ok := e.(*OrderedListElement)
	if !ok {
		return nil
	}
	return u
}

// SpecLabeled: the element of a labeled list which is the value, if any
func SpecLabeled(e interface{}) *LabeledListElement {
	u, ok := e.(*LabeledListElement)
	if !ok {
		return nil
	}
	return u
}

// SpecCallout: the element of a callout list which is the value, if any
func SpecCallout(e interface{}) *CalloutListElement {
	u, ok := e.(*CalloutListElement)
	if !ok {
		return nil
	}
	return u
}

// SpecKind: the kind of list of an element
func SpecKind(e interface{}) ListKind {
	switch e.(type) {
	case *UnorderedListElement:
		return UnorderedListKind
	case *OrderedListElement:
		return OrderedListKind
	case *LabeledListElement:
		return LabeledListKind
	case *CalloutListElement:
		return CalloutListKind
	}
	return ""
}

// SpecMarker: what tells the elements of a list from the ones of another list of the same kind
func SpecMarker(e interface{}) string {
	switch e := e.(type) {
	case *UnorderedListElement:
		return string(e.BulletStyle)
	case *OrderedListElement:
		return e.Style
	case *LabeledListElement:
		return string(e.Style)
	}
	return ""
}

// SpecIsListElement: whether the value is an element of a list
func SpecIsListElement(e interface{}) bool {
	return SpecUnordered(e) != nil || SpecOrdered(e) != nil || SpecLabeled(e) != nil || SpecCallout(e) != nil
}

// SpecContinuation: the continuation which is the value, if any
func SpecContinuation(e interface{}) *ListContinuation {
	c, ok := e.(*ListContinuation)
	if !ok {
		return nil
	}
	return c
}

// SpecLast: the last element of the list
func SpecLast(l *List) interface{} {
	if len(l.Elements) == 0 {
		return nil
	}
	return l.Elements[len(l.Elements)-1]
}

//verif:contract (*List).LastElement props=C17
func contract_List_LastElement(l *List, result ListElement) {
	requires(l != nil)
	ensures(same(result, SpecLast(l)))
}

//verif:contract (*UnorderedListElement).matchesStyle props=C17
func contract_Unordered_matchesStyle(e *UnorderedListElement, other ListElement, result bool) {
	requires(e != nil && (SpecKind(other) != UnorderedListKind || SpecUnordered(other) != nil))
	ensures(result == (SpecUnordered(other) != nil && SpecUnordered(other).BulletStyle == e.BulletStyle))
}

//verif:contract (*OrderedListElement).matchesStyle props=C17
func contract_Ordered_matchesStyle(e *OrderedListElement, other ListElement, result bool) {
	requires(e != nil && (SpecKind(other) != OrderedListKind || SpecOrdered(other) != nil))
	ensures(result == (SpecOrdered(other) != nil && SpecOrdered(other).Style == e.Style))
}

//verif:contract (*LabeledListElement).matchesStyle props=C17
func contract_Labeled_matchesStyle(e *LabeledListElement, other ListElement, result bool) {
	requires(e != nil && (SpecKind(other) != LabeledListKind || SpecLabeled(other) != nil))
	ensures(result == (SpecLabeled(other) != nil && SpecLabeled(other).Style == e.Style))
}

//verif:contract (*List).CanAddElement props=C17 dispatch=UnorderedListElement,OrderedListElement,LabeledListElement,CalloutListElement
func contract_List_CanAddElement(l *List, element interface{}, result bool) {
	requires(l != nil && (SpecLast(l) == nil || SpecIsListElement(SpecLast(l))))
	requires(!SpecIsAnyListElement(element) || SpecIsListElement(element))
	requires(SpecKind(element) == "" || SpecIsListElement(element))
	// elements of the same kind with the same marker, and attached blocks
	ensures(SpecKind(element) == "" || result == (SpecKind(element) == l.Kind && SpecKind(SpecLast(l)) == SpecKind(element) && SpecMarker(element) == SpecMarker(SpecLast(l))))
	ensures(SpecContinuation(element) == nil || result)
	ensures(SpecKind(element) != "" || SpecIsContinuation(element) || !result)
}

// SpecIsContinuation: whether the value is a continuation
func SpecIsContinuation(e interface{}) bool {
	_, ok := e.(*ListContinuation)
	return ok
}

//verif:contract NewList props=C17 dispatch=UnorderedListElement,OrderedListElement,LabeledListElement,CalloutListElement havoc nosafety
func contract_NewList(element ListElement, result *List, err error) {
	requires(SpecIsListElement(element))
	ensures(err == nil && result != nil && fresh(result))
	ensures(result.Kind == SpecKind(element))
	ensures(len(result.Elements) == 1 && same(result.Elements[0], element))
}

//verif:contract addToListElement props=C17 dispatch=UnorderedListElement,OrderedListElement,LabeledListElement,CalloutListElement havoc nosafety
func contract_addToListElement(e ListElement, element interface{}, err error) {
	requires(SpecIsListElement(e))
	ensures(err == nil)
	// appended after the other ones
	ensures(SpecIsRawLine(element) || len(SpecElementsOf(e)) == old(func() int { return len(SpecElementsOf(e)) })+1)
	ensures(SpecIsRawLine(element) || same(SpecElementsOf(e)[len(SpecElementsOf(e))-1], element))
	ensures(SpecIsRawLine(element) || forall(0, old(func() int { return len(SpecElementsOf(e)) }), func(i int) bool {
		return same(SpecElementsOf(e)[i], old(func() interface{} { return SpecElementsOf(e)[i] }))
	}))
}

// SpecIsRawLine: whether the value is a line
func SpecIsRawLine(e interface{}) bool {
	_, ok := e.(*RawLine)
	return ok
}

// SpecElementsOf: the elements of an element of a list
func SpecElementsOf(e interface{}) []interface{} {
	switch e := e.(type) {
	case *UnorderedListElement:
		return e.Elements
	case *OrderedListElement:
		return e.Elements
	case *LabeledListElement:
		return e.Elements
	case *CalloutListElement:
		return e.Elements
	}
	return nil
}

//verif:contract UnorderedListElementBulletStyle.next props=C17
func contract_BulletStyle_next(s UnorderedListElementBulletStyle, result UnorderedListElementBulletStyle) {
	ensures(result != s || s == FiveAsterisks)
	ensures(s != Dash || result == OneAsterisk)
	ensures(s != OneAsterisk || result == TwoAsterisks)
	ensures(s != TwoAsterisks || result == ThreeAsterisks)
	ensures(s != ThreeAsterisks || result == FourAsterisks)
}

//verif:contract NewUnorderedListElementBulletStyle props=C17
func contract_NewUnorderedListElementBulletStyle(style string, result UnorderedListElementBulletStyle, err error) {
	ensures((err == nil) == (style == "-" || style == "*" || style == "**" || style == "***" || style == "****" || style == "*****"))
	ensures(err != nil || (result == Dash) == (style == "-"))
	ensures(err != nil || (result == OneAsterisk) == (style == "*"))
	ensures(err != nil || (result == TwoAsterisks) == (style == "**"))
	ensures(err != nil || (result == ThreeAsterisks) == (style == "***"))
	ensures(err != nil || (result == FourAsterisks) == (style == "****"))
	ensures(err != nil || (result == FiveAsterisks) == (style == "*****"))
}

//verif:contract toLabeledListElementStyle props=C17
func contract_toLabeledListElementStyle(level int, result LabeledListElementStyle, err error) {
	ensures((err == nil) == (level >= 1 && level <= 3))
	ensures(err != nil || string(result) == ite(level == 1, "::", ite(level == 2, ":::", "::::")))
}

// SpecIsAnyListElement: whether the value has the methods of the elements of lists
func SpecIsAnyListElement(e interface{}) bool {
	_, ok := e.(ListElement)
	return ok
}
