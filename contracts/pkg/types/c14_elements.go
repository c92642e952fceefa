//go:build go1.21

package types

// ---- C14: access to the content of elements ----

// SpecPlain: whether an element holds its content as it is
func SpecPlain(e interface{}) bool {
	switch e.(type) {
	case *DocumentHeader, *Section, *Paragraph, *QuotedText, *ListElements, *CalloutListElement, *OrderedListElement, *UnorderedListElement, *LabeledListElement, *TableCell:
		return true
	}
	return false
}

// SpecContent: its content then
func SpecContent(e interface{}) []interface{} {
	switch e := e.(type) {
	case *DocumentHeader:
		return e.Elements
	case *Section:
		return e.Elements
	case *Paragraph:
		return e.Elements
	case *QuotedText:
		return e.Elements
	case *ListElements:
		return e.Elements
	case *CalloutListElement:
		return e.Elements
	case *OrderedListElement:
		return e.Elements
	case *UnorderedListElement:
		return e.Elements
	case *LabeledListElement:
		return e.Elements
	case *TableCell:
		return e.Elements
	}
	return nil
}

//verif:contract iface:WithElements.GetElements props=C14 havoc keeps=A!any nosafety nonative for=doFilterOut
func contract_WithElements_GetElements(e WithElements, result []interface{}) {
	ensures(!SpecPlain(e) || same(result, SpecContent(e)))
}

//verif:contract iface:WithElements.SetElements props=C14 havoc keeps=A!any nosafety nonative for=doFilterOut
func contract_WithElements_SetElements(e WithElements, elements []interface{}, err error) {
	ensures(!SpecPlain(e) || err == nil && same(SpecContent(e), elements))
}

//verif:contract iface:ListElement.GetElements props=C14 havoc keeps=A!any nosafety nonative for=doFilterOut
func contract_ListElement_GetElements(e ListElement, result []interface{}) {
	ensures(!SpecPlain(e) || same(result, SpecContent(e)))
}

//verif:contract iface:ListElement.SetElements props=C14 havoc keeps=A!any nosafety nonative for=doFilterOut
func contract_ListElement_SetElements(e ListElement, elements []interface{}, err error) {
	ensures(!SpecPlain(e) || err == nil && same(SpecContent(e), elements))
}
