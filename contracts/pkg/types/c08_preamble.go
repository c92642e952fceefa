//go:build go1.21

package types

// ---- C08: preamble ----

// SpecIsContent: whether an element counts as content of a preamble
func SpecIsContent(e interface{}) bool {
	switch e.(type) {
	case *BlankLine, *AttributeDeclaration, *AttributeReset:
		return false
	}
	return true
}

//verif:contract (*Preamble).HasContent props=C08
func contract_Preamble_HasContent(p *Preamble, result bool) {
	requires(p != nil)
	ensures(result == exists(0, len(p.Elements), func(i int) bool { return SpecIsContent(p.Elements[i]) }))
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool { return !SpecIsContent(p.Elements[i]) })
	})
}
