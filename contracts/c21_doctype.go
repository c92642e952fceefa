//go:build go1.21

package libasciidoc

import (
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C21: the type of a document ----

// SpecDeclared: whether `doctype` is set after the elements from i on (all of them, or only the
// declarations which come before any other element)
func SpecDeclared(elements []interface{}, i int, leading bool, set bool) bool {
	if i >= len(elements) {
		return set
	}
	switch e := elements[i].(type) {
	case *types.AttributeDeclaration:
		return SpecDeclared(elements, i+1, leading, set || e.Name == "doctype")
	case *types.AttributeReset:
		return SpecDeclared(elements, i+1, leading, set && e.Name != "doctype")
	case *types.FrontMatter:
		return SpecDeclared(elements, i+1, leading, set)
	}
	if leading {
		return set
	}
	return SpecDeclared(elements, i+1, leading, set)
}

// SpecDeclaredValue: the value of `doctype` then
func SpecDeclaredValue(elements []interface{}, i int, leading bool, value interface{}) interface{} {
	if i >= len(elements) {
		return value
	}
	switch e := elements[i].(type) {
	case *types.AttributeDeclaration:
		return SpecDeclaredValue(elements, i+1, leading, ite(e.Name == "doctype", e.Value, value))
	case *types.AttributeReset:
		return SpecDeclaredValue(elements, i+1, leading, ite(e.Name == "doctype", nil, value))
	case *types.FrontMatter:
		return SpecDeclaredValue(elements, i+1, leading, value)
	}
	if leading {
		return value
	}
	return SpecDeclaredValue(elements, i+1, leading, value)
}

// SpecNoNil: no nil declaration
func SpecNoNil(elements []interface{}, i int) bool {
	if i >= len(elements) {
		return true
	}
	switch e := elements[i].(type) {
	case *types.AttributeDeclaration:
		return e != nil && SpecNoNil(elements, i+1)
	case *types.AttributeReset:
		return e != nil && SpecNoNil(elements, i+1)
	}
	return SpecNoNil(elements, i+1)
}

//verif:contract docType props=C21
func contract_docType(doc *types.Document, config *configuration.Configuration, result string) {
	requires(doc != nil && config != nil && SpecNoNil(doc.Elements, 0) && types.SpecHeadersOK(doc.Elements))
	header := types.SpecHeader(doc.Elements, 0)
	requires(header == nil || SpecNoNil(header.Elements, 0))
	caller := hasKey(config.Attributes, "doctype")
	// the declarations which come before anything else, then those of the header
	set := SpecDeclared(doc.Elements, 0, true, false)
	value := SpecDeclaredValue(doc.Elements, 0, true, nil)
	set2, value2 := set, value
	if header != nil {
		set2 = SpecDeclared(header.Elements, 0, false, set)
		value2 = SpecDeclaredValue(header.Elements, 0, false, value)
	}
	// the caller's, else the declared one, else article
	ensures(!caller || result == config.Attributes.GetAsStringWithDefault("doctype", "article"))
	ensures(caller || set2 || result == "article")
	s, isString := value2.(string)
	ensures(caller || !set2 || !isString || result == s)
	ensures(caller || !set2 || value2 != nil || result == "")
	invariant(func(rangeindex int, attrs types.Attributes) bool {
		return attrs != nil
	})
	invariant(func(rangeindex int, attrs types.Attributes) bool {
		return set == SpecDeclared(doc.Elements, rangeindex+1, true, hasKey(attrs, "doctype"))
	})
	invariant(func(rangeindex int, attrs types.Attributes) bool {
		return same(value, SpecDeclaredValue(doc.Elements, rangeindex+1, true, attrs["doctype"]))
	})
	invariant(func(rangeindex int) bool { return SpecNoNil(doc.Elements, rangeindex+1) })
	invariant(func(rangeindex int) bool { return header == nil || SpecNoNil(header.Elements, rangeindex+1) })
	invariant(func(rangeindex int, attrs types.Attributes) bool {
		return header == nil || set2 == SpecDeclared(header.Elements, rangeindex+1, false, hasKey(attrs, "doctype"))
	})
	invariant(func(rangeindex int, attrs types.Attributes) bool {
		return header == nil || same(value2, SpecDeclaredValue(header.Elements, rangeindex+1, false, attrs["doctype"]))
	})
}
