//go:build go1.21

package parser

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C13: elements set aside while the text is substituted ----

// SpecPlaceholders: n elements were set aside, with the references 1, ..., n
func SpecPlaceholders(p *placeholders) bool {
	return p != nil && p.elements != nil && p.seq >= 0 &&
		forallStr(mapKeys(p.elements), func(k string) bool {
			return !hasKey(p.elements, k) || exists(1, p.seq+1, func(i int) bool { return k == strconv.Itoa(i) })
		})
}

//verif:contract newPlaceholders props=C13
func contract_newPlaceholders(p *placeholders) {
	ensures(p != nil && p.elements != nil && fresh(p) && fresh(p.elements))
	ensures(p.seq == 0 && !p.protectDelimiters)
	ensures(forallStr(mapKeys(p.elements), func(k string) bool { return !hasKey(p.elements, k) }))
}

//verif:contract (*placeholders).add props=C13
func contract_placeholders_add(p *placeholders, element interface{}, r *types.ElementPlaceHolder) {
	requires(p != nil && p.elements != nil && p.seq >= 0)
	modifies(p, p.elements)
	ensures(r != nil && fresh(r))
	ensures(p.seq == old(func() int { return p.seq })+1)
	ensures(p.protectDelimiters == old(func() bool { return p.protectDelimiters }))
	ensures(same(p.elements, old(func() map[string]interface{} { return p.elements })))
	ensures(r.Ref == strconv.Itoa(p.seq))
	ensures(hasKey(p.elements, r.Ref) && same(p.elements[r.Ref], element))
	ensures(forallStr(mapKeys(p.elements), func(k string) bool {
		return k == r.Ref || hasKey(p.elements, k) == old(func() bool { return hasKey(p.elements, k) }) && same(p.elements[k], old(func() interface{} { return p.elements[k] }))
	}))
}

//verif:lemma props=C13
func lemma_placeholders_add(p *placeholders, element interface{}, k string) {
	requires(SpecPlaceholders(p))
	kept := hasKey(p.elements, k)
	e := p.elements[k]
	r := p.add(element)
	ensures(SpecPlaceholders(p))
	ensures(!kept || r.Ref != k && hasKey(p.elements, k) && same(p.elements[k], e))
}

// SpecProtected: the text has no delimiter to protect
func SpecProtected(p *placeholders, text string) bool {
	return !p.protectDelimiters || !strings.Contains(text, "\uFFFD")
}

//verif:contract (*placeholders).protect props=C13
func contract_placeholders_protect(p *placeholders, text string, out string) {
	requires(p != nil && p.elements != nil && p.seq >= 0)
	modifies(p, p.elements)
	ensures(!SpecProtected(p, text) || out == text)
	ensures(!SpecProtected(p, text) || p.seq == old(func() int { return p.seq }))
	ensures(p.seq >= old(func() int { return p.seq }))
	ensures(p.protectDelimiters == old(func() bool { return p.protectDelimiters }))
	ensures(same(p.elements, old(func() map[string]interface{} { return p.elements })))
	ensures(!SpecProtected(p, text) || forallStr(mapKeys(p.elements), func(k string) bool {
		return hasKey(p.elements, k) == old(func() bool { return hasKey(p.elements, k) }) && same(p.elements[k], old(func() interface{} { return p.elements[k] }))
	}))
	invariant(func() bool {
		return p.elements != nil && p.seq >= old(func() int { return p.seq }) && p.protectDelimiters == old(func() bool { return p.protectDelimiters }) && same(p.elements, old(func() map[string]interface{} { return p.elements }))
	})
}

// SpecText: whether the element is plain text, and which
func SpecText(e interface{}, reparse bool) bool {
	switch e := e.(type) {
	case *types.RawLine, string, *types.StringElement:
		return true
	case *types.SpecialCharacter:
		return reparse && e.Name != "&"
	}
	return false
}

func SpecTextOf(e interface{}) string {
	switch e := e.(type) {
	case *types.RawLine:
		return e.Content
	case string:
		return e
	case *types.StringElement:
		return e.Content
	case *types.SpecialCharacter:
		return e.Name
	}
	return ""
}

// SpecAside: the number of elements set aside among the n first ones
func SpecAside(elements []interface{}, n int, reparse bool) int {
	decreases(n)
	if n <= 0 {
		return 0
	}
	return SpecAside(elements, n-1, reparse) + ite(SpecText(elements[n-1], reparse), 0, 1)
}

// SpecSerialized: the text of the n first elements, with references to those which were set aside
func SpecSerialized(elements []interface{}, n int, reparse bool) string {
	decreases(n)
	if n <= 0 {
		return ""
	}
	return SpecSerialized(elements, n-1, reparse) + ite(SpecText(elements[n-1], reparse), SpecTextOf(elements[n-1]), "\uFFFD"+strconv.Itoa(SpecAside(elements, n, reparse))+"\uFFFD")
}

// SpecNoDelimiters: no text to protect
func SpecNoDelimiters(elements []interface{}, protect bool) bool {
	return !protect || forall(0, len(elements), func(i int) bool { return !strings.Contains(SpecTextOf(elements[i]), "\uFFFD") })
}

// the elements are valid: no nil pointers
func SpecValidElements(elements []interface{}) bool {
	return forall(0, len(elements), func(i int) bool {
		switch e := elements[i].(type) {
		case *types.RawLine:
			return e != nil
		case *types.StringElement:
			return e != nil
		case *types.SpecialCharacter:
			return e != nil
		}
		return true
	})
}

//verif:contract serialize props=C13
func contract_serialize(content interface{}, reparse bool, protect bool, out []byte, p *placeholders, err error) {
	elements, ok := content.([]interface{})
	requires(valid(content) && valid(elements))
	requires(SpecValidElements(elements) && SpecNoDelimiters(elements, protect))
	text, isText := content.(string)
	requires(!protect || !strings.Contains(text, "\uFFFD"))
	ensures((err == nil) == (ok || isText || content == nil))
	ensures(err != nil || p != nil && fresh(p))
	ensures(!isText || string(out) == text && p.seq == 0)
	ensures(!ok || string(out) == old(func() string { return SpecSerialized(elements, len(elements), reparse) }))
	ensures(!ok || p.seq == old(func() int { return SpecAside(elements, len(elements), reparse) }))
	ensures(!ok || forall(0, len(elements), func(i int) bool {
		n := old(func() int { return SpecAside(elements, i+1, reparse) })
		return old(func() bool { return SpecText(elements[i], reparse) }) || hasKey(p.elements, strconv.Itoa(n)) && same(p.elements[strconv.Itoa(n)], elements[i])
	}))
	invariant(func(placeholders *placeholders) bool {
		return placeholders != nil && placeholders.elements != nil && placeholders.protectDelimiters == protect
	})
	invariant(func(placeholders *placeholders) bool { return fresh(placeholders) && fresh(placeholders.elements) })
	invariant(func(rangeindex int) bool { return rangeindex >= 0-1 })
	invariant(func(placeholders *placeholders) bool { return placeholders.seq >= 0 })
	invariant(func(result *bytes.Buffer) bool { return result != nil && fresh(result) })
	invariant(func(rangeindex int, placeholders *placeholders) bool {
		return placeholders.seq == old(func() int { return SpecAside(elements, rangeindex+1, reparse) })
	})
	invariant(func(rangeindex int, result *bytes.Buffer) bool {
		return result.String() == old(func() string { return SpecSerialized(elements, rangeindex+1, reparse) })
	})
	invariant(func(rangeindex int, placeholders *placeholders) bool {
		return forall(0, rangeindex+1, func(i int) bool {
			n := old(func() int { return SpecAside(elements, i+1, reparse) })
			return old(func() bool { return SpecText(elements[i], reparse) }) || n <= placeholders.seq && hasKey(placeholders.elements, strconv.Itoa(n)) && same(placeholders.elements[strconv.Itoa(n)], elements[i])
		})
	})
}

// SpecSetAside: the element with the given reference
func SpecSetAside(p *placeholders, e interface{}) bool {
	r, ok := e.(*types.ElementPlaceHolder)
	return ok && r != nil && hasKey(p.elements, r.Ref)
}

//verif:contract (*placeholders).restoreElement props=C13 havoc nosafety
func contract_placeholders_restoreElement(p *placeholders, element interface{}, out interface{}, err error) {
	requires(p != nil)
	_, ok := element.(*types.ElementPlaceHolder)
	original := old(func() interface{} {
		if r, ok := element.(*types.ElementPlaceHolder); ok {
			return p.elements[r.Ref]
		}
		return nil
	})
	ensures(!ok || !old(func() bool { return SpecSetAside(p, element) }) || err == nil && same(out, original))
}

//verif:contract (*placeholders).restorePath props=C13 assumed havoc nonative
func contract_placeholders_restorePath(p *placeholders, path interface{}, out interface{}) {
	requires(p != nil)
}

//verif:contract (*placeholders).restoreString props=C13 nonative
func contract_placeholders_restoreString(p *placeholders, s string, out string) {
	requires(p != nil)
}

//verif:contract (*placeholders).restoreAttributes props=C13 havoc nonative nosafety
func contract_placeholders_restoreAttributes(p *placeholders, attrs types.Attributes, err error) {
	requires(p != nil)
}

//verif:contract (*placeholders).restore props=C13 havoc nosafety
func contract_placeholders_restore(p *placeholders, elements []interface{}, out []interface{}, err error) {
	requires(p != nil)
	ensures(err != nil || len(out) == len(elements))
}
