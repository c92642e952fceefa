//go:build go1.21

package types

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---- C06: identifiers of the sections ----

// SpecInUse: some element has this identifier already, whatever the case
func SpecInUse(r ElementReferences, id string) bool {
	return existsStr(mapKeys(r), func(k string) bool { return hasKey(r, k) && strings.ToLower(k) == strings.ToLower(id) })
}

// SpecSuffixed: the i-th identifier tried for a section whose title gives base
func SpecSuffixed(base string, i int) string {
	if i == 1 {
		return base
	}
	return base + "_" + strconv.Itoa(i)
}

//verif:contract ElementReferences.inUse props=C06
func contract_ElementReferences_inUse(r ElementReferences, id string, result bool) {
	ensures(result == SpecInUse(r, id))
	invariant(func(visited func(string) bool, id string) bool {
		return forallStr(mapKeys(r), func(k string) bool { return !visited(k) || strings.ToLower(k) != id })
	})
}

//verif:contract ElementReferences.add props=C06
func contract_ElementReferences_add(r ElementReferences, id string, title interface{}) {
	requires(r != nil)
	modifies(r)
	ensures(SpecInUse(r, id))
	ensures(old(func() bool { return SpecInUse(r, id) }) || hasKey(r, id) && same(r[id], title))
	// whatever was recorded stays recorded, under the same identifier and with the same title
	ensures(forallStr(mapKeys(r), func(k string) bool {
		return !old(func() bool { return hasKey(r, k) }) || hasKey(r, k) && same(r[k], old(func() interface{} { return r[k] }))
	}))
	ensures(forallStr(mapKeys(r), func(k string) bool { return k == id || hasKey(r, k) == old(func() bool { return hasKey(r, k) }) }))
}

// SpecTaken: the identifiers numbered up to n (not included) are in use
func SpecTaken(refs ElementReferences, base string, n int) bool {
	return n <= 1 || SpecInUse(refs, SpecSuffixed(base, n-1)) && SpecTaken(refs, base, n-1)
}

// SpecSuffix: the number at the end of the identifier
func SpecSuffix(id, base string) int {
	if !strings.HasPrefix(id, base+"_") {
		return 0
	}
	n, err := strconv.Atoi(strings.TrimPrefix(id, base+"_"))
	if err != nil {
		return 0
	}
	return n
}

//verif:contract (*Section).ResolveID props=C06 opaque=SpecIdent,SpecText,SpecTexts,SpecElement,SpecElements
func contract_Section_ResolveID(s *Section, attrs Attributes, refs ElementReferences, err error) {
	requires(s != nil && separate(s.Attributes, refs) && separate(s.Attributes, attrs))
	modifies(s, s.Attributes)
	ensures(err == nil)
	id, isString := s.Attributes[AttrID].(string)
	base := old(func() string { return SpecBaseID(s, attrs) })
	ensures(isString)
	// the identifier is not the one of any element recorded before
	ensures(!SpecInUse(refs, id))
	// it is the wanted one unless that is in use, otherwise the first one which is free when numbered from 2 on
	ensures(id == base || old(func() bool { return SpecInUse(refs, SpecBaseID(s, attrs)) }))
	n := SpecSuffix(id, base)
	ensures(id == base || n >= 2 && id == SpecSuffixed(base, n))
	ensures(id == base || old(func() bool { return SpecTaken(refs, base, n) }))
	invariant(func(i int, base string) bool {
		return i >= 1 && s.Attributes != nil && old(func() bool { return SpecTaken(refs, base, i) }) && (i == 1 || old(func() bool { return SpecInUse(refs, base) }))
	})
}

//verif:contract (*Section).Reference props=C06
func contract_Section_Reference(s *Section, refs ElementReferences) {
	requires(s != nil && refs != nil)
	modifies(refs)
	id, isString := s.Attributes[AttrID].(string)
	// a section with a title is a target of cross references from now on
	ensures(!isString || id == "" || s.Title == nil || SpecInUse(refs, id))
	// and found under its identifier, if that was not in use
	ensures(!isString || id == "" || s.Title == nil || old(func() bool { return SpecInUse(refs, id) }) || hasKey(refs, id))
	ensures(forallStr(mapKeys(refs), func(k string) bool {
		return !old(func() bool { return hasKey(refs, k) }) || hasKey(refs, k) && same(refs[k], old(func() interface{} { return refs[k] }))
	}))
}

//verif:contract iface:Referencable.Reference props=C06 havoc nosafety
func contract_Referencable_Reference(e Referencable, refs ElementReferences) {
	requires(refs != nil)
	// what was recorded stays recorded: a later element never takes over an identifier
	ensures(forallStr(mapKeys(refs), func(k string) bool {
		return !old(func() bool { return hasKey(refs, k) }) || hasKey(refs, k) && same(refs[k], old(func() interface{} { return refs[k] }))
	}))
	invariant(func() bool {
		return forallStr(mapKeys(refs), func(k string) bool {
			return !old(func() bool { return hasKey(refs, k) }) || hasKey(refs, k) && same(refs[k], old(func() interface{} { return refs[k] }))
		})
	})
}

// SpecIdent: what a text contributes to an identifier: its letters and digits, each run of spaces,
// dashes and dots becoming one separator, everything else dropped
func SpecIdent(s string, i int, sep string, last bool) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	r, w := utf8.DecodeRuneInString(s[i:])
	if unicode.Is(unicode.Letter, r) || unicode.Is(unicode.Number, r) {
		return string(r) + SpecIdent(s, i+w, sep, false)
	}
	if !last && (r == ' ' || r == '-' || r == '.') {
		return sep + SpecIdent(s, i+w, sep, true)
	}
	return SpecIdent(s, i+w, sep, last)
}

//verif:contract replaceNonAlphanumerics props=C06
func contract_replaceNonAlphanumerics(content, replacement string, result string) {
	ensures(result == SpecIdent(content, 0, replacement, false))
	invariant(func(strpos int, buf *strings.Builder, lastCharIsSeparator bool) bool {
		return 0 <= strpos && strpos <= len(content) &&
			buf.String()+SpecIdent(content, strpos, replacement, lastCharIsSeparator) == SpecIdent(content, 0, replacement, false)
	})
}

// SpecElements: what the elements of a title contribute from the i-th on
func SpecElements(elements []interface{}, i int, sep string) string {
	if i < 0 || i >= len(elements) {
		return ""
	}
	return SpecElement(elements[i], i, sep) + SpecElements(elements, i+1, sep)
}

func SpecElement(element interface{}, i int, sep string) string {
	switch e := element.(type) {
	case *QuotedText:
		return SpecTitleIdent(e.Elements, sep) + sep
	case *StringElement:
		return SpecIdent(ite(i == 0, strings.TrimLeft(e.Content, " "), e.Content), 0, sep, false)
	case *InlineLink:
		if e.Location == nil {
			return ""
		}
		return SpecIdent(SpecLocation(e.Location), 0, sep, false) + sep
	case *Icon:
		return SpecIdent(SpecGetString(e.Attributes, AttrImageAlt, e.Class), 0, sep, false) + sep
	}
	return ""
}

// SpecTitleIdent: the identifier made of a title, without the prefix
func SpecTitleIdent(elements []interface{}, sep string) string {
	return strings.ReplaceAll(strings.TrimSuffix(SpecElements(elements, 0, sep), sep), sep+sep, sep)
}

func SpecLocation(l *Location) string {
	return ite(l.Scheme != "mailto:", l.Scheme, "") + SpecText(l.Path)
}

// SpecText: the plain text of some content
func SpecText(element interface{}) string {
	switch e := element.(type) {
	case []interface{}:
		return SpecTexts(e, 0)
	case string:
		return e
	case *StringElement:
		return e.Content
	case *SpecialCharacter:
		return e.Name
	case *AttributeReference:
		return "{" + e.Name + "}"
	}
	return fmt.Sprintf("%v", element)
}

func SpecTexts(elements []interface{}, i int) string {
	if i < 0 || i >= len(elements) {
		return ""
	}
	return SpecText(elements[i]) + SpecTexts(elements, i+1)
}

//verif:contract stringify props=C06 nosafety
func contract_stringify(element interface{}, result string) {
	ensures(result == SpecText(element))
	invariant(func(rangeindex int, element []interface{}, result *strings.Builder) bool {
		return result.String()+SpecTexts(element, rangeindex+1) == SpecTexts(element, 0)
	})
}

//verif:contract (*Location).ToDisplayString props=C06 nosafety
func contract_Location_ToDisplayString(l *Location, result string) {
	ensures(l == nil || result == SpecLocation(l))
}

//verif:contract replaceNonAlphanumericsOnElements props=C06 nosafety opaque=SpecIdent,SpecText,SpecTexts
func contract_replaceNonAlphanumericsOnElements(elements []interface{}, separator string, result string) {
	ensures(result == SpecTitleIdent(elements, separator))
	invariant(func(rangeindex int, result *strings.Builder) bool {
		return result.String()+SpecElements(elements, rangeindex+1, separator) == SpecElements(elements, 0, separator)
	})
}

// SpecGenerated: the identifier made of a title: the prefix (unless the title has it already) and the title
func SpecGenerated(title []interface{}, prefix, sep string) string {
	id := strings.TrimSuffix(SpecTitleIdent(title, sep), sep)
	if strings.HasPrefix(id, prefix) {
		return id
	}
	return prefix + id
}

//verif:contract ReplaceNonAlphanumerics props=C06 nosafety opaque=SpecIdent,SpecText,SpecTexts
func contract_ReplaceNonAlphanumerics(content interface{}, prefix, separator string, result string, err error) {
	s, isString := content.(string)
	ensures(!isString || result == prefix+s)
	e, isElements := content.([]interface{})
	ensures(!isElements || result == SpecGenerated(e, prefix, separator))
	ensures((err == nil) == (isString || isElements))
}

// SpecBaseID: the identifier a section would like to have: its own one, if any, or the one made of its title
func SpecBaseID(s *Section, attrs Attributes) string {
	if id := SpecGetString(s.Attributes, AttrID, ""); id != "" {
		return id
	}
	return SpecGenerated(s.Title, SpecGetString(attrs, AttrIDPrefix, DefaultIDPrefix), SpecGetString(attrs, AttrIDSeparator, DefaultIDSeparator))
}

//verif:contract (*Section).resolveID props=C06 opaque=SpecIdent,SpecText,SpecTexts,SpecElement,SpecElements
func contract_Section_resolveID(s *Section, attrs Attributes, result string, err error) {
	requires(s != nil && separate(s.Attributes, attrs))
	modifies(s, s.Attributes)
	ensures(err == nil && s.Attributes != nil)
	ensures(same(s.Title, old(func() []interface{} { return s.Title })))
	ensures(fresh(s.Attributes) || same(s.Attributes, old(func() Attributes { return s.Attributes })))
	ensures(result == old(func() string { return SpecBaseID(s, attrs) }))
}

//verif:contract ElementReferences.Get props=C06
func contract_ElementReferences_Get(r ElementReferences, id string, title interface{}, found bool) {
	ensures(found == (hasKey(r, id) || SpecInUse(r, id)))
	ensures(!hasKey(r, id) || same(title, r[id]))
	ensures(!found || existsStr(mapKeys(r), func(k string) bool {
		return hasKey(r, k) && strings.ToLower(k) == strings.ToLower(id) && same(title, r[k])
	}))
	invariant(func(visited func(string) bool, id, match string, found bool) bool {
		return (!found || hasKey(r, match) && strings.ToLower(match) == id) &&
			forallStr(nil, func(k string) bool { return !visited(k) || strings.ToLower(k) != id || found })
	})
}
