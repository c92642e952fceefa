//go:build go1.21

package types

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---- C04: where the document's own attributes come from ----

// SpecElementsOK: no nil pointers among the declarations of a header
func SpecDeclsOK(es []interface{}) bool {
	return forall(0, len(es), func(i int) bool {
		d, ok := es[i].(*AttributeDeclaration)
		if !ok {
			return true
		}
		return d != nil && SpecAuthorsValueOK(d.Value)
	})
}

func SpecAuthorsValueOK(v interface{}) bool {
	as, ok := v.(DocumentAuthors)
	return !ok || SpecAuthorsOK(as)
}

// SpecHeaderOK: a header, if that is what e is, has no nil parts
func SpecHeadersOK(es []interface{}) bool {
	return forall(0, len(es), func(i int) bool {
		h, ok := es[i].(*DocumentHeader)
		return !ok || h != nil && SpecDeclsOK(h.Elements)
	})
}

func SpecAuthorsOK(as DocumentAuthors) bool {
	return forall(0, len(as), func(i int) bool { return as[i] != nil && as[i].DocumentAuthorFullName != nil })
}

//verif:contract (*Document).Header props=C04,C07,C21
func contract_Document_Header(d *Document, h *DocumentHeader, idx int) {
	requires(d != nil)
	ensures(h == nil && idx == -1 || 0 <= idx && idx < len(d.Elements) && SpecIsHeader(d.Elements[idx], h))
	ensures(forall(0, len(d.Elements), func(i int) bool { return !(i < idx) || SpecBeforeHeader(d.Elements[i]) }))
	ensures(h == SpecHeader(d.Elements, 0))
	ensures(idx == SpecHeaderPos(d.Elements, 0))
	invariant(func(i int) bool {
		return forall(0, len(d.Elements), func(j int) bool { return !(j < i) || SpecBeforeHeader(d.Elements[j]) })
	})
	invariant(func(rangeindex int) bool { return SpecHeader(d.Elements, 0) == SpecHeader(d.Elements, rangeindex+1) })
	invariant(func(rangeindex int) bool { return SpecHeaderPos(d.Elements, 0) == SpecHeaderPos(d.Elements, rangeindex+1) })
}

// SpecHeader: the header of a document with the given elements from i on
func SpecHeader(elements []interface{}, i int) *DocumentHeader {
	if i >= len(elements) {
		return nil
	}
	if h, ok := elements[i].(*DocumentHeader); ok {
		return h
	}
	if SpecBeforeHeader(elements[i]) {
		return SpecHeader(elements, i+1)
	}
	return nil
}

func SpecIsHeader(e interface{}, h *DocumentHeader) bool {
	x, ok := e.(*DocumentHeader)
	return ok && x == h
}

// SpecBeforeHeader: what may come before the header
func SpecBeforeHeader(e interface{}) bool {
	switch e.(type) {
	case *BlankLine, *FrontMatter, *AttributeDeclaration, *AttributeReset:
		return true
	}
	return false
}

// SpecHeaderPos: the position of the header, from i on (-1 if there is none)
func SpecHeaderPos(elements []interface{}, i int) int {
	if i >= len(elements) {
		return -1
	}
	if _, ok := elements[i].(*DocumentHeader); ok {
		return i
	}
	if SpecBeforeHeader(elements[i]) {
		return SpecHeaderPos(elements, i+1)
	}
	return -1
}

//verif:contract (*DocumentHeader).Authors props=C04
func contract_DocumentHeader_Authors(h *DocumentHeader, result DocumentAuthors) {
	requires(h != nil && SpecDeclsOK(h.Elements))
	ensures(SpecAuthorsOK(result))
	invariant(func(result *DocumentAuthor) bool { return result == nil || result.DocumentAuthorFullName != nil })
}

//verif:contract (*DocumentHeader).Revision props=C04
func contract_DocumentHeader_Revision(h *DocumentHeader, result *DocumentRevision) {
	requires(h != nil && SpecDeclsOK(h.Elements))
}

//verif:contract DocumentAuthors.Expand props=C04
func contract_DocumentAuthors_Expand(authors DocumentAuthors, result Attributes) {
	requires(SpecAuthorsOK(authors))
	ensures(result != nil && fresh(result))
}

//verif:contract (*DocumentRevision).Expand props=C04
func contract_DocumentRevision_Expand(r *DocumentRevision, result Attributes) {
	requires(r != nil)
	ensures(result != nil && fresh(result))
}

//verif:contract NewDocumentAuthor props=C04
func contract_NewDocumentAuthor(fullName, email interface{}, result *DocumentAuthor, err error) {
	n, named := fullName.(*DocumentAuthorFullName)
	requires(!named || n != nil)
	ensures(err == nil && result != nil && fresh(result))
	ensures(result.DocumentAuthorFullName != nil)
	ensures(!named || result.DocumentAuthorFullName == n)
	ensures(named || result.FirstName == "" && result.MiddleName == "" && result.LastName == "")
	e, ok := email.(string)
	ensures(result.Email == ite(ok, strings.TrimSpace(e), ""))
}

//verif:contract NewDocumentAuthorFullName props=C04
func contract_NewDocumentAuthorFullName(part1 string, part2, part3 interface{}, result *DocumentAuthorFullName, err error) {
	p2, ok2 := part2.(string)
	p3, ok3 := part3.(string)
	ensures(err == nil && result != nil && fresh(result))
	ensures(result.FirstName == strings.ReplaceAll(part1, "_", " "))
	ensures(result.MiddleName == ite(ok2 && ok3, strings.ReplaceAll(p2, "_", " "), ""))
	ensures(result.LastName == ite(ok3, strings.TrimSpace(strings.ReplaceAll(p3, "_", " ")), ite(ok2, strings.ReplaceAll(p2, "_", " "), "")))
}

//verif:contract NewDocumentAuthorsAndRevision props=C04
func contract_NewDocumentAuthorsAndRevision(authors DocumentAuthors, revision interface{}, result *DocumentAuthorsAndRevision, err error) {
	r, ok := revision.(*DocumentRevision)
	ensures(err == nil && result != nil && fresh(result))
	ensures(seqEq(result.Authors, authors))
	ensures(result.Revision == ite(ok, r, nil))
}

//verif:contract NewDocumentAuthors props=C04
func contract_NewDocumentAuthors(authors []interface{}, result DocumentAuthors, err error) {
	ensures(err != nil || len(result) == len(authors))
	ensures(err != nil || forall(0, len(authors), func(i int) bool {
		a, ok := authors[i].(*DocumentAuthor)
		return ok && result[i] == a
	}))
	ensures(err == nil || exists(0, len(authors), func(i int) bool {
		_, ok := authors[i].(*DocumentAuthor)
		return !ok
	}))
	invariant(func(result []*DocumentAuthor, i int) bool {
		return len(result) == len(authors) && 0 <= i && fresh(result)
	})
	invariant(func(result []*DocumentAuthor, i int) bool {
		return forall(0, i, func(j int) bool {
			a, ok := authors[j].(*DocumentAuthor)
			return ok && result[j] == a
		})
	})
}

// SpecKey: the name of the attribute of the author at the given index
func SpecKey(k string, i int) string {
	if i == 0 {
		return k
	}
	return k + "_" + strconv.Itoa(i+1)
}

//verif:contract key props=C04
func contract_key(k string, i int, result string) {
	ensures(result == SpecKey(k, i))
}

// SpecInitial: the first character
func SpecInitial(s string) string {
	if s == "" {
		return ""
	}
	_, n := utf8.DecodeRuneInString(s)
	return s[:n]
}

//verif:contract initial props=C04
func contract_initial(s string, result string) {
	_, n := utf8.DecodeRuneInString(s)
	trusts(s == "" || 0 < n && n <= len(s)) // utf8.DecodeRuneInString
	ensures(result == SpecInitial(s))
}
