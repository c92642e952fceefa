//go:build go1.21

package validator

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C21: manpages ----

// SpecHeader: whether the document has a header
func SpecHeader(doc *types.Document) bool {
	return existsElement(doc.Elements, 0)
}

func existsElement(elements []interface{}, i int) bool {
	if i >= len(elements) {
		return false
	}
	if _, ok := elements[i].(*types.DocumentHeader); ok {
		return true
	}
	return existsElement(elements, i+1)
}

// SpecSection: whether the element is a section of level 1 with the given title, case aside
func SpecSection(element interface{}, title string) bool {
	s, ok := element.(*types.Section)
	if !ok || s.Level != 1 || len(s.Title) != 1 {
		return false
	}
	t, ok := s.Title[0].(*types.StringElement)
	return ok && strings.ToLower(t.Content) == title
}

// SpecSingleParagraph: whether the section has one paragraph and nothing else
func SpecSingleParagraph(element interface{}) bool {
	s, ok := element.(*types.Section)
	if !ok || len(s.Elements) != 1 {
		return false
	}
	_, ok = s.Elements[0].(*types.Paragraph)
	return ok
}

// SpecManpage: whether the document has the structure of a manpage
func SpecManpage(doc *types.Document) bool {
	b := doc.BodyElements()
	return SpecHeader(doc) && len(b) >= 2 && SpecSection(b[0], "name") && SpecSingleParagraph(b[0]) && SpecSection(b[1], "synopsis")
}

//verif:bounded Validate props=C21 n=3000
func contract_Validate(doc *types.Document, doctype string, problems []Problem, err error) {
	ensures(err == nil)
	ensures((len(problems) == 0) == (doctype != "manpage" || SpecManpage(doc)))
	ensures(forall(0, len(problems), func(i int) bool { return problems[i].Message != "" && problems[i].Severity == Error }))
}

//verif:contract elementAt props=C21
func contract_elementAt(elements []interface{}, index int, result interface{}) {
	requires(index >= 0)
	ensures(index >= len(elements) || same(result, elements[index]))
	ensures(index < len(elements) || result == nil)
}

//verif:contract isParagraph props=C21
func contract_isParagraph(element interface{}, result bool) {
	_, ok := element.(*types.Paragraph)
	ensures(result == ok)
}

//verif:contract elementsAssertion.haveCount props=C21
func contract_elementsAssertion_haveCount(e elementsAssertion, count int, result bool) {
	ensures(result == (len(e.elements) == count))
}
