//go:build go1.21

package parser

import "github.com/bytesparadise/libasciidoc/pkg/types"

// ---- C08: the tree of the document ----

// SpecSectionLevel: the level of an entry of the stack of open elements (-1: the document)
func SpecSectionLevel(e types.WithElementAddition) int {
	if s, ok := e.(*types.Section); ok {
		return s.Level
	}
	return -1
}

// SpecOpen: a stack of open elements: the document, then sections, each deeper than the one before
func SpecOpen(a []types.WithElementAddition) bool {
	if len(a) == 0 {
		return false
	}
	d, ok := a[0].(*types.Document)
	return ok && d != nil && forall(1, len(a), func(i int) bool { return SpecIsSection(a[i]) }) &&
		forall(1, len(a), func(i int) bool {
			return forall(0, i, func(j int) bool { return SpecSectionLevel(a[j]) < SpecSectionLevel(a[i]) })
		})
}

func SpecIsSection(e types.WithElementAddition) bool {
	s, ok := e.(*types.Section)
	return ok && s != nil && s.Level >= 0
}

//verif:contract (*aggregator).indexOfParent props=C08
func contract_aggregator_indexOfParent(a *aggregator, s *types.Section, idx int, found bool) {
	requires(a != nil && s != nil && s.Level >= 0 && SpecOpen(*a))
	// the closest open element with a lower level
	ensures(!found || 0 <= idx && idx+1 < len(*a) && SpecSectionLevel((*a)[idx]) < s.Level)
	ensures(!found || forall(idx+1, len(*a), func(i int) bool { return SpecSectionLevel((*a)[i]) >= s.Level }))
	ensures(found || forall(0, len(*a), func(i int) bool { return SpecSectionLevel((*a)[i]) < s.Level }))
	ensures(ite(found, idx+1, len(*a)) == SpecPlace(*a, s.Level, 0))
	invariant(func(rangeindex int) bool { return SpecPlace(*a, s.Level, 0) == SpecPlace(*a, s.Level, rangeindex+1) })
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool { return SpecSectionLevel((*a)[i]) < s.Level})
	})
}

// SpecPlace: the position of the first open element, from i on, which a section of the given level closes
func SpecPlace(a []types.WithElementAddition, level int, i int) int {
	if i >= len(a) {
		return len(a)
	}
	if SpecSectionLevel(a[i]) >= level {
		return i
	}
	return SpecPlace(a, level, i+1)
}

// SpecChildren: the content of an open element
func SpecChildren(e types.WithElementAddition) []interface{} {
	switch e := e.(type) {
	case *types.Section:
		return e.Elements
	case *types.Document:
		return e.Elements
	}
	return nil
}

//verif:contract (*aggregator).appendElement props=C08 havoc dispatch=Document,Section
func contract_aggregator_appendElement(a *aggregator, e interface{}, err error) {
	requires(a != nil && SpecOpen(*a))
	n := old(func() int { return len(*a) })
	top := old(func() types.WithElementAddition { return (*a)[len(*a)-1] })
	was := old(func() []interface{} { return SpecChildren((*a)[len(*a)-1]) })
	ensures(err == nil)
	// the open elements stay the same, and the element becomes the last of the innermost one
	ensures(len(*a) == n && SpecOpen(*a))
	ensures(forall(0, n, func(i int) bool { return same((*a)[i], old(func() types.WithElementAddition { return (*a)[i] })) }))
	ensures(len(SpecChildren(top)) == len(was)+1 && same(SpecChildren(top)[len(was)], e))
	ensures(forall(0, len(was), func(i int) bool { return same(SpecChildren(top)[i], was[i]) }))
}

//verif:contract (*aggregator).appendSection props=C08 havoc dispatch=Document,Section
func contract_aggregator_appendSection(a *aggregator, s *types.Section, err error) {
	requires(a != nil && s != nil && s.Level >= 0 && SpecOpen(*a))
	requires(forall(0, len(*a), func(i int) bool { return SpecIsNot((*a)[i], s) }))
	n := old(func() int { return len(*a) })
	k := old(func() int { return SpecPlace(*a, s.Level, 0) })
	parent := old(func() types.WithElementAddition { return (*a)[SpecPlace(*a, s.Level, 0)-1] })
	was := old(func() []interface{} { return SpecChildren((*a)[SpecPlace(*a, s.Level, 0)-1]) })
	ensures(err == nil && 1 <= k && k <= n)
	// the deeper sections are closed, the new one is open
	ensures(len(*a) == k+1 && SpecIs((*a)[k], s))
	ensures(SpecIs((*a)[len(*a)-1], s))
	ensures(forall(0, k, func(i int) bool { return same((*a)[i], old(func() types.WithElementAddition { return (*a)[i] })) }))
	ensures(SpecOpen(*a))
	// and it's the last element of the closest one with a lower level
	ensures(len(SpecChildren(parent)) == len(was)+1 && same(SpecChildren(parent)[len(was)], s))
	ensures(forall(0, len(was), func(i int) bool { return same(SpecChildren(parent)[i], was[i]) }))
}

// SpecIs: whether an open element is the given section
func SpecIs(e types.WithElementAddition, s *types.Section) bool {
	x, ok := e.(*types.Section)
	return ok && x == s
}

func SpecIsNot(e types.WithElementAddition, s *types.Section) bool { return !SpecIs(e, s) }

//verif:contract (*aggregator).append props=C08 havoc dispatch=Document,Section opaque=SpecOpen,SpecPlace,SpecChildren variant=block
func contract_aggregator_append_block(a *aggregator, e interface{}, err error) {
	_, isSection := e.(*types.Section)
	requires(a != nil && SpecOpen(*a) && !isSection)
	n := old(func() int { return len(*a) })
	ensures(err == nil)
	ensures(SpecOpen(*a))
	// anything else is the last element of the innermost one
	ensures(len(*a) == n)
	top := old(func() types.WithElementAddition { return (*a)[len(*a)-1] })
	had := old(func() []interface{} { return SpecChildren((*a)[len(*a)-1]) })
	ensures(len(SpecChildren(top)) == len(had)+1 && same(SpecChildren(top)[len(had)], e))
	ensures(forall(0, len(had), func(i int) bool { return same(SpecChildren(top)[i], had[i]) }))
}

// SpecLevelOf: the level of a section, 0 otherwise
func SpecLevelOf(e interface{}) int {
	if s, ok := e.(*types.Section); ok {
		return s.Level
	}
	return 0
}

// SpecFirstSection: the position of the first section from i on (the number of elements if there is none)
func SpecFirstSection(elements []interface{}, i int) int {
	if i >= len(elements) {
		return len(elements)
	}
	if _, ok := elements[i].(*types.Section); ok {
		return i
	}
	return SpecFirstSection(elements, i+1)
}

// SpecIsTitle: whether an element is a header with a title
func SpecIsTitle(e interface{}) bool {
	h, ok := e.(*types.DocumentHeader)
	return ok && h != nil && h.Title != nil
}

// SpecH: where the body of a document which has a title starts: after the header (0 if there is no title)
func SpecH(elements []interface{}) int {
	p := types.SpecHeaderPos(elements, 0)
	if p >= 0 && p < len(elements) && SpecIsTitle(elements[p]) {
		return p + 1
	}
	return 0
}

//verif:contract newPreamble props=C08
func contract_newPreamble(doc *types.Document, result *types.Preamble) {
	requires(doc != nil && types.SpecHeadersOK(doc.Elements))
	h := SpecH(doc.Elements)
	first := SpecFirstSection(doc.Elements, h)
	ensures((result != nil) == (h > 0 && first < len(doc.Elements)))
	ensures(result == nil || fresh(result) && fresh(result.Elements) && result.TableOfContents == nil)
	// it's made of the blocks between the header and the first section
	ensures(result == nil || h <= first && len(result.Elements) == first-h)
	ensures(result == nil || forall(0, first-h, func(i int) bool { return same(result.Elements[i], doc.Elements[h+i]) }))
	invariant(func(preamble *types.Preamble) bool { return fresh(preamble.Elements) && preamble.TableOfContents == nil })
	invariant(func(rangeindex int) bool {
		return h > 0 && SpecFirstSection(doc.Elements, h) == SpecFirstSection(doc.Elements, h+rangeindex+1)
	})
	invariant(func(rangeindex int, preamble *types.Preamble) bool { return len(preamble.Elements) == rangeindex+1 })
	invariant(func(preamble *types.Preamble) bool {
		return forall(0, len(preamble.Elements), func(i int) bool { return same(preamble.Elements[i], doc.Elements[h+i]) })
	})
}

//verif:contract insertPreamble props=C08
func contract_insertPreamble(doc *types.Document) {
	requires(doc != nil && types.SpecHeadersOK(doc.Elements))
	modifies(doc)
	was := old(func() []interface{} { return doc.Elements })
	h := old(func() int { return SpecH(doc.Elements) })
	first := old(func() int { return SpecFirstSection(doc.Elements, SpecH(doc.Elements)) })
	wanted := old(func() bool {
		h := SpecH(doc.Elements)
		first := SpecFirstSection(doc.Elements, h)
		return h > 0 && first < len(doc.Elements) && exists(h, first, func(i int) bool { return types.SpecIsContent(doc.Elements[i]) })
	})
	// a preamble takes the place of the blocks between the header and the first section, if there are any
	ensures(wanted || same(doc.Elements, was))
	ensures(!wanted || len(doc.Elements) == h+1+len(was)-first)
	ensures(!wanted || forall(0, h, func(i int) bool { return same(doc.Elements[i], was[i]) }))
	ensures(!wanted || SpecIsPreambleOf(doc.Elements[h], was, h, first))
	ensures(!wanted || forall(first, len(was), func(i int) bool { return same(doc.Elements[h+1+i-first], was[i]) }))
}

// SpecIsPreambleOf: whether an element is a preamble with the given elements, in their order
func SpecIsPreambleOf(e interface{}, elements []interface{}, from, to int) bool {
	p, ok := e.(*types.Preamble)
	return ok && p != nil && len(p.Elements) == to-from &&
		forall(0, to-from, func(i int) bool { return same(p.Elements[i], elements[from+i]) })
}
