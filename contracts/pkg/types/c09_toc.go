//go:build go1.21

package types

// ---- C09: table of contents ----

// SpecSpine: no nil entry at the end of the given entries, nor at the end of the children of the last one, etc.
func SpecSpine(sections []*ToCSection) bool {
	if len(sections) == 0 {
		return true
	}
	last := sections[len(sections)-1]
	return last != nil && SpecSpine(last.Children)
}

// SpecGoesUnder: whether an entry of the given level goes under the last of the given ones
func SpecGoesUnder(sections []*ToCSection, level int) bool {
	return len(sections) > 0 && sections[len(sections)-1].Level < level
}

//verif:contract addToCSection props=C09 havoc
func contract_addToCSection(sections []*ToCSection, s *ToCSection, result []*ToCSection) {
	requires(s != nil && SpecSpine(sections))
	n := len(sections)
	under := old(func() bool { return SpecGoesUnder(sections, s.Level) })
	// nothing is lost nor moved: the entry becomes the last one, unless it goes under the last one
	ensures(len(result) == ite(under, n, n+1))
	ensures(forall(0, n, func(i int) bool { return result[i] == sections[i] }))
	ensures(under || result[n] == s)
	// the entry is not changed
	id := old(func() string { return s.ID })
	level := old(func() int { return s.Level })
	ensures(s.ID == id && s.Level == level)
}

//verif:contract (*TableOfContents).Add props=C09 havoc
func contract_TableOfContents_Add(t *TableOfContents, s *Section) {
	requires(t != nil && s != nil && SpecSpine(t.Sections))
	n := old(func() int { return len(t.Sections) })
	secs := old(func() []*ToCSection { return t.Sections })
	under := old(func() bool { return SpecGoesUnder(t.Sections, s.Level) })
	in := old(func() bool { return s.Level <= t.MaxDepth })
	level := old(func() int { return s.Level })
	// one entry with the level of the section, unless it's too deep
	ensures(len(t.Sections) == ite(in && !under, n+1, n))
	ensures(forall(0, n, func(i int) bool { return t.Sections[i] == secs[i] }))
	ensures(!in || under || t.Sections[n] != nil && t.Sections[n].Level == level)
}
