//go:build go1.21

package types

// ---- C05: the footnote table ----

// SpecNotesOK: note i carries the number i+1, and the sequence stands at the last number given
func SpecNotesOK(f *Footnotes) bool {
	return f != nil && f.sequence != nil && f.sequence.counter == len(f.Notes) &&
		forall(0, len(f.Notes), func(i int) bool { return f.Notes[i] != nil && f.Notes[i].ID == i+1 })
}

// SpecFirstNamed: position of the first note of that name among the notes from i on, -1 if there is none
func SpecFirstNamed(notes []*Footnote, name string, i int) int {
	if i >= len(notes) {
		return -1
	}
	if notes[i] != nil && notes[i].Ref == name {
		return i
	}
	return SpecFirstNamed(notes, name, i+1)
}

//verif:contract (*sequence).nextVal props=C05
func contract_sequence_nextVal(s *sequence, result int) {
	requires(s != nil)
	modifies(s)
	ensures(result == old(func() int { return s.counter })+1)
	ensures(s.counter == result)
}

//verif:contract NewFootnotes props=C05
func contract_NewFootnotes(result *Footnotes) {
	ensures(fresh(result) && SpecNotesOK(result) && len(result.Notes) == 0)
}

//verif:contract NewFootnote props=C05
func contract_NewFootnote(ref interface{}, elements []interface{}, result *Footnote, err error) {
	ensures(err == nil && result != nil && fresh(result))
	s, isName := ref.(string)
	ensures(result.Ref == ite(isName, s, ""))
	ensures(seqEq(result.Elements, elements))
}

//verif:contract (*Footnotes).indexOf props=C05
func contract_Footnotes_indexOf(f *Footnotes, actual *Footnote, id int, found bool) {
	requires(SpecNotesOK(f) && actual != nil)
	k := SpecFirstNamed(f.Notes, actual.Ref, 0)
	ensures(actual.Ref != "" || !found) // a mark without a name refers to nothing
	ensures(actual.Ref == "" || found == (k >= 0))
	ensures(!found || id == k+1)
	invariant(func(rangeindex int) bool {
		return SpecFirstNamed(f.Notes, actual.Ref, 0) == SpecFirstNamed(f.Notes, actual.Ref, rangeindex+1)
	})
}

// SpecListed: the note is in the table
func SpecListed(f *Footnotes, note *Footnote) bool {
	return exists(0, len(f.Notes), func(i int) bool { return f.Notes[i] == note })
}

//verif:contract (*Footnotes).Reference props=C05 havoc
func contract_Footnotes_Reference(f *Footnotes, note *Footnote, result *FootnoteReference) {
	requires(SpecNotesOK(f))
	// the parser makes a new Footnote for each mark, so a mark which is replaced is not in the table yet
	trusts(note != nil && !SpecListed(f, note))
	ensures(SpecNotesOK(f))
	ensures(result != nil)
	n := old(func() int { return len(f.Notes) })
	has := old(func() bool { return len(note.Elements) > 0 })
	name := old(func() string { return note.Ref })
	k := old(func() int { return SpecFirstNamed(f.Notes, note.Ref, 0) })
	// a mark with content of its own gets a note of its own, with the next number
	ensures(!has || len(f.Notes) > n && f.Notes[n] == note && result.ID == n+1 && !result.Duplicate)
	// a mark without content adds no note; it has the number of the note which defined the name, or none at all
	ensures(has || len(f.Notes) == n)
	ensures(has || name == "" || k < 0 || result.ID == k+1 && result.Duplicate)
	ensures(has || name != "" && k >= 0 || result.ID == InvalidFootnoteReference && !result.Duplicate)
	ensures(result.Ref == name)
	ensures(len(f.Notes) >= n)
	ensures(forall(0, old(func() int { return len(f.Notes) }), func(i int) bool {
		return f.Notes[i] == old(func() *Footnote { return f.Notes[i] })
	})) // and the notes which were there stay where they are
}

//verif:contract iface:WithFootnotes.SubstituteFootnotes props=C05 havoc nosafety
func contract_WithFootnotes_SubstituteFootnotes(e WithFootnotes, notes *Footnotes) {
	requires(SpecNotesOK(notes))
	ensures(SpecNotesOK(notes))
	ensures(len(notes.Notes) >= old(func() int { return len(notes.Notes) }))
	ensures(forall(0, old(func() int { return len(notes.Notes) }), func(i int) bool {
		return notes.Notes[i] == old(func() *Footnote { return notes.Notes[i] })
	}))
	invariant(func() bool {
		return SpecNotesOK(notes) && len(notes.Notes) >= old(func() int { return len(notes.Notes) }) &&
			forall(0, old(func() int { return len(notes.Notes) }), func(i int) bool {
				return notes.Notes[i] == old(func() *Footnote { return notes.Notes[i] })
			})
	})
}

//verif:contract substituteFootnotes props=C05 havoc
func contract_substituteFootnotes(elements []interface{}, notes *Footnotes) {
	requires(SpecNotesOK(notes))
	ensures(SpecNotesOK(notes))
	ensures(len(notes.Notes) >= old(func() int { return len(notes.Notes) }))
	ensures(forall(0, old(func() int { return len(notes.Notes) }), func(i int) bool {
		return notes.Notes[i] == old(func() *Footnote { return notes.Notes[i] })
	}))
	invariant(func() bool {
		return SpecNotesOK(notes) && len(notes.Notes) >= old(func() int { return len(notes.Notes) }) &&
			forall(0, old(func() int { return len(notes.Notes) }), func(i int) bool {
				return notes.Notes[i] == old(func() *Footnote { return notes.Notes[i] })
			})
	})
}

//verif:contract Attributes.substituteFootnotes props=C05 havoc
func contract_Attributes_substituteFootnotes(a Attributes, notes *Footnotes) {
	requires(SpecNotesOK(notes))
	ensures(SpecNotesOK(notes))
	ensures(len(notes.Notes) >= old(func() int { return len(notes.Notes) }))
	ensures(forall(0, old(func() int { return len(notes.Notes) }), func(i int) bool {
		return notes.Notes[i] == old(func() *Footnote { return notes.Notes[i] })
	}))
	invariant(func() bool {
		return SpecNotesOK(notes) && len(notes.Notes) >= old(func() int { return len(notes.Notes) }) &&
			forall(0, old(func() int { return len(notes.Notes) }), func(i int) bool {
				return notes.Notes[i] == old(func() *Footnote { return notes.Notes[i] })
			})
	})
}
