//go:build go1.21

package parser

import (
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C15: level offsets ----

// specOffset: what the offset adds to a heading of the given level
func specOffset(l *levelOffset, level int) int {
	return ite(l.absolute, l.value-level, l.value)
}

//verif:contract (*levelOffset).apply props=C15
func contract_levelOffset_apply(l *levelOffset, s *types.RawSection) {
	requires(l != nil && s != nil)
	modifies(l, s)
	// the first heading gets exactly an absolute level (or the relative offset)
	ensures(s.Level == types.SpecShifted(old(func() int { return s.Level }), old(func() int { return specOffset(l, s.Level) })))
	ensures(s.RawText == types.SpecHeading(old(func() string { return s.RawText }), s.Level))
	// later ones keep their distance
	ensures(!l.absolute)
	ensures(l.value == old(func() int { return specOffset(l, s.Level) }))
}

//verif:contract relativeOffset props=C15
func contract_relativeOffset(offset int, result *levelOffset) {
	ensures(result != nil && fresh(result) && !result.absolute && result.value == offset)
}

//verif:contract absoluteOffset props=C15
func contract_absoluteOffset(offset int, result *levelOffset) {
	ensures(result != nil && fresh(result) && result.absolute && result.value == offset)
}

//verif:contract levelOffsets.clone props=C15
func contract_levelOffsets_clone(l levelOffsets, result levelOffsets) {
	ensures(seqEq(result, l))
	ensures(fresh(result))
}

func specRelative(ls levelOffsets) bool {
	return forall(0, len(ls), func(i int) bool { return ls[i] != nil && !ls[i].absolute })
}

// specShift: relative offsets add up, one include after the other
func specShift(ls levelOffsets, level int) int {
	if len(ls) == 0 {
		return level
	}
	return types.SpecShifted(specShift(ls[:len(ls)-1], level), ls[len(ls)-1].value)
}

func specSameOffsets(l levelOffsets) bool {
	return forall(0, len(l), func(k int) bool { return l[k].value == old(func() int { return l[k].value }) })
}

//verif:contract levelOffsets.apply props=C15
func contract_levelOffsets_apply(l levelOffsets, s *types.RawSection, result string) {
	requires(s != nil && specRelative(l))
	modifies(s)
	ensures(s.Level == old(func() int { return specShift(l, s.Level) }))
	ensures(result == s.RawText)
	invariant(func(i int) bool {
		return specRelative(l) && specSameOffsets(l) && s.Level == old(func() int { return specShift(l[:i], s.Level) })
	})
}

// ---- blocks with verbatim content hide what looks like a delimiter ----

func specVerbatim(kind string) bool {
	return kind == types.Comment || kind == types.Fenced || kind == types.Listing || kind == types.Literal || kind == types.Passthrough
}

//verif:contract isVerbatim props=C15
func contract_isVerbatim(kind string, result bool) {
	ensures(result == specVerbatim(kind))
}

//verif:contract (*blockDelimiterTracker).track props=C15
func contract_blockDelimiterTracker_track(t *blockDelimiterTracker, kind string, length int) {
	requires(t != nil)
	modifies(t, t.stack)
	before := old(func() []blockDelimiter { return t.stack })
	n := len(before)
	top := old(func() blockDelimiter {
		if len(t.stack) == 0 {
			return blockDelimiter{}
		}
		return t.stack[len(t.stack)-1]
	})
	closes := n > 0 && top.kind == kind && top.length == length
	hidden := n > 0 && !closes && specVerbatim(top.kind)
	ensures(len(t.stack) == ite(closes, n-1, ite(hidden, n, n+1)))
	ensures(forall(0, ite(closes, n-1, n), func(i int) bool { return t.stack[i] == old(func() blockDelimiter { return t.stack[i] }) }))
	ensures(closes || hidden || t.stack[n] == blockDelimiter{kind: kind, length: length})
}

//verif:contract newBlockDelimiterTracker props=C15
func contract_newBlockDelimiterTracker(result *blockDelimiterTracker) {
	ensures(result != nil && fresh(result) && len(result.stack) == 0)
}
