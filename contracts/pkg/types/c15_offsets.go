//go:build go1.21

package types

import "strings"

// ---- C15: heading levels ----

// SpecShifted: the level after an offset: nothing goes above level 0
func SpecShifted(level, offset int) int {
	return ite(level+offset < 0, 0, level+offset)
}

// SpecHeading: the heading line with the marker of another level
func SpecHeading(raw string, level int) string {
	return strings.Repeat("=", level+1) + strings.TrimLeft(raw, "=")
}

//verif:contract (*RawSection).OffsetLevel props=C15
func contract_RawSection_OffsetLevel(s *RawSection, offset int) {
	requires(s != nil)
	modifies(s)
	ensures(s.Level == SpecShifted(old(func() int { return s.Level }), offset))
	ensures(s.RawText == SpecHeading(old(func() string { return s.RawText }), s.Level))
}

//verif:contract (*RawSection).Stringify props=C15
func contract_RawSection_Stringify(s *RawSection, result string) {
	requires(s != nil)
	ensures(result == s.RawText)
}
