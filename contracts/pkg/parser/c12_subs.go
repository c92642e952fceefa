//go:build go1.21

package parser

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C12: the substitutions to apply ----

// SpecInGroup: whether the substitution is part of the named one (a group or itself)
func SpecInGroup(name, x string) bool {
	switch name {
	case "normal":
		return x == "inline_passthrough" || x == "attributes" || x == "specialchars" || x == "quotes" || x == "replacements" || x == "macros" || x == "post_replacements"
	case "verbatim":
		return x == "callouts" || x == "specialchars"
	case "none":
		return false
	}
	return x == name
}

// SpecSubName: whether it's the name of a substitution, or of a group
func SpecSubName(name string) bool {
	switch name {
	case "normal", "none", "verbatim", "attributes", "macros", "quotes", "replacements", "post_replacements", "callouts", "specialchars":
		return true
	}
	return false
}

// SpecGroupLen, SpecGroupAt: the substitutions of a group, in order
func SpecGroupLen(name string) int {
	switch name {
	case "normal":
		return 7
	case "verbatim":
		return 2
	case "none":
		return 0
	}
	return 1
}

func SpecGroupAt(name string, i int) string {
	switch name {
	case "normal":
		switch i {
		case 0:
			return "inline_passthrough"
		case 1:
			return "attributes"
		case 2:
			return "specialchars"
		case 3:
			return "quotes"
		case 4:
			return "replacements"
		case 5:
			return "macros"
		}
		return "post_replacements"
	case "verbatim":
		return ite(i == 0, "callouts", "specialchars")
	}
	return name
}

// SpecIsGroup: the sequence is the one of the group
func SpecIsGroup(seq []string, name string) bool {
	return len(seq) == SpecGroupLen(name) && forall(0, len(seq), func(i int) bool { return seq[i] == SpecGroupAt(name, i) })
}

//verif:contract normalSubstitutions props=C12
func contract_normalSubstitutions(result *substitutions) {
	ensures(result != nil && fresh(result) && fresh(result.sequence))
	ensures(SpecIsGroup(result.sequence, "normal"))
}

//verif:contract noneSubstitutions props=C12
func contract_noneSubstitutions(result *substitutions) {
	ensures(result != nil && fresh(result) && fresh(result.sequence))
	ensures(SpecIsGroup(result.sequence, "none"))
}

//verif:contract verbatimSubstitutions props=C12
func contract_verbatimSubstitutions(result *substitutions) {
	ensures(result != nil && fresh(result) && fresh(result.sequence))
	ensures(SpecIsGroup(result.sequence, "verbatim"))
}

//verif:contract headerSubstitutions props=C12
func contract_headerSubstitutions(result *substitutions) {
	ensures(result != nil && fresh(result) && len(result.sequence) == 6)
	ensures(forall(0, 6, func(i int) bool { return SpecInGroup("normal", result.sequence[i]) && result.sequence[i] != "post_replacements" }))
}

//verif:contract attributeSubstitutions props=C12
func contract_attributeSubstitutions(result *substitutions) {
	ensures(result != nil && fresh(result) && len(result.sequence) == 4)
	// references to attributes were replaced beforehand
	ensures(forall(0, 4, func(i int) bool {
		return SpecInGroup("normal", result.sequence[i]) && result.sequence[i] != "post_replacements" && result.sequence[i] != "macros" && result.sequence[i] != "attributes"
	}))
}

//verif:contract substitutionsFor props=C12
func contract_substitutionsFor(s string, result *substitutions, err error) {
	ensures((err == nil) == SpecSubName(s))
	ensures((result != nil) == (err == nil))
	ensures(result == nil || fresh(result) && fresh(result.sequence))
	ensures(result == nil || SpecIsGroup(result.sequence, s))
}

//verif:contract (*substitutions).contains props=C12
func contract_substitutions_contains(s *substitutions, expected string, result bool) {
	requires(s != nil)
	ensures(result == exists(0, len(s.sequence), func(i int) bool { return s.sequence[i] == expected }))
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool { return s.sequence[i] != expected })
	})
}

//verif:contract (*substitutions).append props=C12
func contract_substitutions_append(s *substitutions, v string, err error) {
	requires(s != nil)
	modifies(s, s.sequence)
	n := old(func() int { return len(s.sequence) })
	ensures((err == nil) == SpecSubName(v))
	ensures(len(s.sequence) == n+ite(err == nil, SpecGroupLen(v), 0))
	ensures(forall(0, n, func(i int) bool { return s.sequence[i] == old(func() string { return s.sequence[i] }) }))
	ensures(err != nil || forall(0, SpecGroupLen(v), func(i int) bool { return s.sequence[n+i] == SpecGroupAt(v, i) }))
}

//verif:contract (*substitutions).prepend props=C12
func contract_substitutions_prepend(s *substitutions, v string, err error) {
	requires(s != nil)
	modifies(s)
	n := old(func() int { return len(s.sequence) })
	m := ite(err == nil, SpecGroupLen(v), 0)
	ensures((err == nil) == SpecSubName(v))
	ensures(len(s.sequence) == n+m)
	ensures(forall(0, n, func(i int) bool { return s.sequence[m+i] == old(func() string { return s.sequence[i] }) }))
	ensures(forall(0, m, func(i int) bool { return s.sequence[i] == SpecGroupAt(v, i) }))
}

// SpecAmong: whether x is in the sequence
func SpecAmong(seq []string, x string) bool {
	return exists(0, len(seq), func(i int) bool { return seq[i] == x })
}

// SpecLeft: how many of the first n ones are not removed
func SpecLeft(seq []string, v string, n int) int {
	if n <= 0 {
		return 0
	}
	return SpecLeft(seq, v, n-1) + ite(SpecInGroup(v, seq[n-1]), 0, 1)
}

//verif:bounded (*substitutions).remove props=C12 n=3000
func contract_substitutions_remove(s *substitutions, v string, err error) {
	requires(s != nil)
	modifies(s)
	ensures((err == nil) == SpecSubName(v))
	ensures(err == nil || same(s.sequence, old(func() []string { return s.sequence })))
	// what is left: all but those of the group, in their order
	was := old(func() []string { return append([]string{}, s.sequence...) })
	ensures(err != nil || len(s.sequence) == SpecLeft(was, v, len(was)))
	ensures(err != nil || forall(0, len(was), func(i int) bool {
		return SpecInGroup(v, was[i]) || s.sequence[SpecLeft(was, v, i)] == was[i]
	}))
}

//verif:contract allIncremental props=C12
func contract_allIncremental(subs []string, result bool) {
	ensures(result == forall(0, len(subs), func(i int) bool { return SpecIncremental(subs[i]) }))
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool { return SpecIncremental(subs[i]) })
	})
}

func SpecIncremental(s string) bool {
	return strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-") || strings.HasSuffix(s, "+")
}

//verif:contract (*substitutions).split props=C12
func contract_substitutions_split(s *substitutions, phase1 *substitutions, phase2 *substitutions) {
	requires(s != nil)
	ensures(phase1 != nil && same(phase1.sequence, s.sequence))
	n := len(s.sequence)
	// what comes after the first `attributes`
	ensures((phase2 != nil) == exists(0, n-1, func(i int) bool { return s.sequence[i] == "attributes" }))
	ensures(phase2 == nil || len(phase2.sequence) < n && s.sequence[n-len(phase2.sequence)-1] == "attributes")
	ensures(phase2 == nil || forall(0, n-len(phase2.sequence)-1, func(i int) bool { return s.sequence[i] != "attributes" }))
	ensures(phase2 == nil || forall(0, len(phase2.sequence), func(i int) bool { return phase2.sequence[i] == s.sequence[n-len(phase2.sequence)+i] }))
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool { return s.sequence[i] != "attributes" || i == len(s.sequence)-1 })
	})
}

// SpecDefault: the group of the default substitutions
func SpecDefault(b types.WithElements) string {
	switch b := b.(type) {
	case *types.DelimitedBlock:
		switch b.Kind {
		case "example", "quote", "verse", "sidebar", "markdown-quote", "open":
			return "normal"
		case "comment", "pass":
			return "none"
		}
		return "verbatim"
	case *types.Paragraph:
		switch b.Attributes.GetAsStringWithDefault("style", "") {
		case "listing", "source", "literal", "literal_paragraph":
			return "verbatim"
		case "pass":
			return "none"
		}
	}
	return "normal"
}

//verif:contract defaultSubstitutions props=C12
func contract_defaultSubstitutions(b types.WithElements, result *substitutions) {
	d, ok := b.(*types.DelimitedBlock)
	requires(!ok || d != nil)
	p, ok := b.(*types.Paragraph)
	requires(!ok || p != nil)
	ensures(result != nil && fresh(result))
	ensures(SpecIsGroup(result.sequence, SpecDefault(b)))
}

// SpecSubsApplied: the substitutions in effect after the first n ones of the list
func SpecSubsApplied(b types.WithElements, subs []string, n int) []string {
	if n <= 0 {
		if forall(0, len(subs), func(i int) bool { return SpecIncremental(strings.TrimSpace(subs[i])) }) {
			return SpecGroupSeq(SpecDefault(b), 0)
		}
		return nil
	}
	before := SpecSubsApplied(b, subs, n-1)
	sub := strings.TrimSpace(subs[n-1])
	switch {
	case strings.HasSuffix(sub, "+"):
		return append(SpecGroupSeq(strings.TrimSuffix(sub, "+"), 0), before...)
	case strings.HasPrefix(sub, "-"):
		return SpecWithout(before, strings.TrimPrefix(sub, "-"), 0)
	}
	return append(append([]string{}, before...), SpecGroupSeq(strings.TrimPrefix(sub, "+"), 0)...)
}

func SpecGroupSeq(name string, from int) []string {
	if from >= SpecGroupLen(name) {
		return nil
	}
	return append([]string{SpecGroupAt(name, from)}, SpecGroupSeq(name, from+1)...)
}

func SpecWithout(seq []string, name string, from int) []string {
	if from >= len(seq) {
		return nil
	}
	rest := SpecWithout(seq, name, from+1)
	if SpecInGroup(name, seq[from]) {
		return rest
	}
	return append([]string{seq[from]}, rest...)
}

//verif:bounded newSubstitutions props=C12 n=6000
func contract_newSubstitutions(b types.WithElements, result *substitutions, err error) {
	v, set := b.GetAttributes()["subs"].(string)
	subs := strings.Split(v, ",")
	blank := strings.TrimSpace(v) == ""
	known := forall(0, len(subs), func(i int) bool {
		s := strings.TrimSpace(subs[i])
		return SpecSubName(ite(strings.HasSuffix(s, "+"), strings.TrimSuffix(s, "+"), strings.TrimPrefix(strings.TrimPrefix(s, "+"), "-")))
	})
	ensures((err == nil) == (!set || blank || known))
	ensures((result != nil) == (err == nil))
	ensures(err != nil || set || SpecIsGroup(result.sequence, SpecDefault(b)))
	ensures(err != nil || !set || !blank || len(result.sequence) == 0)
	ensures(err != nil || !set || blank || strings.Join(result.sequence, ",") == strings.Join(SpecSubsApplied(b, subs, len(subs)), ","))
}
