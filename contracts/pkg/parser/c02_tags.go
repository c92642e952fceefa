//go:build go1.21

package parser

import (
	"bufio"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C02: which lines of an included file get through a tag selection ----

// specStarts: the first start directive of line i opens the region of the tag
func specStarts(sc *bufio.Scanner, i int, tag string) bool {
	return types.SpecHasStart(specLine(sc, i)) && types.SpecStartValue(specLine(sc, i)) == tag
}

// specEnds: the first end directive of line i closes it
func specEnds(sc *bufio.Scanner, i int, tag string) bool {
	return types.SpecHasEnd(specLine(sc, i)) && types.SpecEndValue(specLine(sc, i)) == tag
}

// specOpenAt: the region of the tag is open after n lines
func specOpenAt(sc *bufio.Scanner, n int, tag string) bool {
	if n <= 0 {
		return false
	}
	if specEnds(sc, n-1, tag) {
		return false
	}
	return specStarts(sc, n-1, tag) || specOpenAt(sc, n-1, tag)
}

// specSeenAt: one of the first n lines opened a region of the tag
func specSeenAt(sc *bufio.Scanner, n int, tag string) bool {
	if n <= 0 {
		return false
	}
	return specStarts(sc, n-1, tag) || specSeenAt(sc, n-1, tag)
}

func specAppliesAt(t types.TagRange, sc *bufio.Scanner, n int) bool {
	return t.Name == "**" || (t.Name == "*" && existsStr(nil, func(s string) bool { return specOpenAt(sc, n, s) })) || specOpenAt(sc, n, t.Name)
}

// specTaggedAt: the last selector that applies to the n-th line decides
func specTaggedAt(tr types.TagRanges, sc *bufio.Scanner, n int) bool {
	if len(tr) == 0 {
		return false
	}
	t := tr[len(tr)-1]
	if specAppliesAt(t, sc, n) {
		return t.Included
	}
	return specTaggedAt(tr[:len(tr)-1], sc, n)
}

// specTagLines: the selected lines among the first n
func specTagLines(sc *bufio.Scanner, n int, tr types.TagRanges) string {
	if n <= 0 {
		return ""
	}
	if types.SpecHasTag(specLine(sc, n-1)) || !specTaggedAt(tr, sc, n) {
		return specTagLines(sc, n-1, tr)
	}
	return specTagLines(sc, n-1, tr) + ghostLine(sc, n-1) + "\n"
}

//verif:lemma props=C02
func lemma_tagged(tr types.TagRanges, c types.CurrentRanges, sc *bufio.Scanner, n int) {
	requires(forallStr(nil, func(s string) bool { return types.SpecOpen(c, s) == specOpenAt(sc, n, s) }))
	decreases(len(tr))
	ensures(types.SpecTagged(tr, c) == specTaggedAt(tr, sc, n))
	if len(tr) > 0 {
		lemma_tagged(tr[:len(tr)-1], c, sc, n)
	}
}

//verif:contract readWithinTags props=C02 nonative
func contract_readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builder, expectedRanges types.TagRanges, err error) {
	requires(scanner != nil && content != nil)
	requires(ghostPos(scanner) == 0)
	modifies(scanner, content)
	n := ghostLines(scanner)
	ensures(err != nil || ghostPos(scanner) == n)
	ensures(err != nil || content.String() == old(func() string { return content.String() + specTagLines(scanner, n, expectedRanges) }))
	// a tag that is asked for must occur
	ensures(err != nil || forall(0, len(expectedRanges), func(i int) bool {
		t := expectedRanges[i]
		return t.Name == "*" || t.Name == "**" || old(func() bool { return specSeenAt(scanner, n, t.Name) })
	}))
	ensures(err == nil || exists(0, n, func(i int) bool { return !specLineOk(scanner, i) }) ||
		exists(0, len(expectedRanges), func(i int) bool {
			t := expectedRanges[i]
			return t.Name != "*" && t.Name != "**" && !old(func() bool { return specSeenAt(scanner, n, t.Name) })
		}))
	invariant(func() bool { return 0 <= ghostPos(scanner) && ghostPos(scanner) <= ghostLines(scanner) })
	invariant(func(c map[string]*types.CurrentTagRange) bool {
		pos := ghostPos(scanner)
		return forallStr(nil, func(s string) bool {
			return types.SpecOpen(c, s) == old(func() bool { return specOpenAt(scanner, pos, s) })
		})
	})
	invariant(func(c map[string]*types.CurrentTagRange) bool {
		pos := ghostPos(scanner)
		return forallStr(nil, func(s string) bool {
			return hasKey(c, s) == old(func() bool { return specSeenAt(scanner, pos, s) })
		})
	})
	invariant(func(c map[string]*types.CurrentTagRange) bool {
		return forallStr(nil, func(s string) bool { return !hasKey(c, s) || (c[s] != nil && fresh(c[s])) })
	})
	invariant(func(c map[string]*types.CurrentTagRange) bool {
		return forallStr(nil, func(s string) bool {
			return forallStr(nil, func(t string) bool { return !hasKey(c, s) || !hasKey(c, t) || s == t || c[s] != c[t] })
		})
	})
	invariant(func(c map[string]*types.CurrentTagRange) bool {
		pos := ghostPos(scanner)
		lemma_tagged(expectedRanges, c, scanner, pos)
		return content.String() == old(func() string { return content.String() + specTagLines(scanner, pos, expectedRanges) })
	})
	// second loop
	invariant(func(k int) bool {
		return forall(0, k, func(i int) bool {
			t := expectedRanges[i]
			return t.Name == "*" || t.Name == "**" || old(func() bool { return specSeenAt(scanner, n, t.Name) })
		})
	})
}
