//go:build go1.21

package parser

import (
	"bufio"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C01/C02: which lines of an included file get through ----

// specLine: line i of the file, split by the grammar into text and tag directives
func specLine(sc *bufio.Scanner, i int) types.IncludedFileLine {
	l, _ := ghostParsed("IncludedFileLine", ghostLine(sc, i)).(types.IncludedFileLine)
	return l
}

func specLineOk(sc *bufio.Scanner, i int) bool {
	_, ok := ghostParsed("IncludedFileLine", ghostLine(sc, i)).(types.IncludedFileLine)
	return ok && ghostParses("IncludedFileLine", ghostLine(sc, i))
}

// specAllLines: the lines [lo,hi) that carry no tag directive
func specAllLines(sc *bufio.Scanner, lo, hi int) string {
	if hi <= lo {
		return ""
	}
	if types.SpecHasTag(specLine(sc, hi-1)) {
		return specAllLines(sc, lo, hi-1)
	}
	return specAllLines(sc, lo, hi-1) + ghostLine(sc, hi-1) + "\n"
}

// specRangeLines: those whose number is selected, too
func specRangeLines(sc *bufio.Scanner, lo, hi int, r types.LineRanges) string {
	if hi <= lo {
		return ""
	}
	if types.SpecHasTag(specLine(sc, hi-1)) || !types.SpecSelects(r, hi-lo) {
		return specRangeLines(sc, lo, hi-1, r)
	}
	return specRangeLines(sc, lo, hi-1, r) + ghostLine(sc, hi-1) + "\n"
}

//verif:contract readAll props=C01 nonative
func contract_readAll(scanner *bufio.Scanner, content *strings.Builder, err error) {
	requires(scanner != nil && content != nil)
	requires(ghostPos(scanner) == 0)
	modifies(scanner, content)
	ensures(err != nil || ghostPos(scanner) == ghostLines(scanner))
	ensures(err != nil || content.String() == old(func() string { return content.String() + specAllLines(scanner, 0, ghostLines(scanner)) }))
	ensures(err == nil || exists(0, ghostLines(scanner), func(i int) bool { return !specLineOk(scanner, i) }))
	invariant(func() bool {
		pos := ghostPos(scanner)
		return content.String() == old(func() string { return content.String() + specAllLines(scanner, 0, pos) })
	})
	invariant(func() bool { return 0 <= ghostPos(scanner) && ghostPos(scanner) <= ghostLines(scanner) })
}

//verif:contract readWithinLines props=C01 nonative
func contract_readWithinLines(scanner *bufio.Scanner, content *strings.Builder, lineRanges types.LineRanges, err error) {
	requires(scanner != nil && content != nil)
	requires(ghostPos(scanner) == 0)
	requires(types.SpecSorted(lineRanges))
	modifies(scanner, content)
	ensures(err != nil || ghostPos(scanner) == ghostLines(scanner))
	ensures(err != nil || content.String() == old(func() string { return content.String() + specRangeLines(scanner, 0, ghostLines(scanner), lineRanges) }))
	ensures(err == nil || exists(0, ghostLines(scanner), func(i int) bool { return !specLineOk(scanner, i) }))
	invariant(func(line int) bool { return line == ghostPos(scanner) })
	invariant(func() bool {
		pos := ghostPos(scanner)
		return content.String() == old(func() string { return content.String() + specRangeLines(scanner, 0, pos, lineRanges) })
	})
	invariant(func() bool { return 0 <= ghostPos(scanner) && ghostPos(scanner) <= ghostLines(scanner) })
}
