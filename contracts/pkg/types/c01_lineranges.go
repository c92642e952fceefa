//go:build go1.21

package types

// ---- C01: line ranges ----

// specInRange: n lies in the closed range, -1 as the end meaning unbounded
func specInRange(r LineRange, n int) bool {
	return r.StartLine <= n && (n <= r.EndLine || r.EndLine == -1)
}

func SpecSelects(r LineRanges, n int) bool {
	return exists(0, len(r), func(i int) bool { return specInRange(r[i], n) })
}

func SpecSorted(r LineRanges) bool {
	return forall(0, len(r), func(i int) bool {
		return forall(i, len(r), func(j int) bool { return r[i].StartLine <= r[j].StartLine })
	})
}

func asLineRange(x interface{}) (LineRange, bool) {
	r, ok := x.(LineRange)
	return r, ok
}

// specSelectsAny: some element of the parsed list is a range containing n
func specSelectsAny(xs []interface{}, n int) bool {
	return exists(0, len(xs), func(i int) bool {
		r, ok := asLineRange(xs[i])
		return ok && specInRange(r, n)
	})
}

//verif:contract LineRanges.Match props=C01
func contract_LineRanges_Match(r LineRanges, line int, result bool) {
	requires(SpecSorted(r))
	ensures(result == SpecSelects(r, line))
	invariant(func(n int) bool {
		return forall(0, n, func(i int) bool { return !specInRange(r[i], line) })
	})
}

//verif:contract NewLineRanges props=C01
func contract_NewLineRanges(ranges interface{}, result LineRanges) {
	ensures(SpecSorted(result))
	xs, list := ranges.([]interface{})
	one, single := ranges.(LineRange)
	// nothing selected gets lost, nothing unselected gets in
	ensures(!list || forall(-2, 1<<30, func(n int) bool { return SpecSelects(result, n) == specSelectsAny(xs, n) }))
	ensures(!single || (len(result) == 1 && result[0] == one))
	ensures(list || single || len(result) == 0)
	invariant(func(acc LineRanges, i int) bool {
		return forall(0, len(acc), func(k int) bool {
			return exists(0, i, func(m int) bool { r, ok := asLineRange(xs[m]); return ok && r == acc[k] })
		})
	})
	invariant(func(acc LineRanges, i int) bool {
		return forall(0, i, func(m int) bool {
			r, ok := asLineRange(xs[m])
			return !ok || exists(0, len(acc), func(k int) bool { return r == acc[k] })
		})
	})
}

//verif:contract IncludedFileLine.HasTag props=C01,C02
func contract_IncludedFileLine_HasTag(l IncludedFileLine, result bool) {
	ensures(result == SpecHasTag(l))
	invariant(func(i int) bool {
		return SpecHasStart(l) == SpecHasStart(l[i:]) && SpecHasEnd(l) == SpecHasEnd(l[i:])
	})
}

func SpecIsStart(x interface{}) bool { _, ok := x.(IncludedFileStartTag); return ok }
func SpecIsEnd(x interface{}) bool   { _, ok := x.(IncludedFileEndTag); return ok }

// SpecHasTag: the line carries a tag directive
func SpecHasTag(l IncludedFileLine) bool {
	return SpecHasStart(l) || SpecHasEnd(l)
}

// SpecHasStart: the line has a start directive; SpecStartValue: the tag of the first one
func SpecHasStart(l []interface{}) bool {
	if len(l) == 0 {
		return false
	}
	return SpecIsStart(l[0]) || SpecHasStart(l[1:])
}

func SpecStartValue(l []interface{}) string {
	if len(l) == 0 {
		return ""
	}
	if d, ok := l[0].(IncludedFileStartTag); ok {
		return d.Value
	}
	return SpecStartValue(l[1:])
}

// SpecHasEnd, SpecEndValue: the same for end directives
func SpecHasEnd(l []interface{}) bool {
	if len(l) == 0 {
		return false
	}
	return SpecIsEnd(l[0]) || SpecHasEnd(l[1:])
}

func SpecEndValue(l []interface{}) string {
	if len(l) == 0 {
		return ""
	}
	if d, ok := l[0].(IncludedFileEndTag); ok {
		return d.Value
	}
	return SpecEndValue(l[1:])
}

//verif:contract IncludedFileLine.GetStartTag props=C02
func contract_IncludedFileLine_GetStartTag(l IncludedFileLine, result IncludedFileStartTag, ok bool) {
	ensures(ok == SpecHasStart(l))
	ensures(!ok || result.Value == SpecStartValue(l))
	invariant(func(i int) bool {
		return SpecHasStart(l) == SpecHasStart(l[i:]) && SpecStartValue(l) == SpecStartValue(l[i:])
	})
}

//verif:contract IncludedFileLine.GetEndTag props=C02
func contract_IncludedFileLine_GetEndTag(l IncludedFileLine, result IncludedFileEndTag, ok bool) {
	ensures(ok == SpecHasEnd(l))
	ensures(!ok || result.Value == SpecEndValue(l))
	invariant(func(i int) bool {
		return SpecHasEnd(l) == SpecHasEnd(l[i:]) && SpecEndValue(l) == SpecEndValue(l[i:])
	})
}

// ---- C02: tag ranges ----

// SpecOpen: the tagged region n is open
func SpecOpen(c CurrentRanges, n string) bool {
	return hasKey(c, n) && c[n].EndLine == -1
}

func specAnyOpen(c CurrentRanges) bool {
	return existsStr(mapKeys(c), func(n string) bool { return SpecOpen(c, n) })
}

// specApplies: the selector concerns the current line
func specApplies(t TagRange, c CurrentRanges) bool {
	return t.Name == "**" || (t.Name == "*" && specAnyOpen(c)) || SpecOpen(c, t.Name)
}

// SpecTagged: the last selector that applies decides
func SpecTagged(tr TagRanges, c CurrentRanges) bool {
	if len(tr) == 0 {
		return false
	}
	t := tr[len(tr)-1]
	if specApplies(t, c) {
		return t.Included
	}
	return SpecTagged(tr[:len(tr)-1], c)
}

//verif:contract TagRanges.Match props=C02
func contract_TagRanges_Match(tr TagRanges, line int, c CurrentRanges, result bool) {
	requires(forallStr(mapKeys(c), func(n string) bool { return !hasKey(c, n) || c[n] != nil }))
	ensures(result == SpecTagged(tr, c))
	invariant(func(i int, match bool) bool { return match == SpecTagged(tr[:i], c) })
	// over the open regions seen so far: the selector's verdict once one of them is concerned
	invariant(func(before, match bool, t TagRange, visited func(string) bool) bool {
		if existsStr(mapKeys(c), func(n string) bool {
			return visited(n) && SpecOpen(c, n) && (t.Name == "*" || t.Name == n)
		}) {
			return match == t.Included
		}
		return match == before
	})
}

//verif:contract NewTagRanges props=C02
func contract_NewTagRanges(ranges interface{}, result TagRanges) {
	xs, list := ranges.([]interface{})
	one, single := ranges.(TagRange)
	ensures(!list || specTagCount(xs) == len(result))
	ensures(!list || forall(0, len(xs), func(i int) bool {
		t, ok := xs[i].(TagRange)
		return !ok || result[specTagCount(xs[:i])] == t
	}))
	ensures(!single || (len(result) == 1 && result[0] == one))
	ensures(list || single || len(result) == 0)
	invariant(func(acc TagRanges, i int) bool { return len(acc) == specTagCount(xs[:i]) })
	invariant(func(acc TagRanges, i int) bool {
		return forall(0, i, func(m int) bool {
			t, ok := xs[m].(TagRange)
			return !ok || (specTagCount(xs[:m]) < len(acc) && acc[specTagCount(xs[:m])] == t)
		})
	})
}

// specTagCount: number of selectors among the parsed elements
func specTagCount(xs []interface{}) int {
	if len(xs) == 0 {
		return 0
	}
	n := 0
	if _, ok := xs[len(xs)-1].(TagRange); ok {
		n = 1
	}
	return specTagCount(xs[:len(xs)-1]) + n
}
