package main

import (
	"sort"
	"strings"
)

// Rewriting of hypotheses `forall i. … row[off+i] …` into `forall j. … row[j] …` with an explicit
// pattern, so that the solvers' trigger matching does not have to see through arithmetic.

type lin struct {
	c map[*Term]int64
	k int64
}

func linOf(t *Term) lin {
	l := lin{c: map[*Term]int64{}}
	var add func(t *Term, s int64)
	add = func(t *Term, s int64) {
		if n, ok := t.intVal(); ok {
			l.k += s * n
			return
		}
		switch {
		case t.op == "+" && t.sort == "Int":
			for _, a := range t.args {
				add(a, s)
			}
			return
		case t.op == "-" && t.sort == "Int" && len(t.args) == 2:
			add(t.args[0], s)
			add(t.args[1], -s)
			return
		case t.op == "-" && t.sort == "Int" && len(t.args) == 1:
			add(t.args[0], -s)
			return
		}
		l.c[t] += s
		if l.c[t] == 0 {
			delete(l.c, t)
		}
	}
	add(t, 1)
	return l
}

func (b *TB) linTerm(l lin) *Term {
	var ks []*Term
	for t := range l.c {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var pos, neg *Term
	for _, t := range ks {
		n := l.c[t]
		m := t
		if n < 0 {
			n = -n
		}
		if n != 1 {
			m = b.Mul(b.Int(n), t)
		}
		if l.c[t] > 0 {
			if pos == nil {
				pos = m
			} else {
				pos = b.Add(pos, m)
			}
		} else if neg == nil {
			neg = m
		} else {
			neg = b.Add(neg, m)
		}
	}
	if pos == nil {
		pos = b.Int(l.k)
		if neg == nil {
			return pos
		}
		return b.Sub(pos, neg)
	}
	if neg != nil {
		pos = b.Sub(pos, neg)
	}
	return b.Add(pos, b.Int(l.k))
}

func linSub(x, y lin) lin {
	r := lin{c: map[*Term]int64{}, k: x.k - y.k}
	for t, n := range x.c {
		r.c[t] += n
	}
	for t, n := range y.c {
		r.c[t] -= n
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}

// normInts rebuilds integer sums in linear normal form.
func (b *TB) normInts(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 || !t.bound && t.op != "forall" && t.op != "exists" {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.sort == "Int" && (t.op == "+" || t.op == "-") {
			l := linOf(t)
			l2 := lin{c: map[*Term]int64{}, k: l.k}
			for a, n := range l.c {
				x := rec(a)
				l2.c[x] += n
				if l2.c[x] == 0 {
					delete(l2.c, x)
				}
			}
			r = b.linTerm(l2)
		} else {
			m := map[*Term]*Term{}
			ch := false
			for _, a := range t.args {
				x := rec(a)
				if x != a {
					m[a] = x
					ch = true
				}
			}
			r = t
			if ch {
				r = b.Subst(t, m)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func boundVarsOf(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" {
			out[t] = true
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
	return out
}

// triggerize rewrites the positive universal quantifiers of t.
func (v *VC) triggerize(t *Term) *Term {
	b := v.b
	if !t.qrec {
		return t
	}
	switch t.op {
	case "and", "or":
		var out []*Term
		ch := false
		for _, a := range t.args {
			x := v.triggerize(a)
			ch = ch || x != a
			out = append(out, x)
		}
		if !ch {
			return t
		}
		if t.op == "and" {
			return b.And(out...)
		}
		return b.Or(out...)
	case "=>":
		return b.Implies(t.args[0], v.triggerize(t.args[1]))
	case "forall":
		return v.trigForall(t)
	}
	return t
}

func (v *VC) trigForall(t *Term) *Term {
	b := v.b
	if len(t.pats) > 0 {
		return t
	}
	vars := append([]*Term{}, t.bvars...)
	body := t.args[0]
	// prenex
	for {
		switch {
		case body.op == "forall" && len(body.pats) == 0:
			vars = append(vars, body.bvars...)
			body = body.args[0]
			continue
		case body.op == "=>" && body.args[1].op == "forall" && len(body.args[1].pats) == 0:
			q := body.args[1]
			vars = append(vars, q.bvars...)
			body = b.Implies(body.args[0], q.args[0])
			continue
		case body.op == "=>" && body.args[1].op == "=>" && body.args[1].args[1].op == "forall" && len(body.args[1].args[1].pats) == 0:
			q := body.args[1].args[1]
			vars = append(vars, q.bvars...)
			body = b.Implies(b.And(body.args[0], body.args[1].args[0]), q.args[0])
			continue
		}
		break
	}
	if len(vars) > 3 {
		return t
	}
	type occ struct {
		rest *Term
	}
	isVar := map[*Term]bool{}
	for _, x := range vars {
		isVar[x] = true
	}
	rests := map[*Term][]*Term{}
	hasRest := map[*Term]map[*Term]bool{}
	for _, x := range vars {
		hasRest[x] = map[*Term]bool{}
	}
	seen := map[*Term]bool{}
	var walk func(x *Term, inner map[*Term]bool)
	walk = func(x *Term, inner map[*Term]bool) {
		if seen[x] || len(x.args) == 0 || (!x.bound && x.op != "forall" && x.op != "exists") {
			return
		}
		seen[x] = true
		if x.op == "select" && x.args[1].sort == "Int" {
			arrBound := boundVarsOf(x.args[0])
			l := linOf(x.args[1])
			for _, y := range vars {
				if l.c[y] != 1 || arrBound[y] {
					continue
				}
				r := lin{c: map[*Term]int64{}, k: l.k}
				ok := true
				for a, n := range l.c {
					if a == y {
						continue
					}
					r.c[a] = n
					if a.bound {
						ok = false
					}
				}
				if !ok {
					continue
				}
				rt := b.linTerm(r)
				if !hasRest[y][rt] {
					hasRest[y][rt] = true
					rests[y] = append(rests[y], rt)
				}
			}
		}
		for _, a := range x.args {
			walk(a, inner)
		}
	}
	walk(body, nil)
	combos := []map[*Term]*Term{{}}
	for _, y := range vars {
		rs := rests[y]
		if y.sort != "Int" || len(rs) == 0 {
			continue
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		max := 3
		if len(vars) > 1 {
			max = 2
		}
		if len(rs) > max {
			rs = rs[:max]
		}
		var next []map[*Term]*Term
		for _, c := range combos {
			for _, r := range rs {
				m := map[*Term]*Term{}
				for k, x := range c {
					m[k] = x
				}
				m[y] = r
				next = append(next, m)
			}
		}
		combos = next
	}
	if len(combos) == 1 && len(combos[0]) == 0 {
		return t
	}
	var out []*Term
	for _, c := range combos {
		m := map[*Term]*Term{}
		var nv []*Term
		for _, y := range vars {
			r := c[y]
			if r == nil {
				nv = append(nv, y)
				continue
			}
			j := b.BVar("j", "Int")
			nv = append(nv, j)
			l := linSub(linOf(j), linOf(r))
			m[y] = b.linTerm(l)
		}
		nb := b.normInts(b.Subst(body, m))
		pats := v.selectPats(nb, nv)
		out = append(out, b.Quant("forall", nv, nb, pats...))
	}
	return b.And(out...)
}

// selectPats: multi-patterns of array reads at plain variables covering all variables.
func (v *VC) selectPats(t *Term, vars []*Term) [][]*Term {
	best := map[*Term]*Term{}
	var others []*Term
	seen := map[*Term]bool{}
	isVar := map[*Term]bool{}
	for _, x := range vars {
		isVar[x] = true
	}
	cnt := map[*Term][]*Term{}
	var w func(t *Term, depth int)
	w = func(t *Term, depth int) {
		if seen[t] || len(t.args) == 0 || !t.bound && t.op != "forall" && t.op != "exists" {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			depth++
		}
		if t.op == "select" && isVar[t.args[1]] && !t.args[0].bound && !hasOp(t.args[0], "ite", "store") {
			cnt[t.args[1]] = append(cnt[t.args[1]], t)
			if best[t.args[1]] == nil {
				best[t.args[1]] = t
			}
		}
		if t.rec {
			bv := boundVarsOf(t)
			ok := len(bv) > 0
			for x := range bv {
				if !isVar[x] {
					ok = false
				}
			}
			if ok && !hasOp(t, "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists") {
				others = append(others, t)
			}
		}
		for _, a := range t.args {
			w(a, depth)
		}
	}
	w(t, 0)
	var pats [][]*Term
	if len(vars) == 1 {
		for i, x := range cnt[vars[0]] {
			if i < 3 {
				pats = append(pats, []*Term{x})
			}
		}
		for i, o := range others {
			if i < 2 {
				pats = append(pats, []*Term{o})
			}
		}
		return pats
	}
	var p []*Term
	got := map[*Term]bool{}
	for _, x := range vars {
		if best[x] != nil {
			p = append(p, best[x])
			got[x] = true
		}
	}
	for _, o := range others {
		add := false
		for x := range boundVarsOf(o) {
			if !got[x] {
				add = true
			}
		}
		if add {
			p = append(p, o)
			for x := range boundVarsOf(o) {
				got[x] = true
			}
		}
	}
	if len(got) == len(vars) {
		return [][]*Term{p}
	}
	return nil
}

func hasOp(t *Term, ops ...string) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, o := range ops {
			if t.op == o {
				return true
			}
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// nameItes gives names to the conditional sub-terms of function applications
// under quantifiers, which could not appear in patterns otherwise.
func (v *VC) nameItes(as []*Term) []*Term {
	b := v.b
	m := map[*Term]*Term{}
	var defs []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	var args func(t *Term)
	seenA := map[*Term]bool{}
	args = func(t *Term) {
		if seenA[t] {
			return
		}
		seenA[t] = true
		if !t.bound {
			if len(t.args) > 0 && t.sort != "Bool" && m[t] == nil && hasOp(t, "ite") {
				c := b.Fresh("nm", t.sort)
				m[t] = c
				defs = append(defs, b.Eq(c, t))
			}
			return
		}
		for _, a := range t.args {
			args(a)
		}
	}
	walk = func(t *Term) {
		if seen[t] || !t.qrec && !t.bound {
			return
		}
		seen[t] = true
		if t.bound && (t.rec || strings.HasPrefix(t.op, "uf:")) {
			for _, a := range t.args {
				args(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	if len(m) == 0 {
		return as
	}
	var out []*Term
	for _, a := range as {
		out = append(out, b.Subst(a, m))
	}
	return append(out, defs...)
}

// endInstances adds to the universally quantified facts of a negated goal their
// instances at the ends of the quantified range (the witnesses a loop step needs).
func (v *VC) endInstances(t *Term) *Term {
	b := v.b
	if !t.qrec {
		return t
	}
	switch t.op {
	case "and", "or":
		var out []*Term
		for _, a := range t.args {
			out = append(out, v.endInstances(a))
		}
		if t.op == "and" {
			return b.And(out...)
		}
		return b.Or(out...)
	case "=>":
		return b.Implies(t.args[0], v.endInstances(t.args[1]))
	case "forall":
		if len(t.bvars) != 1 || t.bvars[0].sort != "Int" || len(t.pats) > 0 {
			return t
		}
		x := t.bvars[0]
		var at []*Term
		add := func(u *Term) {
			for _, y := range at {
				if y == u {
					return
				}
			}
			at = append(at, u)
		}
		seen := map[*Term]bool{}
		var w func(u *Term)
		w = func(u *Term) {
			if seen[u] || !u.bound || u.sort != "Bool" {
				return
			}
			seen[u] = true
			if u.op == "<" && u.args[0] == x && !u.args[1].bound {
				add(b.normInts(b.Sub(u.args[1], b.Int(1))))
			}
			if u.op == "<=" && u.args[1] == x && !u.args[0].bound {
				add(u.args[0])
			}
			for _, a := range u.args {
				w(a)
			}
		}
		w(t.args[0])
		out := []*Term{t}
		for i, u := range at {
			if i < 4 {
				out = append(out, v.endInstances(b.Subst(t.args[0], map[*Term]*Term{x: u})))
			}
		}
		return b.And(out...)
	}
	return t
}
