package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is *Term | *PathVal | *FuncVal | TupleVal | *IterVal
type Val interface{}
type TupleVal []Val

type FuncVal struct {
	fn   *ssa.Function
	free []Val
	// spec helpers bound as values
	native func(args []Val, st *State) Val
	recv   Val // bound method
}

type cell struct {
	id   int
	typ  types.Type
	name string
}

const (
	pCell = iota
	pGlobal
	pField
	pPtr
	pElem
)

// PathVal is an lvalue (address).
type PathVal struct {
	kind  int
	cell  *cell
	glob  *ssa.Global
	ref   *Term
	idx   *Term
	st    types.Type // pField: struct type
	fi    int
	typ   types.Type // type at the root
	proj  []int
	pidx  []*Term    // array index projections (parallel to proj when proj[i]==-1)
	cur   types.Type // type of the addressed location
	guard *Term      // spec reads outside of the slice give the zero value
}

type IterVal struct {
	kind  int // 0 map, 1 string
	m     *Term
	mt    *types.Map
	vis   *cell // visited set (map) / position (string)
	s     *Term
	dom   *Term
	count *cell
}

type State struct {
	h    map[string]*Term
	c    map[*cell]Val
	root string
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]*Term, len(s.h)), c: make(map[*cell]Val, len(s.c)), root: s.root}
	for k, x := range s.h {
		n.h[k] = x
	}
	for k, x := range s.c {
		n.c[k] = x
	}
	return n
}

type Obl struct {
	name   string
	kind   string // ensures, requires@call, safety, frame, loop, decreases, lemma, cover
	pos    string
	goal   *Term
	nAss   int
	cand   *Cand
	grp    int    // obligations of one loop edge; earlier ones may be used for later ones
	status string // proved / failed / unknown
	solver string
	ms     int64
	output string
	script string
}

type Cand struct {
	id     int
	act    *Term
	label  string
	user   bool
	active bool
	loop   string
}

type loopHeapInfo struct {
	base *Term
	excl []*Term
}

type recInfo struct {
	name    string
	fn      *ssa.Function
	formals []*Term
	keys    []string // heap components passed
	keySort []string
	body    *Term
	ret     string
	ready   bool
	slices  map[int]bool
	rowArgs []int
}

// VC is one verification unit.
type VC struct {
	b        *TB
	p        *Program
	con      *Contract
	sortMemo map[types.Type]string
	boxTypes []types.Type
	cNil     *ctor
	cOther   *ctor
	cSlice   *ctor

	assumes []*Term
	obls    []*Obl
	cands   []*Cand
	spec    int
	disc    int
	depth   int
	stack   []*ssa.Function

	preStack   []*State // states for old()
	resStack   []int
	recs       map[*ssa.Function]*recInfo
	recByName  map[string]*recInfo
	recStack   []*ssa.Function
	loopHeap   map[*Term]*loopHeapInfo
	heapSorts  map[string]string
	mapKV      map[string]*types.Map
	invs       []*FuncVal
	invState   *State
	collect    *collector
	notes      map[string]bool // assumptions used (library models, etc.)
	covered    map[string]bool // functions whose bodies were executed
	used       map[string]bool // contracts used at call sites
	usedCon    map[*Contract]bool
	alloc0     *Term
	heapElem   map[string]types.Type // what the cells of a heap hold
	entry      *State
	ncell      int
	fnIds      map[*FuncVal]int
	fnList     []*FuncVal
	anyEff     map[*ssa.Function]map[string]bool
	modset     []modEntry
	nGrp       int
	lemmaMode  *ssa.Function
	noSafety   bool
	loopN      int
	globInit   map[*ssa.Global]bool
	itoaAll    bool // itoa's axiom for the arguments which are bound by quantifiers
	opaque     map[string]bool // spec functions which are not unfolded in this proof
	entryMemo  map[*Term]bool
	formatArgs map[*Term]*Term
	mapIter    []*IterVal
	uniq       int
	rounds     int
	lemAcc     []*Term
	lemDepth   int
	lemNested  bool
	recMode    bool
	entryDecr  []*Term
}

type modEntry struct {
	kind string // ptr, slice, map, path
	ref  *Term
	typ  types.Type
	key  string // specific heap key when kind==path
}

type collector struct {
	reqs   []clause
	trusts []clause
	ens    []clause
	mods   []modEntry
	decr   []*Term
	invs   []*FuncVal
	st     *State
}

type clause struct {
	cond *Term
	text string
}

func newVC(p *Program, c *Contract) *VC {
	v := &VC{b: newTB(), p: p, con: c, sortMemo: map[types.Type]string{}, recs: map[*ssa.Function]*recInfo{}, recByName: map[string]*recInfo{},
		loopHeap: map[*Term]*loopHeapInfo{}, heapSorts: map[string]string{}, mapKV: map[string]*types.Map{}, notes: map[string]bool{}, covered: map[string]bool{},
		used: map[string]bool{}, usedCon: map[*Contract]bool{}, fnIds: map[*FuncVal]int{}, anyEff: map[*ssa.Function]map[string]bool{}, globInit: map[*ssa.Global]bool{}, heapElem: map[string]types.Type{}}
	v.initSorts()
	return v
}

func (v *VC) note(f string, a ...interface{}) { v.notes[fmt.Sprintf(f, a...)] = true }

func (v *VC) assume(reach, fact *Term) {
	if v.spec > 0 {
		return
	}
	v.assumeRaw(v.b.Implies(reach, fact))
}

func (v *VC) assumeRaw(t *Term) {
	if t.isTrue() || t.bound {
		return
	}
	v.assumes = append(v.assumes, t)
}

func (v *VC) oblige(kind, name string, reach, cond *Term) {
	if v.spec > 0 {
		return
	}
	g := v.b.Implies(reach, cond)
	if g.isTrue() {
		if v.disc == 0 {
			v.obls = append(v.obls, &Obl{name: name, kind: kind, goal: g, nAss: len(v.assumes), status: "proved", solver: "simplifier"})
		}
		return
	}
	if v.disc == 0 {
		v.obls = append(v.obls, &Obl{name: name, kind: kind, goal: g, nAss: len(v.assumes)})
	}
	v.assumes = append(v.assumes, g)
}

func (v *VC) safety(what string, reach, cond *Term) {
	if v.noSafety {
		v.assume(reach, cond)
		return
	}
	v.oblige("safety", what, reach, cond)
}

// ---------- heap ----------

func (v *VC) heap0(root, key, srt string) *Term {
	v.heapSorts[key] = srt
	if root != "" {
		return v.b.Const(root+"!"+key, srt)
	}
	return v.b.Const("H0!"+key, srt)
}

func (v *VC) hget(st *State, key, srt string) *Term {
	if t, ok := st.h[key]; ok {
		return t
	}
	t := v.heap0(st.root, key, srt)
	st.h[key] = t
	return t
}

func (v *VC) alloc(st *State) *Term { return v.hget(st, "alloc", "Int") }

func (v *VC) newRef(st *State) *Term {
	a := v.alloc(st)
	st.h["alloc"] = v.b.Add(a, v.b.Int(1))
	return a
}

func (v *VC) fieldKey(st types.Type, i int) (string, string) {
	s := st.Underlying().(*types.Struct)
	v.heapElem["F!"+typeKey(st)+"!"+s.Field(i).Name()] = s.Field(i).Type()
	return "F!" + typeKey(st) + "!" + s.Field(i).Name(), arrSort("Int", v.sortOf(s.Field(i).Type()))
}

func (v *VC) ptrKey(t types.Type) (string, string) {
	return "P!" + typeKey(t), arrSort("Int", v.sortOf(t))
}

func (v *VC) elemKey(t types.Type) (string, string) {
	v.heapElem["A!"+typeKey(t)] = t
	return "A!" + typeKey(t), arrSort("Int", arrSort("Int", v.sortOf(t)))
}

func (v *VC) mapKeys(m *types.Map) (dom, val, ln string, ks, vs string) {
	ks, vs = v.sortOf(m.Key()), v.sortOf(m.Elem())
	k := typeKey(m.Key()) + "!" + typeKey(m.Elem())
	v.mapKV[k] = m
	return "MD!" + k, "MV!" + k, "ML!" + k, ks, vs
}

func (v *VC) mapDom(st *State, m *Term, mt *types.Map) *Term {
	d, _, _, ks, _ := v.mapKeys(mt)
	h := v.hget(st, d, arrSort("Int", arrSort(ks, "Bool")))
	if m.op == "int" && m.name == "0" {
		return v.b.ConstArr(arrSort(ks, "Bool"), v.b.False())
	}
	return v.b.Select(h, m)
}

func (v *VC) mapVal(st *State, m *Term, mt *types.Map) *Term {
	_, va, _, ks, vs := v.mapKeys(mt)
	return v.b.Select(v.hget(st, va, arrSort("Int", arrSort(ks, vs))), m)
}

func (v *VC) mapLen(st *State, m *Term, mt *types.Map) *Term {
	_, _, l, _, _ := v.mapKeys(mt)
	if m.op == "int" && m.name == "0" {
		return v.b.Int(0)
	}
	return v.b.Select(v.hget(st, l, arrSort("Int", "Int")), m)
}

func (v *VC) mapHas(st *State, m *Term, mt *types.Map, k *Term) *Term {
	return v.b.And(v.b.Not(v.b.Eq(m, v.b.Int(0))), v.b.Select(v.mapDom(st, m, mt), k))
}

func (v *VC) mapGet(st *State, m *Term, mt *types.Map, k *Term) *Term {
	return v.b.Ite(v.mapHas(st, m, mt, k), v.b.Select(v.mapVal(st, m, mt), k), v.zero(mt.Elem()))
}

func (v *VC) mapPut(st *State, m *Term, mt *types.Map, k, x *Term) {
	d, va, l, ks, vs := v.mapKeys(mt)
	b := v.b
	hd := v.hget(st, d, arrSort("Int", arrSort(ks, "Bool")))
	hv := v.hget(st, va, arrSort("Int", arrSort(ks, vs)))
	hl := v.hget(st, l, arrSort("Int", "Int"))
	had := b.Select(b.Select(hd, m), k)
	st.h[l] = b.Store(hl, m, b.Add(b.Select(hl, m), b.Ite(had, b.Int(0), b.Int(1))))
	st.h[d] = b.Store(hd, m, b.Store(b.Select(hd, m), k, b.True()))
	st.h[va] = b.Store(hv, m, b.Store(b.Select(hv, m), k, x))
}

func (v *VC) mapDelete(st *State, m *Term, mt *types.Map, k *Term) {
	d, _, l, ks, _ := v.mapKeys(mt)
	b := v.b
	hd := v.hget(st, d, arrSort("Int", arrSort(ks, "Bool")))
	hl := v.hget(st, l, arrSort("Int", "Int"))
	had := v.mapHas(st, m, mt, k)
	nn := b.Not(b.Eq(m, b.Int(0)))
	st.h[l] = b.Ite(nn, b.Store(hl, m, b.Sub(b.Select(hl, m), b.Ite(had, b.Int(1), b.Int(0)))), hl)
	st.h[d] = b.Ite(nn, b.Store(hd, m, b.Store(b.Select(hd, m), k, b.False())), hd)
}

func (v *VC) newMap(st *State, mt *types.Map) *Term {
	d, va, l, ks, vs := v.mapKeys(mt)
	b := v.b
	m := v.newRef(st)
	hd := v.hget(st, d, arrSort("Int", arrSort(ks, "Bool")))
	hv := v.hget(st, va, arrSort("Int", arrSort(ks, vs)))
	hl := v.hget(st, l, arrSort("Int", "Int"))
	st.h[d] = b.Store(hd, m, b.ConstArr(arrSort(ks, "Bool"), b.False()))
	st.h[va] = b.Store(hv, m, b.ConstArr(arrSort(ks, vs), v.zero(mt.Elem())))
	st.h[l] = b.Store(hl, m, b.Int(0))
	return m
}

// ---------- typing facts ----------

func (v *VC) typed(st *State, reach *Term, t *Term, ty types.Type) {
	if v.spec > 0 || t.bound {
		return
	}
	f := v.typeFact(st, t, ty)
	if f != nil {
		v.assume(reach, f)
	}
	// values read from memory as it was at function entry
	ref := t
	switch ty.Underlying().(type) {
	case *types.Pointer, *types.Map:
	case *types.Slice:
		if v.b.dts.ctorOf(t) != nil {
			return
		}
		ref = v.slBase(t)
	default:
		return
	}
	if at := entryAddr(t); at != nil {
		al := v.b.Const("H0!alloc", "Int")
		v.assume(reach, v.b.Implies(v.b.And(v.b.Le(v.b.Int(0), at), v.b.Lt(at, al)), v.b.Lt(ref, al)))
	}
}

// entryAddr: the address t was read from, if it was read from the memory at function entry
func entryAddr(t *Term) *Term {
	for d := 0; d < 12; d++ {
		switch {
		case t.op == "select":
			h := t.args[0]
			if h.op == "select" {
				t = h
				h = h.args[0]
			}
			if h.op == "const" && strings.HasPrefix(h.name, "H0!") {
				return t.args[1]
			}
			return nil
		case t.op == "ite":
			if _, ok := t.args[2].intVal(); !ok {
				return nil
			}
			t = t.args[1]
		case len(t.args) == 1 && strings.HasPrefix(t.op, "acc:"):
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

func (v *VC) typeFact(st *State, t *Term, ty types.Type) *Term {
	b := v.b
	if v.isBuilder(ty) || v.isOpaque(ty) {
		return nil
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer, *types.Map:
		if _, ok := t.intVal(); ok {
			return nil
		}
		f := b.And(b.Le(b.Int(0), t), b.Lt(t, v.alloc(st)))
		if mt, ok := u.(*types.Map); ok {
			l := v.mapLen(st, t, mt)
			ks := v.sortOf(mt.Key())
			f = b.And(f, b.Le(b.Int(0), l), b.Implies(b.Not(b.Eq(t, b.Int(0))), b.Eq(b.Eq(l, b.Int(0)), b.Eq(v.mapDom(st, t, mt), b.ConstArr(arrSort(ks, "Bool"), b.False())))))
		}
		return f
	case *types.Slice:
		if v.b.dts.ctorOf(t) != nil {
			return nil
		}
		bs, of, ln, cp := v.slBase(t), v.slOff(t), v.slLen(t), v.slCap(t)
		z := b.Int(0)
		return b.And(b.Le(z, bs), b.Lt(bs, v.alloc(st)), b.Le(z, of), b.Le(z, ln), b.Le(ln, cp), b.Implies(b.Eq(bs, z), b.And(b.Eq(cp, z), b.Eq(of, z))))
	case *types.Basic:
		if _, ok := t.intVal(); ok {
			return nil
		}
		if u.Info()&types.IsUnsigned != 0 {
			f := b.Le(b.Int(0), t)
			if u.Kind() == types.Uint8 {
				f = b.And(f, b.Lt(t, b.Int(256)))
			}
			return f
		}
	case *types.Interface:
		// pointers inside: known when unboxed
	case *types.Struct:
		var fs []*Term
		c := v.structCtor(ty)
		for i := 0; i < u.NumFields(); i++ {
			if f := v.typeFact(st, b.Acc(c, i, t), u.Field(i).Type()); f != nil {
				fs = append(fs, f)
			}
		}
		if len(fs) > 0 {
			return b.And(fs...)
		}
	}
	return nil
}

// ---------- paths ----------

func (v *VC) asTerm(x Val, ty types.Type) *Term {
	switch x := x.(type) {
	case *Term:
		return x
	case *FuncVal:
		return v.funcTerm(x)
	case *PathVal:
		if x.kind == pPtr && len(x.proj) == 0 {
			return x.ref
		}
		if x.kind == pGlobal && len(x.proj) == 0 {
			return v.globalRef(x.glob)
		}
		unsup("address used as a value (%s)", x.cur)
	case nil:
		unsup("undefined value")
	}
	unsup("value of kind %T used as a term", x)
	return nil
}

func (v *VC) globalRef(g *ssa.Global) *Term {
	return v.b.Const("&"+sanit(g.String()), "Int")
}

func (v *VC) funcTerm(f *FuncVal) *Term {
	if f.fn != nil && len(f.free) == 0 && f.recv == nil {
		return v.b.UF("fn!"+sanit(f.fn.String()), "Int")
	}
	id, ok := v.fnIds[f]
	if !ok {
		id = len(v.fnList) + 1
		v.fnIds[f] = id
		v.fnList = append(v.fnList, f)
	}
	return v.b.Const(fmt.Sprintf("closure!%d", id), "Int")
}

func (v *VC) project(t *Term, p *PathVal) *Term {
	ty := p.typ
	for k, i := range p.proj {
		if i == -1 {
			t = v.b.Select(t, p.pidx[k])
			ty = ty.Underlying().(*types.Array).Elem()
			continue
		}
		t = v.b.Acc(v.structCtor(ty), i, t)
		ty = ty.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func (v *VC) inject(root *Term, p *PathVal, x *Term) *Term {
	var rec func(t *Term, ty types.Type, k int) *Term
	rec = func(t *Term, ty types.Type, k int) *Term {
		if k == len(p.proj) {
			return x
		}
		i := p.proj[k]
		if i == -1 {
			et := ty.Underlying().(*types.Array).Elem()
			return v.b.Store(t, p.pidx[k], rec(v.b.Select(t, p.pidx[k]), et, k+1))
		}
		c := v.structCtor(ty)
		s := ty.Underlying().(*types.Struct)
		as := make([]*Term, s.NumFields())
		for j := range as {
			as[j] = v.b.Acc(c, j, t)
		}
		as[i] = rec(as[i], s.Field(i).Type(), k+1)
		return v.b.Ctor(c, as...)
	}
	return rec(root, p.typ, 0)
}

func (v *VC) load(st *State, a Val, ty types.Type) Val {
	switch p := a.(type) {
	case *Term:
		return v.loadPtr(st, p, ty)
	case *PathVal:
		switch p.kind {
		case pCell:
			x, ok := st.c[p.cell]
			if !ok {
				unsup("read of a local out of scope (%s)", p.cell.name)
			}
			if len(p.proj) == 0 {
				return x
			}
			return v.project(v.asTerm(x, p.typ), p)
		case pGlobal:
			key := "G!" + sanit(p.glob.String())
			if f := v.p.globFn[p.glob]; f != nil && len(p.proj) == 0 && !v.p.globalsW[p.glob] {
				return &FuncVal{fn: f}
			}
			if len(p.proj) == 0 {
				if _, ok := st.c[v.globCell(p.glob)]; ok {
					return st.c[v.globCell(p.glob)]
				}
			}
			return v.project(v.hget(st, key, v.sortOf(p.typ)), p)
		case pField:
			k, s := v.fieldKey(p.st, p.fi)
			return v.project(v.b.Select(v.hget(st, k, s), p.ref), p)
		case pPtr:
			x := v.loadPtr(st, p.ref, p.typ)
			return v.project(v.asTerm(x, p.typ), p)
		case pElem:
			k, s := v.elemKey(p.typ)
			x := v.project(v.b.Select(v.b.Select(v.hget(st, k, s), p.ref), p.idx), p)
			if p.guard != nil {
				return v.b.Ite(p.guard, x, v.zero(p.cur))
			}
			return x
		}
	}
	unsup("load from %T", a)
	return nil
}

func (v *VC) globCell(g *ssa.Global) *cell { return nil }

func (v *VC) loadPtr(st *State, p *Term, ty types.Type) *Term {
	if v.isBuilder(ty) || v.isOpaque(ty) {
		k, s := v.ptrKey(ty)
		return v.b.Select(v.hget(st, k, s), p)
	}
	if s, ok := ty.Underlying().(*types.Struct); ok {
		c := v.structCtor(ty)
		as := make([]*Term, s.NumFields())
		for i := range as {
			k, so := v.fieldKey(ty, i)
			as[i] = v.b.Select(v.hget(st, k, so), p)
		}
		return v.b.Ctor(c, as...)
	}
	if ar, ok := ty.Underlying().(*types.Array); ok {
		k, s := v.elemKey(ar.Elem())
		return v.b.Select(v.hget(st, k, s), p)
	}
	k, s := v.ptrKey(ty)
	return v.b.Select(v.hget(st, k, s), p)
}

func (v *VC) storePtr(st *State, p *Term, ty types.Type, x *Term) {
	if v.isBuilder(ty) || v.isOpaque(ty) {
		k, s := v.ptrKey(ty)
		st.h[k] = v.b.Store(v.hget(st, k, s), p, x)
		return
	}
	if s, ok := ty.Underlying().(*types.Struct); ok {
		c := v.structCtor(ty)
		for i := 0; i < s.NumFields(); i++ {
			k, so := v.fieldKey(ty, i)
			st.h[k] = v.b.Store(v.hget(st, k, so), p, v.b.Acc(c, i, x))
		}
		return
	}
	if ar, ok := ty.Underlying().(*types.Array); ok {
		k, s := v.elemKey(ar.Elem())
		st.h[k] = v.b.Store(v.hget(st, k, s), p, x)
		return
	}
	k, s := v.ptrKey(ty)
	st.h[k] = v.b.Store(v.hget(st, k, s), p, x)
}

func (v *VC) store(st *State, a Val, ty types.Type, x Val) {
	switch p := a.(type) {
	case *Term:
		v.storePtr(st, p, ty, v.asTerm(x, ty))
		return
	case *PathVal:
		switch p.kind {
		case pCell:
			if len(p.proj) == 0 {
				st.c[p.cell] = x
				return
			}
			st.c[p.cell] = v.inject(v.asTerm(st.c[p.cell], p.typ), p, v.asTerm(x, ty))
			return
		case pGlobal:
			key := "G!" + sanit(p.glob.String())
			st.h[key] = v.inject(v.hget(st, key, v.sortOf(p.typ)), p, v.asTerm(x, ty))
			return
		case pField:
			k, s := v.fieldKey(p.st, p.fi)
			h := v.hget(st, k, s)
			st.h[k] = v.b.Store(h, p.ref, v.inject(v.b.Select(h, p.ref), p, v.asTerm(x, ty)))
			return
		case pPtr:
			r := v.loadPtr(st, p.ref, p.typ)
			v.storePtr(st, p.ref, p.typ, v.inject(r, p, v.asTerm(x, ty)))
			return
		case pElem:
			k, s := v.elemKey(p.typ)
			h := v.hget(st, k, s)
			row := v.b.Select(h, p.ref)
			st.h[k] = v.b.Store(h, p.ref, v.b.Store(row, p.idx, v.inject(v.b.Select(row, p.idx), p, v.asTerm(x, ty))))
			return
		}
	}
	unsup("store to %T", a)
}

// ---------- merging ----------

type edge struct {
	cond *Term
	st   *State
	from *ssa.BasicBlock
	phis []Val
}

func sameVal(a, b Val) bool {
	ta, ok1 := a.(TupleVal)
	tb, ok2 := b.(TupleVal)
	if ok1 || ok2 {
		if !ok1 || !ok2 || len(ta) != len(tb) {
			return false
		}
		for i := range ta {
			if !sameVal(ta[i], tb[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func (v *VC) mergeVals(conds []*Term, xs []Val, ty types.Type) Val {
	if len(xs) == 1 {
		return xs[0]
	}
	same := true
	for _, x := range xs[1:] {
		if !sameVal(x, xs[0]) {
			same = false
		}
	}
	if same {
		return xs[0]
	}
	if t0, ok := xs[0].(TupleVal); ok {
		out := make(TupleVal, len(t0))
		for i := range t0 {
			var col []Val
			for _, x := range xs {
				col = append(col, x.(TupleVal)[i])
			}
			out[i] = v.mergeVals(conds, col, nil)
		}
		return out
	}
	if p0, ok := xs[0].(*PathVal); ok {
		eq := true
		for _, x := range xs[1:] {
			p, ok := x.(*PathVal)
			if !ok || p.kind != p0.kind || p.cell != p0.cell || p.glob != p0.glob || p.ref != p0.ref || p.idx != p0.idx || p.fi != p0.fi || fmt.Sprint(p.proj) != fmt.Sprint(p0.proj) {
				eq = false
			}
		}
		if eq {
			return p0
		}
	}
	acc := v.asTerm(xs[len(xs)-1], ty)
	for i := len(xs) - 2; i >= 0; i-- {
		acc = v.b.Ite(conds[i], v.asTerm(xs[i], ty), acc)
	}
	return acc
}

func (v *VC) mergeStates(es []edge) (*State, *Term) {
	if len(es) == 1 {
		return es[0].st.clone(), es[0].cond
	}
	conds := make([]*Term, len(es))
	keys := map[string]bool{}
	cells := map[*cell]int{}
	for i, e := range es {
		conds[i] = e.cond
		for k := range e.st.h {
			keys[k] = true
		}
		for c := range e.st.c {
			cells[c]++
		}
	}
	// relative conditions: strip conjuncts common to all edges to keep ites small
	rel := v.relConds(conds)
	out := &State{h: map[string]*Term{}, c: map[*cell]Val{}, root: es[0].st.root}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		srt := v.heapSorts[k]
		if srt == "" {
			for _, e := range es {
				if t, ok := e.st.h[k]; ok {
					srt = t.sort
				}
			}
		}
		acc := v.hget(es[len(es)-1].st, k, srt)
		for i := len(es) - 2; i >= 0; i-- {
			acc = v.b.Ite(rel[i], v.hget(es[i].st, k, srt), acc)
		}
		out.h[k] = acc
	}
	var cl []*cell
	for c, n := range cells {
		if n == len(es) {
			cl = append(cl, c)
		}
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		var xs []Val
		for _, e := range es {
			xs = append(xs, e.st.c[c])
		}
		out.c[c] = v.mergeVals(rel, xs, c.typ)
	}
	return out, v.b.Or(conds...)
}

func (v *VC) relConds(conds []*Term) []*Term {
	cnt := map[*Term]int{}
	for _, c := range conds {
		for _, t := range conj(c) {
			cnt[t]++
		}
	}
	out := make([]*Term, len(conds))
	for i, c := range conds {
		var keep []*Term
		for _, t := range conj(c) {
			if cnt[t] < len(conds) {
				keep = append(keep, t)
			}
		}
		out[i] = v.b.And(keep...)
	}
	return out
}

func shortFn(fn *ssa.Function) string {
	s := strings.ReplaceAll(fn.String(), modPath+"/pkg/", "")
	return strings.ReplaceAll(s, modPath, "libasciidoc")
}

// heapFacts: what is stored in memory that exists at function entry exists at function entry.
func (v *VC) heapFacts(as []*Term) []*Term {
	seen := map[*Term]bool{}
	var hs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "const" && strings.HasPrefix(t.name, "H0!") {
			hs = append(hs, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	b := v.b
	al := b.Const("H0!alloc", "Int")
	var out []*Term
	for _, h := range hs {
		ty := v.heapElem[h.name[3:]]
		if ty == nil || v.isBuilder(ty) || v.isOpaque(ty) {
			continue
		}
		r := b.BVar("r", "Int")
		vars := []*Term{r}
		x := b.Select(h, r)
		if strings.HasPrefix(h.name, "H0!A!") {
			i := b.BVar("i", "Int")
			vars = append(vars, i)
			x = b.Select(x, i)
		}
		ref := x
		switch ty.Underlying().(type) {
		case *types.Pointer, *types.Map:
		case *types.Slice:
			ref = v.slBase(x)
		default:
			continue
		}
		out = append(out, b.Quant("forall", vars, b.Implies(b.And(b.Le(b.Int(0), r), b.Lt(r, al)), b.And(b.Le(b.Int(0), ref), b.Lt(ref, al))), []*Term{x}))
	}
	return out
}

func init() { lateAxiomHooks = append(lateAxiomHooks, (*VC).heapFacts) }
