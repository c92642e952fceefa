package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	free   []Val
	defers []dfr
	path   string
	rets   []edge // phis = results
	info   *fnInfo
	allocK map[*ssa.Alloc]bool // true: local cell
}

type dfr struct {
	cond *Term
	call *ssa.Defer
	args []Val
	fnv  Val
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
	back  map[[2]int]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func getFnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}, back: map[[2]int]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.back[[2]int{b.Index, s.Index}] = true
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				// natural loop
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !fi.back[[2]int{b.Index, s.Index}] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	pos := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		pos[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// reducibility: every retreating edge must be a back edge
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] && !fi.back[[2]int{b.Index, s.Index}] {
				fi.rpo = nil
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

// simpleAlloc: the address never leaves loads/stores/field projections/closures
func simpleAlloc(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Val == a {
				return false
			}
		case *ssa.FieldAddr:
			if !simpleAlloc(r, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if _, ok := a.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			if !simpleAlloc(r, seen) {
				return false
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, bnd := range r.Bindings {
				if bnd == a {
					if !simpleAlloc(fn.FreeVars[i], seen) {
						return false
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

var simpleMemo = map[*ssa.Alloc]int{}

func isSimpleAlloc(a *ssa.Alloc) bool {
	if r, ok := simpleMemo[a]; ok {
		return r == 1
	}
	ok := simpleAlloc(a, map[ssa.Value]bool{})
	simpleMemo[a] = 0
	if ok {
		simpleMemo[a] = 1
	}
	return ok
}

var formatArgsMemo = map[*ssa.Alloc]bool{}

// isFormatArgs: the array of the variadic arguments of a formatting or logging call, which nothing else sees;
// it is kept out of the heap under proof
func isFormatArgs(a *ssa.Alloc) bool {
	if r, ok := formatArgsMemo[a]; ok {
		return r
	}
	r := formatArgs(a)
	formatArgsMemo[a] = r
	return r
}

func formatArgs(a *ssa.Alloc) bool {
	if a.Comment != "varargs" {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if _, ok := r.Index.(*ssa.Const); !ok {
				return false
			}
			for _, u := range *r.Referrers() {
				if s, ok := u.(*ssa.Store); !ok || s.Val == r {
					return false
				}
			}
		case *ssa.Slice:
			if r.Low != nil || r.High != nil || r.Max != nil {
				return false
			}
			for _, u := range *r.Referrers() {
				c, ok := u.(*ssa.Call)
				if !ok {
					return false
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil {
					return false
				}
				p := g.Pkg.Pkg.Path()
				if p != "fmt" && p != "github.com/pkg/errors" && !strings.HasPrefix(p, "github.com/sirupsen/logrus") {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (v *VC) newCell(t types.Type, name string) *cell {
	v.ncell++
	return &cell{id: v.ncell, typ: t, name: name}
}

// execFn symbolically executes fn; returns the result tuple, the condition under which it returns, and the final state.
func (v *VC) execFn(fn *ssa.Function, args, free []Val, reach *Term, st *State, path string) (TupleVal, *Term, *State) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if len(v.stack) > 40 {
		unsup("inlining too deep at %s", fn)
	}
	for _, f := range v.stack {
		if f == fn {
			unsup("recursive function without contract: %s", shortFn(fn))
		}
	}
	v.stack = append(v.stack, fn)
	defer func() { v.stack = v.stack[:len(v.stack)-1] }()
	if v.spec == 0 && !v.p.overlayFn[fn] {
		v.covered[shortFn(fn)] = true
	}
	fi := getFnInfo(fn)
	if fi.rpo == nil {
		unsup("irreducible control flow in %s", fn)
	}
	fr := &frame{fn: fn, vals: map[ssa.Value]Val{}, free: free, path: path, info: fi}
	if len(args) != len(fn.Params) {
		unsup("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i >= len(free) {
			unsup("missing free variable for %s", fn)
		}
		fr.vals[f] = free[i]
	}
	exits, _ := v.runRegion(fr, nil, fn.Blocks[0], []edge{{cond: reach, st: st}})
	_ = exits
	if len(fr.rets) == 0 {
		return nil, v.b.False(), st
	}
	var xs []Val
	var conds []*Term
	for _, r := range fr.rets {
		xs = append(xs, TupleVal(r.phis))
		conds = append(conds, r.cond)
	}
	out, cond := v.mergeStates(fr.rets)
	res := v.mergeVals(v.relConds(conds), xs, nil).(TupleVal)
	return res, cond, out
}

func (v *VC) runRegion(fr *frame, region *loopInfo, start *ssa.BasicBlock, in []edge) (map[*ssa.BasicBlock][]edge, []edge) {
	pending := map[*ssa.BasicBlock][]edge{start: in}
	exits := map[*ssa.BasicBlock][]edge{}
	var backs []edge
	route := func(to *ssa.BasicBlock, e edge) {
		if e.cond.isFalse() {
			return
		}
		if region != nil && to == region.header {
			backs = append(backs, e)
			return
		}
		if region != nil && !region.blocks[to] {
			exits[to] = append(exits[to], e)
			return
		}
		pending[to] = append(pending[to], e)
	}
	for _, b := range fr.info.rpo {
		if region != nil && !region.blocks[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if l := fr.info.loops[b]; l != nil && !(region != nil && region.header == b) {
			for to, xs := range v.runLoop(fr, l, es) {
				for _, e := range xs {
					route(to, e)
				}
			}
			continue
		}
		st, reach := v.mergeStates(es)
		if !(region != nil && region.header == b) {
			v.bindPhis(fr, b, es)
		}
		v.runBlock(fr, b, reach, st, route)
	}
	return exits, backs
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (v *VC) bindPhis(fr *frame, b *ssa.BasicBlock, es []edge) {
	ps := phisOf(b)
	if len(ps) == 0 {
		return
	}
	var conds []*Term
	for _, e := range es {
		conds = append(conds, e.cond)
	}
	rel := v.relConds(conds)
	for i, p := range ps {
		var xs []Val
		for _, e := range es {
			xs = append(xs, e.phis[i])
		}
		fr.vals[p] = v.mergeVals(rel, xs, p.Type())
	}
}

func (v *VC) mkEdge(fr *frame, from, to *ssa.BasicBlock, cond *Term, st *State) edge {
	e := edge{cond: cond, st: st, from: from}
	for _, p := range phisOf(to) {
		for k, pr := range to.Preds {
			if pr == from {
				e.phis = append(e.phis, v.val(fr, p.Edges[k]))
				break
			}
		}
	}
	return e
}

func (v *VC) runBlock(fr *frame, b *ssa.BasicBlock, reach *Term, st *State, route func(*ssa.BasicBlock, edge)) {
	for _, in := range b.Instrs {
		if reach.isFalse() {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := v.term(fr, in.Cond)
			s0, s1 := b.Succs[0], b.Succs[1]
			if s0 == s1 {
				route(s0, v.mkEdge(fr, b, s0, reach, st.clone()))
				return
			}
			route(s0, v.mkEdge(fr, b, s0, v.b.And(reach, c), st.clone()))
			route(s1, v.mkEdge(fr, b, s1, v.b.And(reach, v.b.Not(c)), st.clone()))
			return
		case *ssa.Jump:
			route(b.Succs[0], v.mkEdge(fr, b, b.Succs[0], reach, st.clone()))
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, v.val(fr, r))
			}
			fr.rets = append(fr.rets, edge{cond: reach, st: st.clone(), phis: rs})
			return
		case *ssa.Panic:
			v.safety("no explicit panic in "+shortFn(fr.fn)+" ("+v.srcText(in.Pos())+")", reach, v.b.False())
			return
		case *ssa.Defer:
			d := dfr{cond: reach, call: in}
			for _, a := range in.Call.Args {
				d.args = append(d.args, v.val(fr, a))
			}
			if !in.Call.IsInvoke() {
				d.fnv = v.val(fr, in.Call.Value)
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				if d.call.Call.IsInvoke() {
					continue
				}
				// under the condition that the defer statement was executed on this path
				c := v.b.And(reach, d.cond)
				if c.isFalse() {
					continue
				}
				_, rc, st2 := v.callVal(fr, d.call, d.fnv, d.args, c, st.clone(), &d.call.Call)
				_ = rc
				if c == reach || v.b.Implies(reach, d.cond).isTrue() || implied(reach, d.cond) {
					*st = *st2
				} else {
					m, _ := v.mergeStates([]edge{{cond: c, st: st2}, {cond: v.b.And(reach, v.b.Not(d.cond)), st: st.clone()}})
					*st = *m
				}
			}
		case *ssa.Store:
			a := v.val(fr, in.Addr)
			v.nilCheck(fr, a, reach, in.Pos(), "store")
			v.store(st, a, in.Addr.Type().Underlying().(*types.Pointer).Elem(), v.val(fr, in.Val))
		case *ssa.MapUpdate:
			m := v.term(fr, in.Map)
			mt := in.Map.Type().Underlying().(*types.Map)
			v.safety("no write to a nil map: "+v.srcText(in.Pos()), reach, v.b.Not(v.b.Eq(m, v.b.Int(0))))
			v.mapPut(st, m, mt, v.term(fr, in.Key), v.term(fr, in.Value))
		case *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("concurrency in %s", shortFn(fr.fn))
		case ssa.Value:
			x, r2, st2 := v.instr(fr, in, reach, st)
			fr.vals[in] = x
			reach = r2
			if st2 != nil && st2 != st {
				*st = *st2
			}
		default:
			unsup("instruction %T", in)
		}
	}
}

func implied(reach, c *Term) bool {
	have := map[*Term]bool{}
	for _, t := range conj(reach) {
		have[t] = true
	}
	for _, t := range conj(c) {
		if !have[t] && !t.isTrue() {
			return false
		}
	}
	return true
}

func (v *VC) srcText(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pos := v.p.fset.Position(p)
	ls := v.p.srcLines(pos.Filename)
	if pos.Line-1 < len(ls) && pos.Line > 0 {
		s := strings.TrimSpace(ls[pos.Line-1])
		if len(s) > 100 {
			s = s[:100]
		}
		return s
	}
	return "?"
}

func (v *VC) val(fr *frame, x ssa.Value) Val {
	switch x := x.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return v.zero(x.Type())
		}
		return v.constTerm(x.Value, x.Type())
	case *ssa.Function:
		return &FuncVal{fn: x}
	case *ssa.Global:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return &PathVal{kind: pGlobal, glob: x, typ: t, cur: t}
	case *ssa.Builtin:
		return &FuncVal{}
	}
	r, ok := fr.vals[x]
	if !ok {
		unsup("no value for %s in %s", x.Name(), fr.fn)
	}
	return r
}

func (v *VC) term(fr *frame, x ssa.Value) *Term { return v.asTerm(v.val(fr, x), x.Type()) }

func (v *VC) nilCheck(fr *frame, a Val, reach *Term, pos token.Pos, what string) {
	var r *Term
	switch p := a.(type) {
	case *Term:
		r = p
	case *PathVal:
		if p.kind == pPtr {
			r = p.ref
		} else {
			return
		}
	default:
		return
	}
	if v.knownNonNil(r) {
		return
	}
	v.safety("no nil dereference: "+v.srcText(pos), reach, v.b.Not(v.b.Eq(r, v.b.Int(0))))
}

// refs obtained from the allocation counter are never nil
func (v *VC) knownNonNil(r *Term) bool {
	base, off := splitInt(r)
	if base == nil {
		return off != 0
	}
	return base.op == "const" && (strings.HasPrefix(base.name, "alloc") || base.name == "H0!alloc") && off >= 0
}

func (v *VC) instr(fr *frame, in ssa.Value, reach *Term, st *State) (Val, *Term, *State) {
	b := v.b
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if isSimpleAlloc(in) || isFormatArgs(in) {
			c := v.newCell(t, in.Comment)
			st.c[c] = v.zero(t)
			return &PathVal{kind: pCell, cell: c, typ: t, cur: t}, reach, st
		}
		r := v.newRef(st)
		v.storePtr(st, r, t, v.zero(t))
		return r, reach, st
	case *ssa.BinOp:
		return v.binop(fr, in, reach), reach, st
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := v.val(fr, in.X)
			v.nilCheck(fr, a, reach, in.Pos(), "load")
			ty := in.X.Type().Underlying().(*types.Pointer).Elem()
			x := v.load(st, a, ty)
			if t, ok := x.(*Term); ok {
				v.typed(st, reach, t, in.Type())
			}
			if g, ok := in.X.(*ssa.Global); ok {
				v.globalFacts(st, reach, g)
			}
			return x, reach, st
		case token.NOT:
			return b.Not(v.term(fr, in.X)), reach, st
		case token.SUB:
			x := v.term(fr, in.X)
			return b.Sub(b.Int(0), x), reach, st
		}
		unsup("unary %s", in.Op)
	case *ssa.ChangeType:
		x := v.val(fr, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Struct); ok {
			t := v.asTerm(x, in.X.Type())
			c1 := v.structCtor(in.X.Type())
			c2 := v.structCtor(in.Type())
			if c1 == c2 {
				return t, reach, st
			}
			as := make([]*Term, len(c1.fields))
			for i := range as {
				as[i] = b.Acc(c1, i, t)
			}
			return b.Ctor(c2, as...), reach, st
		}
		return x, reach, st
	case *ssa.ChangeInterface:
		return v.val(fr, in.X), reach, st
	case *ssa.Convert:
		return v.convert(fr, in, reach, st), reach, st
	case *ssa.MakeInterface:
		return b.Ctor(v.boxCtor(in.X.Type()), v.term(fr, in.X)), reach, st
	case *ssa.MakeClosure:
		f := &FuncVal{fn: in.Fn.(*ssa.Function)}
		for _, x := range in.Bindings {
			f.free = append(f.free, v.val(fr, x))
		}
		return f, reach, st
	case *ssa.MakeMap:
		return v.newMap(st, in.Type().Underlying().(*types.Map)), reach, st
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n, c := v.term(fr, in.Len), v.term(fr, in.Cap)
		v.safety("make: length not negative: "+v.srcText(in.Pos()), reach, b.And(b.Le(b.Int(0), n), b.Le(n, c)))
		r := v.newRef(st)
		k, s := v.elemKey(et)
		st.h[k] = b.Store(v.hget(st, k, s), r, b.ConstArr(arrSort("Int", v.sortOf(et)), v.zero(et)))
		return v.mkSlice(r, b.Int(0), n, c), reach, st
	case *ssa.Extract:
		t := v.val(fr, in.Tuple)
		tv, ok := t.(TupleVal)
		if !ok {
			unsup("extract from %T", t)
		}
		return tv[in.Index], reach, st
	case *ssa.Field:
		t := v.term(fr, in.X)
		x := b.Acc(v.structCtor(in.X.Type()), in.Field, t)
		v.typed(st, reach, x, in.Type())
		return x, reach, st
	case *ssa.FieldAddr:
		a := v.val(fr, in.X)
		sty := in.X.Type().Underlying().(*types.Pointer).Elem()
		ft := sty.Underlying().(*types.Struct).Field(in.Field).Type()
		switch p := a.(type) {
		case *Term:
			v.nilCheck(fr, p, reach, in.Pos(), "field")
			if v.isOpaque(sty) {
				unsup("field of external type %s", sty)
			}
			return &PathVal{kind: pField, ref: p, st: sty, fi: in.Field, typ: ft, cur: ft}, reach, st
		case *PathVal:
			q := *p
			if p.kind == pPtr && len(p.proj) == 0 {
				v.nilCheck(fr, p.ref, reach, in.Pos(), "field")
				return &PathVal{kind: pField, ref: p.ref, st: sty, fi: in.Field, typ: ft, cur: ft}, reach, st
			}
			q.proj = append(append([]int{}, p.proj...), in.Field)
			q.pidx = append(append([]*Term{}, p.pidx...), nil)
			q.cur = ft
			return &q, reach, st
		}
		unsup("field address of %T", a)
	case *ssa.Index:
		x := v.term(fr, in.X)
		i := v.term(fr, in.Index)
		if x.sort == "String" {
			v.safety("string index in range: "+v.srcText(in.Pos()), reach, b.And(b.Le(b.Int(0), i), b.Lt(i, b.StrLen(x))))
			return v.strAt(reach, x, i), reach, st
		}
		return b.Select(x, i), reach, st
	case *ssa.IndexAddr:
		a := v.val(fr, in.X)
		i := v.term(fr, in.Index)
		switch xt := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := v.asTerm(a, in.X.Type())
			v.safety("index in range: "+v.srcText(in.Pos()), reach, b.And(b.Le(b.Int(0), i), b.Lt(i, v.slLen(s))))
			pv := &PathVal{kind: pElem, ref: v.slBase(s), idx: b.Add(v.slOff(s), i), typ: xt.Elem(), cur: xt.Elem()}
			if v.recMode {
				pv.guard = b.And(b.Le(b.Int(0), i), b.Lt(i, v.slLen(s)))
			}
			return pv, reach, st
		case *types.Pointer:
			at := xt.Elem().Underlying().(*types.Array)
			if _, ok := i.intVal(); !ok {
				v.safety("array index in range: "+v.srcText(in.Pos()), reach, b.And(b.Le(b.Int(0), i), b.Lt(i, b.Int(at.Len()))))
			}
			switch p := a.(type) {
			case *Term:
				return &PathVal{kind: pElem, ref: p, idx: i, typ: at.Elem(), cur: at.Elem()}, reach, st
			case *PathVal:
				q := *p
				q.proj = append(append([]int{}, p.proj...), -1)
				q.pidx = append(append([]*Term{}, p.pidx...), i)
				q.cur = at.Elem()
				return &q, reach, st
			}
		}
		unsup("index address of %s", in.X.Type())
	case *ssa.Lookup:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			m, k := v.term(fr, in.X), v.term(fr, in.Index)
			x := v.mapGet(st, m, mt, k)
			v.typed(st, reach, x, mt.Elem())
			if in.CommaOk {
				return TupleVal{x, v.mapHas(st, m, mt, k)}, reach, st
			}
			return x, reach, st
		}
		s, i := v.term(fr, in.X), v.term(fr, in.Index)
		v.safety("string index in range: "+v.srcText(in.Pos()), reach, b.And(b.Le(b.Int(0), i), b.Lt(i, b.StrLen(s))))
		return v.strAt(reach, s, i), reach, st
	case *ssa.Slice:
		return v.slice(fr, in, reach, st), reach, st
	case *ssa.TypeAssert:
		return v.typeAssert(fr, in, reach, st), reach, st
	case *ssa.Range:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			m := v.term(fr, in.X)
			ks := v.sortOf(mt.Key())
			c := v.newCell(nil, "visited")
			st.c[c] = b.ConstArr(arrSort(ks, "Bool"), b.False())
			n := v.newCell(types.Typ[types.Int], "count")
			st.c[n] = b.Int(0)
			it := &IterVal{m: m, mt: mt, vis: c, count: n, dom: v.mapDom(st, m, mt)}
			v.mapIter = append(v.mapIter, it)
			return it, reach, st
		}
		s := v.term(fr, in.X)
		c := v.newCell(types.Typ[types.Int], "strpos")
		st.c[c] = b.Int(0)
		return &IterVal{kind: 1, s: s, vis: c}, reach, st
	case *ssa.Next:
		return v.next(fr, in, reach, st), reach, st
	case *ssa.Call:
		return v.call(fr, in, reach, st)
	case *ssa.MakeChan:
		unsup("channel in %s", shortFn(fr.fn))
	}
	unsup("instruction %T", in)
	return nil, nil, nil
}

func (v *VC) strAt(reach, s, i *Term) *Term {
	b := v.b
	if s.op == "str" {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(s.name) {
			return b.Int(int64(s.name[n]))
		}
	}
	x := b.App("str.to_code", "Int", b.App("str.at", "String", s, i))
	if v.spec == 0 {
		v.assume(reach, b.Lt(x, b.Int(256)))
	}
	return x
}

// decodeRune: the first rune of s and its width (0 when s is empty)
func (v *VC) decodeRune(s *Term) (*Term, *Term) {
	b := v.b
	code := b.App("str.to_code", "Int", b.App("str.at", "String", s, b.Int(0)))
	empty := b.Le(b.StrLen(s), b.Int(0))
	ascii := b.And(b.Le(b.Int(0), code), b.Lt(code, b.Int(128)))
	ur, uw := b.UF("decodedRune", "Int", s), b.UF("decodedWidth", "Int", s)
	okr := b.And(b.Le(b.Int(128), ur), b.Le(ur, b.Int(0x10ffff)))
	okw := b.And(b.Le(b.Int(1), uw), b.Le(uw, b.Int(4)), b.Le(uw, b.StrLen(s)))
	r := b.Ite(empty, b.Int(0xfffd), b.Ite(ascii, code, b.Ite(okr, ur, b.Int(0xfffd))))
	w := b.Ite(empty, b.Int(0), b.Ite(ascii, b.Int(1), b.Ite(okw, uw, b.Int(1))))
	v.note("runes: bytes below 0x80 are single runes; other runes are a function of the bytes that follow (>= 0x80, width 1..4)")
	return r, w
}

func (v *VC) next(fr *frame, in *ssa.Next, reach *Term, st *State) Val {
	b := v.b
	it, ok := v.val(fr, in.Iter).(*IterVal)
	if !ok {
		unsup("iterator")
	}
	if it.kind == 1 {
		pos := v.asTerm(st.c[it.vis], types.Typ[types.Int])
		okc := b.Lt(pos, b.StrLen(it.s))
		r, w := v.decodeRune(b.App("str.substr", "String", it.s, pos, b.Sub(b.StrLen(it.s), pos)))
		st.c[it.vis] = b.Ite(okc, b.Add(pos, w), pos)
		return TupleVal{okc, pos, r}
	}
	ks, vs := v.sortOf(it.mt.Key()), v.sortOf(it.mt.Elem())
	_ = vs
	vis := v.asTerm(st.c[it.vis], nil)
	okc := b.Fresh("more", "Bool")
	k := b.Fresh("key", ks)
	dom := v.mapDom(st, it.m, it.mt)
	v.assume(reach, b.Implies(okc, b.And(b.Not(b.Eq(it.m, b.Int(0))), b.Select(dom, k), b.Not(b.Select(vis, k)))))
	q := b.BVar("k", ks)
	v.assume(reach, b.Implies(b.Not(okc), b.Or(b.Eq(it.m, b.Int(0)), b.Quant("forall", []*Term{q}, b.Implies(b.Select(dom, q), b.Select(vis, q)), []*Term{b.Select(dom, q)}, []*Term{b.Select(vis, q)}))))
	st.c[it.vis] = b.Ite(okc, b.Store(vis, k, b.True()), vis)
	cnt := v.asTerm(st.c[it.count], nil)
	st.c[it.count] = b.Ite(okc, b.Add(cnt, b.Int(1)), cnt)
	x := b.Select(v.mapVal(st, it.m, it.mt), k)
	v.typed(st, b.And(reach, okc), x, it.mt.Elem())
	return TupleVal{okc, k, x}
}

func (v *VC) slice(fr *frame, in *ssa.Slice, reach *Term, st *State) Val {
	b := v.b
	lo := b.Int(0)
	if in.Low != nil {
		lo = v.term(fr, in.Low)
	}
	switch xt := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := v.term(fr, in.X)
		hi := b.StrLen(s)
		if in.High != nil {
			hi = v.term(fr, in.High)
		}
		v.safety("slice bounds: "+v.srcText(in.Pos()), reach, b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, b.StrLen(s))))
		return v.substr(s, lo, hi)
	case *types.Slice:
		s := v.term(fr, in.X)
		hi := v.slLen(s)
		if in.High != nil {
			hi = v.term(fr, in.High)
		}
		cp := v.slCap(s)
		if in.Max != nil {
			cp = v.term(fr, in.Max)
		}
		v.safety("slice bounds: "+v.srcText(in.Pos()), reach, b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, cp), b.Le(cp, v.slCap(s))))
		return v.mkSlice(v.slBase(s), b.Add(v.slOff(s), lo), b.Sub(hi, lo), b.Sub(cp, lo))
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		if a, ok := in.X.(*ssa.Alloc); ok && isFormatArgs(a) {
			r := b.Fresh("formatargs", "Int")
			if v.formatArgs == nil {
				v.formatArgs = map[*Term]*Term{}
			}
			v.formatArgs[r] = v.asTerm(st.c[v.val(fr, a).(*PathVal).cell], xt.Elem())
			return v.mkSlice(r, b.Int(0), b.Int(at.Len()), b.Int(at.Len()))
		}
		r := v.term(fr, in.X)
		hi := b.Int(at.Len())
		if in.High != nil {
			hi = v.term(fr, in.High)
		}
		return v.mkSlice(r, lo, b.Sub(hi, lo), b.Sub(b.Int(at.Len()), lo))
	}
	unsup("slice of %s", in.X.Type())
	return nil
}

func (v *VC) substr(s, lo, hi *Term) *Term {
	b := v.b
	if s.op == "str" {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if ok1 && ok2 && l >= 0 && h <= int64(len(s.name)) && l <= h {
			return b.Str(s.name[l:h])
		}
	}
	if n, ok := lo.intVal(); ok && n == 0 && hi == b.StrLen(s) {
		return s
	}
	return b.App("str.substr", "String", s, lo, b.Sub(hi, lo))
}

// isType gives the condition that interface value x has dynamic type t (t concrete or interface).
func (v *VC) isType(x *Term, t types.Type) *Term {
	b := v.b
	t = types.Unalias(t)
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return b.Not(b.Is(v.cNil, x))
		}
		cs := []*Term{}
		for _, im := range v.p.implementers(it) {
			cs = append(cs, b.Is(v.boxCtor(im), x))
		}
		for _, bt := range v.boxTypes { // non-repo types (errors etc.)
			if types.Implements(bt, it) {
				cs = append(cs, b.Is(v.boxCtor(bt), x))
			}
		}
		cs = append(cs, b.And(b.Is(v.cOther, x), b.UF("implements!"+sanit(t.String()), "Bool", b.Acc(v.cOther, 0, x))))
		return b.Or(cs...)
	}
	return b.Is(v.boxCtor(t), x)
}

func (v *VC) typeAssert(fr *frame, in *ssa.TypeAssert, reach *Term, st *State) Val {
	b := v.b
	x := v.term(fr, in.X)
	ok := v.isType(x, in.AssertedType)
	var r *Term
	if types.IsInterface(in.AssertedType) {
		r = x
		if in.CommaOk {
			r = b.Ite(ok, x, v.anyNil())
		}
	} else {
		u := b.Acc(v.boxCtor(in.AssertedType), 0, x)
		v.typed(st, b.And(reach, ok), u, in.AssertedType)
		r = u
		if in.CommaOk {
			r = b.Ite(ok, u, v.zero(in.AssertedType))
		}
	}
	if in.CommaOk {
		return TupleVal{r, ok}
	}
	v.safety("type assertion holds: "+v.srcText(in.Pos()), reach, ok)
	return r
}

func (v *VC) convert(fr *frame, in *ssa.Convert, reach *Term, st *State) Val {
	b := v.b
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		x := v.term(fr, in.X)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if tb.Kind() == types.Uint8 && fb.Kind() != types.Uint8 {
				return b.App("mod", "Int", x, b.Int(256))
			}
			return x
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := x.intVal(); ok {
				return b.Str(string(rune(n)))
			}
			return v.runeString(x)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return x
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return x
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return b.App("to_real", "Real", x)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return v.truncate(x)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok && isByte(sl.Elem()) {
			return v.strToBytes(v.term(fr, in.X), reach, st)
		}
	}
	if sl, ok := from.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 && isByte(sl.Elem()) {
		x := v.term(fr, in.X)
		k, s := v.elemKey(sl.Elem())
		row := b.Select(v.hget(st, k, s), v.slBase(x))
		return v.bytesToStr(row, v.slOff(x), v.slLen(x))
	}
	unsup("conversion %s -> %s", in.X.Type(), in.Type())
	return nil
}

func isByte(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Kind() == types.Uint8
}

// strToBytes: a new slice with the bytes of the string
func (v *VC) strToBytes(x, reach *Term, st *State) *Term {
	b := v.b
	r := v.newRef(st)
	k, s := v.elemKey(types.Typ[types.Uint8])
	row := b.Fresh("bytes", arrSort("Int", "Int"))
	st.h[k] = b.Store(v.hget(st, k, s), r, row)
	n := b.StrLen(x)
	res := v.mkSlice(r, b.Int(0), n, n)
	v.assume(reach, b.Eq(v.bytesToStr(row, b.Int(0), n), x))
	return res
}

func (v *VC) bytesToStr(row, off, n *Term) *Term {
	v.note("byte slices: content as a string is an uninterpreted function of the backing row, offset and length")
	return v.b.UF("bytesToString", "String", row, off, n)
}

func (v *VC) binop(fr *frame, in *ssa.BinOp, reach *Term) *Term {
	b := v.b
	xv, yv := v.val(fr, in.X), v.val(fr, in.Y)
	// function/nil comparison
	if _, ok := in.X.Type().Underlying().(*types.Signature); ok {
		isnil := func(x Val) (*Term, bool) {
			switch x := x.(type) {
			case *FuncVal:
				return b.False(), true
			case *Term:
				return b.Eq(x, b.Int(0)), true
			}
			return nil, false
		}
		var r *Term
		if c, ok := in.Y.(*ssa.Const); ok && c.Value == nil {
			r, _ = isnil(xv)
		} else {
			r, _ = isnil(yv)
		}
		if in.Op == token.NEQ {
			return b.Not(r)
		}
		return r
	}
	if p, ok := xv.(*PathVal); ok && (p.kind != pPtr) { // address compared with nil
		if c, ok := in.Y.(*ssa.Const); ok && c.Value == nil {
			return b.Bool(in.Op == token.NEQ)
		}
	}
	x, y := v.asTerm(xv, in.X.Type()), v.asTerm(yv, in.Y.Type())
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if x.sort == "Slice" {
			if c, ok := in.Y.(*ssa.Const); ok && c.Value == nil {
				r = b.Eq(v.slBase(x), b.Int(0))
			} else {
				r = b.Eq(v.slBase(y), b.Int(0))
			}
		} else {
			if x.sort != y.sort {
				if x.sort == "Any" {
					y = b.Ctor(v.boxCtor(in.Y.Type()), y)
				} else if y.sort == "Any" {
					x = b.Ctor(v.boxCtor(in.X.Type()), x)
				}
			}
			r = b.Eq(x, y)
		}
		if in.Op == token.NEQ {
			return b.Not(r)
		}
		return r
	}
	if x.sort == "String" {
		switch in.Op {
		case token.ADD:
			return b.Concat(x, y)
		case token.LSS:
			return b.App("str.<", "Bool", x, y)
		case token.LEQ:
			return b.App("str.<=", "Bool", x, y)
		case token.GTR:
			return b.App("str.<", "Bool", y, x)
		case token.GEQ:
			return b.App("str.<=", "Bool", y, x)
		}
	}
	if x.sort == "Real" {
		switch in.Op {
		case token.ADD:
			return b.App("+", "Real", x, y)
		case token.SUB:
			return b.App("-", "Real", x, y)
		case token.MUL:
			return b.App("*", "Real", x, y)
		case token.QUO:
			return b.App("/", "Real", x, y)
		}
	}
	switch in.Op {
	case token.ADD:
		return b.Add(x, y)
	case token.SUB:
		return b.Sub(x, y)
	case token.MUL:
		return b.Mul(x, y)
	case token.QUO, token.REM:
		v.safety("no division by zero: "+v.srcText(in.Pos()), reach, b.Not(b.Eq(y, b.Int(0))))
		// Go truncates toward zero; SMT div floors (for positive divisor)
		q := b.Ite(b.Le(b.Int(0), x), b.App("div", "Int", x, y), b.Sub(b.Int(0), b.App("div", "Int", b.Sub(b.Int(0), x), y)))
		if in.Op == token.QUO {
			return q
		}
		return b.Sub(x, b.Mul(q, y))
	case token.LSS:
		return b.Lt(x, y)
	case token.LEQ:
		return b.Le(x, y)
	case token.GTR:
		return b.Lt(y, x)
	case token.GEQ:
		return b.Le(y, x)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		v.note("bit operations are uninterpreted")
		return b.UF("bitop!"+in.Op.String(), "Int", x, y)
	}
	unsup("binary %s on %s", in.Op, x.sort)
	return nil
}

// ---------- loops ----------

type loopPool struct {
	ty     types.Type
	get    func(phis []Val, st *State) Val
	lbl    string
	livein bool
}

func (v *VC) runLoop(fr *frame, l *loopInfo, in []edge) map[*ssa.BasicBlock][]edge {
	if v.spec > 0 {
		unsup("loop in specification code: %s", shortFn(fr.fn))
	}
	b := v.b
	v.loopN++
	s0, reach0 := v.mergeStates(in)
	phis := phisOf(l.header)
	// entry values of phis
	var conds []*Term
	for _, e := range in {
		conds = append(conds, e.cond)
	}
	rel := v.relConds(conds)
	entry := make([]Val, len(phis))
	for i, p := range phis {
		var xs []Val
		for _, e := range in {
			xs = append(xs, e.phis[i])
		}
		entry[i] = v.mergeVals(rel, xs, p.Type())
	}
	lname := fmt.Sprintf("%s#loop(%s)", shortFn(fr.fn), v.loopLabel(l))
	marker := b.n
	// ---- discover the write set
	type wr struct {
		stable []*Term
		frsh   bool
		broken bool
	}
	W := map[string]*wr{}
	WC := map[*cell]bool{}
	var hst *State
	havoc := func() (*State, []Val, *Term) {
		st := s0.clone()
		var keys []string
		for k := range W {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		// alloc first
		if _, ok := W["alloc"]; ok {
			a := b.Fresh("alloc", "Int")
			v.assume(reach0, b.Le(v.alloc(s0), a))
			st.h["alloc"] = a
		}
		for _, k := range keys {
			if k == "alloc" {
				continue
			}
			w := W[k]
			h0 := v.hget(s0, k, v.heapSorts[k])
			if !w.frsh && !w.broken && strings.HasPrefix(h0.sort, "(Array Int") && !strings.HasPrefix(k, "G!") {
				h := h0
				_, es := arrSorts(h0.sort)
				for _, ix := range w.stable {
					h = b.Store(h, ix, b.Fresh("lv!"+k, es))
				}
				st.h[k] = h
				continue
			}
			hc := b.Fresh("lh!"+k, h0.sort)
			v.loopHeap[hc] = &loopHeapInfo{base: h0, excl: w.stable}
			st.h[k] = hc
		}
		for c := range WC {
			x := st.c[c]
			t, ok := x.(*Term)
			if !ok {
				unsup("loop modifies a local of unsupported kind (%s)", c.name)
			}
			f := b.Fresh("lc!"+c.name, t.sort)
			st.c[c] = f
			if c.typ != nil {
				v.typed(st, reach0, f, c.typ)
			}
		}
		pv := make([]Val, len(phis))
		for i, p := range phis {
			_, isTerm := entry[i].(*Term)
			if !isTerm {
				if _, ok := p.Type().Underlying().(*types.Signature); !ok {
					if pt, ok := entry[i].(*PathVal); ok {
						_ = pt
						unsup("address carried by a loop in %s", shortFn(fr.fn))
					}
				}
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			f := b.Fresh("lp!"+nm, v.sortOf(p.Type()))
			pv[i] = f
			v.typed(st, reach0, f, p.Type())
		}
		return st, pv, reach0
	}
	var exits map[*ssa.BasicBlock][]edge
	var backs []edge
	for iter := 0; ; iter++ {
		if iter > 60 {
			unsup("write set of loop does not stabilise")
		}
		nA, nO, nC := len(v.assumes), len(v.obls), len(v.cands)
		v.disc++
		st, pv, rc := havoc()
		hst = st.clone()
		for i, p := range phis {
			fr.vals[p] = pv[i]
		}
		nd := len(fr.defers)
		nr := len(fr.rets)
		_, backs = v.runRegion(fr, l, l.header, []edge{{cond: rc, st: st}})
		if len(fr.defers) != nd {
			unsup("defer in a loop")
		}
		fr.rets = fr.rets[:nr]
		v.disc--
		v.assumes, v.obls, v.cands = v.assumes[:nA], v.obls[:nO], v.cands[:nC]
		changed := false
		for _, be := range backs {
			for k, t := range be.st.h {
				base := v.hget(hst, k, t.sort)
				if t == base {
					continue
				}
				w := W[k]
				if w == nil {
					w = &wr{}
					W[k] = w
					changed = true
				}
				if k == "alloc" || strings.HasPrefix(k, "G!") {
					continue
				}
				idx, fresh, broken := v.storeIndices(t, base, marker)
				for _, ix := range idx {
					have := false
					for _, y := range w.stable {
						if y == ix {
							have = true
						}
					}
					if !have {
						w.stable = append(w.stable, ix)
						changed = true
					}
				}
				if fresh && !w.frsh {
					w.frsh = true
					changed = true
				}
				if broken && !w.broken {
					w.broken = true
					changed = true
				}
			}
			for c, x := range be.st.c {
				x0, ok := hst.c[c]
				if ok && x0 != x && !WC[c] {
					WC[c] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// ---- final run
	st, pv, rc := havoc()
	hst = st.clone()
	for i, p := range phis {
		fr.vals[p] = pv[i]
	}
	v.nGrp++
	// candidates
	type candE struct {
		c  *Cand
		at func(phis []Val, st *State) *Term
	}
	var ces []candE
	addCand := func(label string, user bool, at func(phis []Val, st *State) *Term) {
		// at entry
		te := at(entry, s0)
		if te == nil {
			return
		}
		th := at(pv, hst)
		if th == nil || th.isTrue() {
			return
		}
		c := &Cand{id: len(v.cands), label: label, user: user, active: true, loop: lname}
		c.act = b.Const(fmt.Sprintf("act!%d", c.id), "Bool")
		v.cands = append(v.cands, c)
		ces = append(ces, candE{c, at})
		// entry obligation
		g := b.Implies(reach0, te)
		v.candObl(lname+" entry: "+label, g, c)
		v.assumeRaw(b.Implies(b.And(c.act, rc), th))
	}
	if v.disc == 0 {
		v.autoCands(fr, l, phis, entry, pv, s0, hst, reach0, func(k string) ([]*Term, bool, bool) {
			w := W[k]
			return w.stable, w.frsh, w.broken
		}, keysOf(W), addCand)
		v.userCands(fr, l, phis, entry, pv, s0, hst, WC, addCand)
	}
	exits, backs = v.runRegion(fr, l, l.header, []edge{{cond: rc, st: st}})
	for _, be := range backs {
		v.nGrp++
		for _, ce := range ces {
			g := b.Implies(be.cond, ce.at(be.phis, be.st))
			v.candObl(lname+" preserved: "+ce.c.label, g, ce.c)
		}
	}
	return exits
}

func keysOf[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (v *VC) candObl(name string, goal *Term, c *Cand) {
	o := &Obl{name: name, kind: "loop", goal: goal, nAss: len(v.assumes), cand: c, grp: v.nGrp}
	if goal.isTrue() {
		o.status = "proved"
		o.solver = "simplifier"
	}
	v.obls = append(v.obls, o)
}

func (v *VC) loopLabel(l *loopInfo) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return v.srcText(in.Pos())
		}
	}
	for _, p := range l.header.Preds {
		for _, in := range p.Instrs {
			if in.Pos().IsValid() {
				return v.srcText(in.Pos())
			}
		}
	}
	return l.header.Comment
}

// storeIndices walks the store/ite structure of t down to base and collects the indices written:
// stable ones (built only from terms that existed before the loop) and whether others were written.
func (v *VC) storeIndices(t, base *Term, marker int) (stable []*Term, fresh, broken bool) {
	seen := map[*Term]bool{}
	// the base itself may be a chain of stores on the pre-loop heap
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == base || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "store":
			if v.isStable(t.args[1], marker) {
				stable = append(stable, t.args[1])
			} else {
				fresh = true
			}
			walk(t.args[0])
			return
		case "ite":
			walk(t.args[1])
			walk(t.args[2])
			return
		case "const":
			if lh, ok := v.loopHeap[t]; ok {
				fresh = true
				for _, x := range lh.excl {
					if v.isStable(x, marker) {
						stable = append(stable, x)
					} else {
						fresh = true
					}
				}
				walk(lh.base)
				return
			}
		}
		// chains may join below the havoced stores
		if strings.HasPrefix(base.sort, "(Array") {
			bb := base
			for bb.op == "store" {
				bb = bb.args[0]
				if bb == t {
					return
				}
			}
		}
		broken = true
	}
	walk(t)
	return
}

func (v *VC) isStable(t *Term, marker int) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.id < marker {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = false
		r := true
		if t.op == "const" || t.op == "var" {
			r = strings.HasPrefix(t.name, "H0!") || strings.HasPrefix(t.name, "&") || strings.HasPrefix(t.name, "fn!")
		} else {
			for _, a := range t.args {
				if !rec(a) {
					r = false
					break
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// frameFact: forall r < bound, r not in excl: h[r] = h0[r]
func (v *VC) frameFact(h, h0, bound *Term, excl []*Term) *Term {
	b := v.b
	if h == h0 {
		return b.True()
	}
	r := b.BVar("r", "Int")
	cs := []*Term{b.Lt(r, bound)}
	for _, x := range excl {
		cs = append(cs, b.Not(b.Eq(r, x)))
	}
	s1, s2 := b.App("select", elemSort(h.sort), h, r), b.App("select", elemSort(h0.sort), h0, r)
	return b.Quant("forall", []*Term{r}, b.Implies(b.And(cs...), b.Eq(s1, s2)), []*Term{s1})
}

func elemSort(s string) string { _, e := arrSorts(s); return e }

func (v *VC) autoCands(fr *frame, l *loopInfo, phis []*ssa.Phi, entry, pv []Val, s0, hst *State, reach0 *Term, winfo func(string) ([]*Term, bool, bool), keys []string,
	add func(string, bool, func([]Val, *State) *Term)) {
	b := v.b
	alloc0 := v.alloc(s0)
	fnAlloc := v.alloc0
	slBases := []*Term{}
	for i, p := range phis {
		i, p := i, p
		nm := p.Comment
		if nm == "" {
			nm = "phi"
		}
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				e := entry[i].(*Term)
				add(nm+">=entry", false, func(ph []Val, st *State) *Term { return b.Le(e, ph[i].(*Term)) })
				add(nm+"<=entry", false, func(ph []Val, st *State) *Term { return b.Le(ph[i].(*Term), e) })
				for _, n := range v.loopBounds(fr, l, p) {
					n := n
					add(nm+"<=bound", false, func(ph []Val, st *State) *Term { return b.Le(ph[i].(*Term), n) })
					add(nm+"<bound", false, func(ph []Val, st *State) *Term { return b.Lt(ph[i].(*Term), n) })
				}
				add(nm+">=0", false, func(ph []Val, st *State) *Term { return b.Le(b.Int(0), ph[i].(*Term)) })
			}
		case *types.Slice:
			e := entry[i].(*Term)
			slBases = append(slBases, v.slBase(e))
			add(nm+" fresh", false, func(ph []Val, st *State) *Term {
				s := ph[i].(*Term)
				return b.Or(b.Le(fnAlloc, v.slBase(s)), b.Eq(v.slCap(s), b.Int(0)))
			})
			add(nm+" freshloop", false, func(ph []Val, st *State) *Term {
				s := ph[i].(*Term)
				return b.Or(b.Le(alloc0, v.slBase(s)), b.Eq(v.slCap(s), b.Int(0)))
			})
			add(nm+" same-or-fresh", false, func(ph []Val, st *State) *Term {
				s := ph[i].(*Term)
				return b.Or(b.Le(alloc0, v.slBase(s)), b.And(b.Eq(v.slBase(s), v.slBase(e)), b.Eq(v.slOff(s), v.slOff(e)), b.Le(v.slLen(e), v.slLen(s))), b.And(b.Eq(v.slBase(s), b.Int(0))))
			})
			for j := 0; j < i; j++ {
				j := j
				if _, ok := phis[j].Type().Underlying().(*types.Slice); ok {
					add("separate slices", false, func(ph []Val, st *State) *Term {
						x, y := ph[i].(*Term), ph[j].(*Term)
						return b.Or(b.Not(b.Eq(v.slBase(x), v.slBase(y))), b.Eq(v.slCap(x), b.Int(0)), b.Eq(v.slCap(y), b.Int(0)))
					})
				}
			}
		case *types.Pointer, *types.Map:
			e := entry[i].(*Term)
			add(nm+" != nil", false, func(ph []Val, st *State) *Term { return b.Not(b.Eq(ph[i].(*Term), b.Int(0))) })
			add(nm+" same-or-fresh", false, func(ph []Val, st *State) *Term {
				t := ph[i].(*Term)
				return b.Or(b.Le(alloc0, t), b.Eq(t, e))
			})
		case *types.Interface:
			add(nm+" == nil", false, func(ph []Val, st *State) *Term {
				return b.Is(v.cNil, ph[i].(*Term))
			})
		}
	}
	for _, k := range keys {
		if k == "alloc" || strings.HasPrefix(k, "G!") {
			continue
		}
		k := k
		stable, fr, broken := winfo(k)
		h0 := v.hget(s0, k, v.heapSorts[k])
		if !strings.HasPrefix(h0.sort, "(Array Int") {
			continue
		}
		if !fr && !broken {
			continue
		}
		add("frame "+k, false, func(ph []Val, st *State) *Term {
			return v.frameFact(v.hget(st, k, h0.sort), h0, alloc0, stable)
		})
		excl := append(append([]*Term{}, stable...), slBases...)
		if strings.HasPrefix(k, "A!") && len(slBases) > 0 {
			add("frame-except-acc "+k, false, func(ph []Val, st *State) *Term {
				return v.frameFact(v.hget(st, k, h0.sort), h0, alloc0, excl)
			})
		}
		// frame with respect to function entry and the contract's modifies clause
		if v.entry != nil {
			he := v.hget(v.entry, k, h0.sort)
			ex := v.modExcl(k)
			add("fnframe "+k, false, func(ph []Val, st *State) *Term {
				return v.frameFact(v.hget(st, k, h0.sort), he, fnAlloc, ex)
			})
		}
	}
}

func (v *VC) modExcl(k string) []*Term {
	var ex []*Term
	for _, m := range v.modset {
		if m.key == "" || m.key == k {
			ex = append(ex, m.ref)
		}
	}
	return ex
}

// loopBounds: loop-invariant ints compared with the phi (or phi+1) in the loop
func (v *VC) loopBounds(fr *frame, l *loopInfo, p *ssa.Phi) []*Term {
	var out []*Term
	related := map[ssa.Value]bool{p: true}
	for bl := range l.blocks {
		for _, in := range bl.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && bo.X == ssa.Value(p) {
				related[bo] = true
			}
		}
	}
	seen := map[*Term]bool{}
	for _, bl := range fr.fn.Blocks {
		if !l.blocks[bl] {
			continue
		}
		for _, in := range bl.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			var o ssa.Value
			if related[bo.X] {
				o = bo.Y
			} else if related[bo.Y] {
				o = bo.X
			} else {
				continue
			}
			if oi, ok := o.(ssa.Instruction); ok && oi.Block() != nil && l.blocks[oi.Block()] {
				continue
			}
			var t *Term
			func() {
				defer func() { recover() }()
				t = v.term(fr, o)
			}()
			if t != nil && t.sort == "Int" && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	return out
}

func (v *VC) userCands(fr *frame, l *loopInfo, phis []*ssa.Phi, entry, pv []Val, s0, hst *State, WC map[*cell]bool, add func(string, bool, func([]Val, *State) *Term)) {
	if len(v.invs) == 0 {
		return
	}
	var pool []loopPool
	isHeaderPhi := map[ssa.Value]bool{}
	for i, p := range phis {
		i := i
		isHeaderPhi[p] = true
		nm := p.Comment
		if nm == "" {
			nm = fmt.Sprintf("phi%d", i)
		}
		pool = append(pool, loopPool{p.Type(), func(ph []Val, st *State) Val { return ph[i] }, nm, false})
		if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			pool = append(pool, loopPool{p.Type(), func(ph []Val, st *State) Val { return v.b.Add(ph[i].(*Term), v.b.Int(1)) }, nm + "+1", false})
		}
	}
	var cl []*cell
	for c := range hst.c {
		if c.typ != nil {
			cl = append(cl, c)
		}
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		c := c
		pool = append(pool, loopPool{c.typ, func(ph []Val, st *State) Val { return st.c[c] }, "local:" + c.name, false})
	}
	for _, it := range v.mapIter {
		it := it
		if _, ok := hst.c[it.vis]; !ok || it.kind != 0 {
			continue
		}
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", it.mt.Key())), types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.Bool])), false)
		pool = append(pool, loopPool{sig, func(ph []Val, st *State) Val {
			vis := st.c[it.vis].(*Term)
			return &FuncVal{native: func(args []Val, _ *State) Val { return v.b.Select(vis, args[0].(*Term)) }}
		}, "visited", false})
	}
	// live-in values
	seen := map[ssa.Value]bool{}
	for _, bl := range fr.fn.Blocks {
		if !l.blocks[bl] {
			continue
		}
		for _, in := range bl.Instrs {
			var ops []*ssa.Value
			ops = in.Operands(ops)
			for _, o := range ops {
				x := *o
				if x == nil || seen[x] || isHeaderPhi[x] {
					continue
				}
				seen[x] = true
				switch x.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
					continue
				}
				if xi, ok := x.(ssa.Instruction); ok && l.blocks[xi.Block()] {
					continue
				}
				val, ok := fr.vals[x]
				if !ok {
					continue
				}
				switch val.(type) {
				case *Term:
				default:
					continue
				}
				pool = append(pool, loopPool{x.Type(), func(ph []Val, st *State) Val { return val }, x.Name(), true})
			}
		}
	}
	for _, inv := range v.invs {
		fn := inv.fn
		np := len(fn.Params)
		cands := make([][]loopPool, np)
		ok := true
		for i, p := range fn.Params {
			for _, e := range pool {
				if types.Identical(types.Unalias(e.ty), types.Unalias(p.Type())) {
					cands[i] = append(cands[i], e)
				}
			}
			if len(cands[i]) == 0 {
				ok = false
			}
			// a variable of the loop with the name of the parameter comes first
			var named []loopPool
			for _, e := range cands[i] {
				if e.lbl == p.Name() || e.lbl == "local:"+p.Name() {
					named = append(named, e)
				}
			}
			if len(named) > 1 { // the variable itself rather than its value before the loop
				var inLoop []loopPool
				for _, e := range named {
					if !e.livein {
						inLoop = append(inLoop, e)
					}
				}
				if len(inLoop) > 0 {
					named = inLoop
				}
			}
			if len(named) > 0 {
				cands[i] = named
			}
		}
		if !ok {
			continue
		}
		idx := make([]int, np)
		total := 0
		for {
			total++
			if total > 300 {
				break
			}
			bind := make([]loopPool, np)
			lbl := []string{}
			for i := range idx {
				bind[i] = cands[i][idx[i]]
				lbl = append(lbl, bind[i].lbl)
			}
			inv := inv
			add(fmt.Sprintf("invariant %s [%s]", v.srcText(fn.Pos()), strings.Join(lbl, ",")), true, func(ph []Val, st *State) *Term {
				args := make([]Val, np)
				for i := range bind {
					args[i] = bind[i].get(ph, st)
				}
				return v.evalSpecClosure(inv, args, st)
			})
			k := 0
			for k < np {
				idx[k]++
				if idx[k] < len(cands[k]) {
					break
				}
				idx[k] = 0
				k++
			}
			if k == np {
				break
			}
		}
	}
}

// evalSpecClosure evaluates a bool-valued spec closure with heap taken from st and locals from the contract's own state.
func (v *VC) evalSpecClosure(f *FuncVal, args []Val, st *State) *Term {
	v.spec++
	defer func() { v.spec-- }()
	sp := st.clone()
	if v.invState != nil {
		for c, x := range v.invState.c {
			sp.c[c] = x
		}
	}
	if v.entry != nil {
		v.preStack = append(v.preStack, v.entry)
		defer func() { v.preStack = v.preStack[:len(v.preStack)-1] }()
	}
	saved := v.stack
	v.stack = nil
	defer func() { v.stack = saved }()
	if f.native != nil {
		return f.native(args, sp).(*Term)
	}
	r, _, _ := v.execFn(f.fn, args, f.free, v.b.True(), sp, "inv")
	return r[0].(*Term)
}

// truncate is the conversion of a real number into an integer (towards zero)
func (v *VC) truncate(x *Term) *Term {
	b := v.b
	switch x.op {
	case "to_real":
		return x.args[0]
	case "ite":
		return b.Ite(x.args[0], v.truncate(x.args[1]), v.truncate(x.args[2]))
	}
	zero := b.mk("real", "0.0", "Real")
	neg := b.App("-", "Real", zero, x)
	return b.Ite(b.App("<=", "Bool", zero, x), b.App("to_int", "Int", x), b.App("-", "Int", b.Int(0), b.App("to_int", "Int", neg)))
}
