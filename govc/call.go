package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *VC) call(fr *frame, in *ssa.Call, reach *Term, st *State) (Val, *Term, *State) {
	c := &in.Call
	if c.IsInvoke() {
		recv := v.val(fr, c.Value)
		var args []Val
		for _, a := range c.Args {
			args = append(args, v.val(fr, a))
		}
		return v.invoke(fr, in, c, recv, args, reach, st)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return v.builtin(fr, in, bi, reach, st), reach, st
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, v.val(fr, a))
	}
	fv := v.val(fr, c.Value)
	return v.callVal(fr, in, fv, args, reach, st, c)
}

func pack(tv TupleVal) Val {
	switch len(tv) {
	case 0:
		return nil
	case 1:
		return tv[0]
	}
	return tv
}

func (v *VC) callVal(fr *frame, in ssa.Instruction, fv Val, args []Val, reach *Term, st *State, c *ssa.CallCommon) (Val, *Term, *State) {
	switch f := fv.(type) {
	case *FuncVal:
		if f.native != nil {
			return f.native(args, st), reach, st
		}
		if f.fn == nil {
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				return v.builtinArgs(fr, in, bi, c, args, reach, st), reach, st
			}
			unsup("call of unknown builtin")
		}
		if f.recv != nil {
			args = append([]Val{f.recv}, args...)
		}
		return v.callFn(fr, in, f.fn, args, f.free, reach, st, c.Signature())
	case *Term:
		return v.callTerm(fr, in, f, args, reach, st, c)
	}
	unsup("call of %T", fv)
	return nil, nil, nil
}

// callTerm calls a function value held in a term.
func (v *VC) callTerm(fr *frame, in ssa.Instruction, f *Term, args []Val, reach *Term, st *State, c *ssa.CallCommon) (Val, *Term, *State) {
	if f.op == "const" {
		for fvv, id := range v.fnIds {
			if f.name == fmt.Sprintf("closure!%d", id) {
				return v.callVal(fr, in, fvv, args, reach, st, c)
			}
		}
		if strings.HasPrefix(f.name, "fn!") {
			for _, sp := range v.p.spkgs {
				for fn := range allFuncs(sp) {
					if "fn!"+sanit(fn.String()) == f.name {
						return v.callFn(fr, in, fn, args, nil, reach, st, fn.Signature)
					}
				}
			}
		}
	}
	if f.op == "ite" {
		c1, c2 := v.b.And(reach, f.args[0]), v.b.And(reach, v.b.Not(f.args[0]))
		r1, rc1, s1 := v.callTerm(fr, in, f.args[1], args, c1, st.clone(), c)
		r2, rc2, s2 := v.callTerm(fr, in, f.args[2], args, c2, st.clone(), c)
		ns, nr := v.mergeStates([]edge{{cond: rc1, st: s1}, {cond: rc2, st: s2}})
		if r1 == nil {
			return nil, nr, ns
		}
		return v.mergeVals([]*Term{f.args[0], v.b.True()}, []Val{r1, r2}, nil), nr, ns
	}
	// unknown function value: an uninterpreted function of its arguments and identity
	if v.spec == 0 {
		v.safety("function value not nil: "+v.srcText(in.Pos()), reach, v.b.Not(v.b.Eq(f, v.b.Int(0))))
	}
	v.note("calls through unknown function values are side-effect free and deterministic")
	ts := []*Term{f}
	for i, a := range args {
		ts = append(ts, v.asTerm(a, c.Signature().Params().At(i).Type()))
	}
	res := c.Signature().Results()
	var out TupleVal
	for i := 0; i < res.Len(); i++ {
		s := v.sortOf(res.At(i).Type())
		name := fmt.Sprintf("apply!%s!%d", sanit(types.TypeString(c.Signature(), nil)), i)
		t := v.b.UF(name, s, ts...)
		v.typed(st, reach, t, res.At(i).Type())
		out = append(out, t)
	}
	return pack(out), reach, st
}

func (v *VC) callFn(fr *frame, in ssa.Instruction, fn *ssa.Function, args, free []Val, reach *Term, st *State, sig *types.Signature) (Val, *Term, *State) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if name, ok := v.p.dslFn[o]; ok {
		return v.dsl(fr, in, name, fn, args, reach, st), reach, st
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method wrapper") && len(free) == 1 {
		// x.m as a value
		r, rc, s2 := v.execFn(fn, args, free, reach, st, fr.path)
		return pack(r), rc, s2
	}
	if lc := v.p.lemmas[fn]; lc != nil {
		v.applyLemma(lc, args, reach, st)
		return nil, reach, st
	}
	if v.p.recSpec[fn] {
		return v.recApp(fn, args, st), reach, st
	}
	if r, rc, s2, ok := v.model(fr, in, fn, args, reach, st); ok {
		return r, rc, s2
	}
	if con := v.contractFor(fn); con != nil && (v.spec == 0 || con.Flags["infer"] == "") {
		if v.spec > 0 {
			// in specifications a function is used through its body when possible
			if len(fn.Blocks) > 0 && !hasLoop(fn) && !v.onStack(fn) {
				r, rc, s2 := v.execFn(fn, args, free, reach, st, fr.path)
				return pack(r), rc, s2
			}
			unsup("function %s with loops used in a specification", shortFn(fn))
		}
		return v.applyContract(fr, in, con, fn, args, reach, st)
	}
	if len(fn.Blocks) > 0 && fn.Pkg != nil && (isRepoPkg(fn.Pkg.Pkg)) || fn.Parent() != nil || (fn.Synthetic != "" && len(fn.Blocks) > 0) {
		r, rc, s2 := v.execFn(fn, args, free, reach, st, fr.path)
		return pack(r), rc, s2
	}
	if fn.Pkg == nil || !isRepoPkg(fn.Pkg.Pkg) {
		return v.external(fr, in, fn, args, reach, st, sig)
	}
	unsup("call of %s", fn)
	return nil, nil, nil
}

func (v *VC) onStack(fn *ssa.Function) bool {
	for _, f := range v.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func hasLoop(fn *ssa.Function) bool { return len(getFnInfo(fn).loops) > 0 }

// external: an unmodelled library function; result arbitrary, no effect on the program's memory
func (v *VC) external(fr *frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach *Term, st *State, sig *types.Signature) (Val, *Term, *State) {
	name := fn.String()
	v.note("external %s: result arbitrary, no effect on the memory under proof, does not panic", name)
	res := fn.Signature.Results()
	var out TupleVal
	for i := 0; i < res.Len(); i++ {
		t := v.b.Fresh("ext!"+sanit(fn.Name()), v.sortOf(res.At(i).Type()))
		v.typed(st, reach, t, res.At(i).Type())
		out = append(out, t)
	}
	return pack(out), reach, st
}

func (v *VC) contractFor(fn *ssa.Function) *Contract {
	cs := v.p.byTarget[fn]
	for _, c := range cs {
		if c.Flags["nouse"] != "" {
			continue
		}
		return c
	}
	return nil
}

// ---------- interface method calls ----------

func (v *VC) invoke(fr *frame, in *ssa.Call, c *ssa.CallCommon, recv Val, args []Val, reach *Term, st *State) (Val, *Term, *State) {
	b := v.b
	x := v.asTerm(recv, c.Value.Type())
	iface := c.Value.Type().Underlying().(*types.Interface)
	mname := c.Method.Name()
	// interface-level contract
	key := typeKey(c.Value.Type()) + "." + mname
	for _, con := range v.p.contracts {
		if f := con.Flags["for"]; f != "" && (v.con == nil || v.con.Target != f) {
			continue // only used for the proof of one function
		}
		if con.Imethod != "" && strings.HasSuffix(key, "_"+con.Imethod) {
			return v.applyIfaceContract(fr, in, con, c, x, args, reach, st)
		}
	}
	if mname == "Error" && c.Method.Type().(*types.Signature).Params().Len() == 0 {
		v.safety("receiver not nil: "+v.srcText(in.Pos()), reach, b.Not(b.Is(v.cNil, x)))
		return b.UF("error!text", "String", x), reach, st
	}
	impls := v.p.implementers(iface)
	if len(impls) > 40 {
		unsup("too many implementers of %s", c.Value.Type())
	}
	if v.spec == 0 {
		v.safety("interface receiver not nil: "+v.srcText(in.Pos()), reach, b.Not(b.Is(v.cNil, x)))
	}
	// the contract may name the dynamic types which the receiver can have (an obligation of its own)
	closed := false
	if d := v.con.Flags["dispatch"]; d != "" && v.spec == 0 {
		names := map[string]bool{}
		for _, n := range strings.Split(d, ",") {
			names[n] = true
		}
		var only []types.Type
		var any []*Term
		for _, t := range impls {
			if names[dispatchName(t)] {
				only = append(only, t)
				any = append(any, b.Is(v.boxCtor(t), x))
			}
		}
		if len(only) > 0 {
			v.oblige("safety", "receiver is one of "+d+": "+v.srcText(in.Pos()), reach, b.Or(any...))
			reach = b.And(reach, b.Or(any...))
			impls, closed = only, true
		}
	}
	var es []edge
	var rest []*Term
	for _, t := range impls {
		bc := v.boxCtor(t)
		is := b.Is(bc, x)
		rest = append(rest, b.Not(is))
		cond := b.And(reach, is)
		if cond.isFalse() {
			continue
		}
		ms := v.p.ssa.MethodSets.MethodSet(t)
		var fn *ssa.Function
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == mname {
				fn = v.p.ssa.MethodValue(ms.At(i))
			}
		}
		if fn == nil {
			unsup("no method %s on %s", mname, t)
		}
		rv := b.Acc(bc, 0, x)
		v.typed(st, cond, rv, t)
		r, rc, s2 := v.callFn(fr, in, fn, append([]Val{rv}, args...), nil, cond, st.clone(), fn.Signature)
		if rc.isFalse() {
			continue
		}
		es = append(es, edge{cond: rc, st: s2, phis: []Val{r}})
	}
	// other implementations
	oc := b.And(append([]*Term{reach}, rest...)...)
	if closed {
	} else if !oc.isFalse() && !v.repoOnly(c.Value.Type()) {
		v.note("interface %s: implementations outside the repository return arbitrary values and change nothing", c.Value.Type().String())
		res := c.Signature().Results()
		var out TupleVal
		for i := 0; i < res.Len(); i++ {
			t := b.Fresh("inv!"+mname, v.sortOf(res.At(i).Type()))
			v.typed(st, oc, t, res.At(i).Type())
			out = append(out, t)
		}
		es = append(es, edge{cond: oc, st: st.clone(), phis: []Val{pack(out)}})
	} else if v.repoOnly(c.Value.Type()) {
		v.note("closed world: only repository types implement %s", c.Value.Type().String())
	}
	if len(es) == 0 {
		return nil, b.False(), st
	}
	ns, nr := v.mergeStates(es)
	var xs []Val
	var cs []*Term
	for _, e := range es {
		xs = append(xs, e.phis[0])
		cs = append(cs, e.cond)
	}
	if xs[0] == nil {
		return nil, nr, ns
	}
	return v.mergeVals(v.relConds(cs), xs, nil), nr, ns
}

// repoOnly: the interface is declared in the repository (closed world assumption)
func (v *VC) repoOnly(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && isRepoPkg(n.Obj().Pkg())
}

// ---------- builtins ----------

func (v *VC) builtin(fr *frame, in *ssa.Call, bi *ssa.Builtin, reach *Term, st *State) Val {
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, v.val(fr, a))
	}
	return v.builtinArgs(fr, in, bi, &in.Call, args, reach, st)
}

func (v *VC) builtinArgs(fr *frame, in ssa.Instruction, bi *ssa.Builtin, c *ssa.CallCommon, args []Val, reach *Term, st *State) Val {
	b := v.b
	switch bi.Name() {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			return b.Int(p.Elem().Underlying().(*types.Array).Len())
		}
		x := v.asTerm(args[0], c.Args[0].Type())
		switch tt := t.(type) {
		case *types.Basic:
			return b.StrLen(x)
		case *types.Slice:
			if bi.Name() == "cap" {
				return v.slCap(x)
			}
			return v.slLen(x)
		case *types.Map:
			return b.Ite(b.Eq(x, b.Int(0)), b.Int(0), v.mapLen(st, x, tt))
		case *types.Array:
			return b.Int(tt.Len())
		}
	case "append":
		return v.appendSlice(c, args, reach, st)
	case "copy":
		st0, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			unsup("copy")
		}
		if _, ok := c.Args[1].Type().Underlying().(*types.Slice); !ok {
			unsup("copy from string")
		}
		d, s := v.asTerm(args[0], c.Args[0].Type()), v.asTerm(args[1], c.Args[1].Type())
		n := b.Ite(b.Le(v.slLen(d), v.slLen(s)), v.slLen(d), v.slLen(s))
		k, so := v.elemKey(st0.Elem())
		h := v.hget(st, k, so)
		src := b.Select(h, v.slBase(s))
		dst := b.Select(h, v.slBase(d))
		row := b.Fresh("copy", dst.sort)
		j := b.BVar("j", "Int")
		sel := b.App("select", elemSort(row.sort), row, j)
		inR := b.And(b.Le(v.slOff(d), j), b.Lt(j, b.Add(v.slOff(d), n)))
		v.assume(reach, b.Quant("forall", []*Term{j}, b.Eq(sel, b.Ite(inR, b.App("select", elemSort(row.sort), src, b.Add(b.Sub(j, v.slOff(d)), v.slOff(s))), b.App("select", elemSort(row.sort), dst, j))), []*Term{sel}))
		st.h[k] = b.Ite(b.Eq(n, b.Int(0)), h, b.Store(h, v.slBase(d), row))
		return n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		v.mapDelete(st, v.asTerm(args[0], c.Args[0].Type()), mt, v.asTerm(args[1], c.Args[1].Type()))
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		x, y := args[0].(*Term), args[1].(*Term)
		if bi.Name() == "min" {
			return b.Ite(b.Le(x, y), x, y)
		}
		return b.Ite(b.Le(x, y), y, x)
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		v.note("recover() returns nil: no panic is in progress when the proved code runs its deferred functions")
		return v.anyNil()
	}
	unsup("builtin %s", bi.Name())
	return nil
}

func (v *VC) appendSlice(c *ssa.CallCommon, args []Val, reach *Term, st *State) Val {
	b := v.b
	sty := c.Args[0].Type().Underlying().(*types.Slice)
	s := v.asTerm(args[0], c.Args[0].Type())
	k, so := v.elemKey(sty.Elem())
	if _, ok := c.Args[1].Type().Underlying().(*types.Basic); ok {
		// append([]byte, string...)
		x := v.asTerm(args[1], c.Args[1].Type())
		h := v.hget(st, k, so)
		row := b.Fresh("bytes", arrSort("Int", "Int"))
		nb := v.newRef(st)
		n := b.Add(v.slLen(s), b.StrLen(x))
		old := b.Select(h, v.slBase(s))
		v.assume(reach, b.Eq(v.bytesToStr(row, b.Int(0), n), b.Concat(v.bytesToStr(old, v.slOff(s), v.slLen(s)), x)))
		st.h[k] = b.Store(h, nb, row)
		v.note("append([]byte, string...) modelled as always reallocating")
		return v.mkSlice(nb, b.Int(0), n, n)
	}
	x := v.asTerm(args[1], c.Args[1].Type())
	n := v.slLen(x)
	if z, ok := n.intVal(); ok && z == 0 {
		return s
	}
	h := v.hget(st, k, so)
	ls := v.slLen(s)
	total := b.Add(ls, n)
	inplace := b.Le(total, v.slCap(s))
	if cp, ok := v.slCap(s).intVal(); ok && cp == 0 {
		inplace = b.False()
	}
	nb := v.newRef(st)
	ncap := b.Fresh("cap", "Int")
	v.assume(reach, b.Le(total, ncap))
	if v.spec > 0 {
		ncap = total
	}
	oldrow := b.Select(h, v.slBase(s))
	srcrow := b.Select(h, v.slBase(x))
	// The reallocated array is laid out with the slice at the same offset, which no program can
	// observe; so both cases write the same row, only its identity differs.
	var row *Term
	e := elemSort(oldrow.sort)
	start := b.Add(v.slOff(s), ls)
	if cnt, lit := n.intVal(); lit && cnt <= 8 {
		row = oldrow
		for i := int64(0); i < cnt; i++ {
			row = b.Store(row, b.Add(start, b.Int(i)), b.Select(srcrow, b.Add(v.slOff(x), b.Int(i))))
		}
	} else {
		row = b.Fresh("row", oldrow.sort)
		j := b.BVar("j", "Int")
		sel := b.App("select", e, row, j)
		inR := b.And(b.Le(start, j), b.Lt(j, b.Add(start, n)))
		osel := b.App("select", e, oldrow, j)
		pats := [][]*Term{{sel}}
		if !hasOp(oldrow, "ite", "store") {
			pats = append(pats, []*Term{osel})
		}
		v.assume(reach, b.Quant("forall", []*Term{j}, b.Eq(sel, b.Ite(inR, b.App("select", e, srcrow, b.Add(b.Sub(j, start), v.slOff(x))), osel)), pats...))
		if !hasOp(srcrow, "ite", "store") {
			j2 := b.BVar("j", "Int")
			ssel := b.App("select", e, srcrow, j2)
			v.assume(reach, b.Quant("forall", []*Term{j2}, b.Implies(b.And(b.Le(v.slOff(x), j2), b.Lt(j2, b.Add(v.slOff(x), n))),
				b.Eq(ssel, b.App("select", e, row, b.Add(b.Sub(j2, v.slOff(x)), start)))), []*Term{ssel}))
		}
	}
	if v.spec > 0 {
		st.h[k] = b.Store(h, nb, row)
		return v.mkSlice(nb, v.slOff(s), total, ncap)
	}
	ab := b.Ite(inplace, v.slBase(s), nb)
	st.h[k] = b.Store(h, ab, row)
	return v.mkSlice(ab, v.slOff(s), total, b.Ite(inplace, v.slCap(s), ncap))
}

// ---------- DSL ----------

func (v *VC) closureArg(x Val) *FuncVal {
	switch f := x.(type) {
	case *FuncVal:
		return f
	case *Term:
		// MakeInterface(closure)
		if c := v.b.dts.ctorOf(f); c != nil && len(f.args) == 1 {
			return v.closureArg(f.args[0])
		}
		if f.op == "const" {
			for fv, id := range v.fnIds {
				if f.name == fmt.Sprintf("closure!%d", id) {
					return fv
				}
			}
			if strings.HasPrefix(f.name, "fn!") {
				for _, sp := range v.p.spkgs {
					for fn := range allFuncs(sp) {
						if "fn!"+sanit(fn.String()) == f.name {
							return &FuncVal{fn: fn}
						}
					}
				}
			}
		}
	}
	unsup("specification closure expected")
	return nil
}

func (v *VC) evalClosure(f *FuncVal, args []Val, st *State) Val {
	v.spec++
	defer func() { v.spec-- }()
	if f.native != nil {
		return f.native(args, st)
	}
	saved := v.stack
	v.stack = nil
	defer func() { v.stack = saved }()
	r, _, _ := v.execFn(f.fn, args, f.free, v.b.True(), st.clone(), "spec")
	return pack(r)
}

func (v *VC) dsl(fr *frame, in ssa.Instruction, name string, fn *ssa.Function, args []Val, reach *Term, st *State) Val {
	b := v.b
	switch name {
	case "requires":
		if v.collect != nil {
			v.collect.reqs = append(v.collect.reqs, clause{b.Implies(reach, args[0].(*Term)), v.srcText(in.Pos())})
		}
		return nil
	case "trusts":
		if v.collect != nil {
			v.collect.trusts = append(v.collect.trusts, clause{b.Implies(reach, args[0].(*Term)), v.srcText(in.Pos())})
			v.note("taken for granted in the contract of %s: %s", fr.fn.Name(), v.srcText(in.Pos()))
		}
		return nil
	case "ensures":
		if v.collect != nil {
			v.collect.ens = append(v.collect.ens, clause{b.Implies(reach, args[0].(*Term)), v.srcText(in.Pos())})
		}
		return nil
	case "assertThat":
		if v.collect != nil {
			v.collect.ens = append(v.collect.ens, clause{b.Implies(reach, args[0].(*Term)), v.srcText(in.Pos())})
		}
		return nil
	case "decreases":
		if v.collect != nil {
			v.collect.decr = append(v.collect.decr, args[0].(*Term))
		}
		return nil
	case "invariant":
		if v.collect != nil {
			v.collect.invs = append(v.collect.invs, v.closureArg(args[0]))
			v.collect.st = st
		}
		return nil
	case "modifies":
		if v.collect != nil {
			v.collectMods(args[0].(*Term), st)
		}
		return nil
	case "old":
		f := v.closureArg(args[0])
		if len(v.preStack) == 0 {
			unsup("old() outside of a contract")
		}
		pre := v.preStack[len(v.preStack)-1]
		s2 := pre.clone()
		for c, x := range st.c {
			s2.c[c] = x
		}
		v.preStack = append(v.preStack, pre)
		r := v.evalClosure(f, nil, s2)
		v.preStack = v.preStack[:len(v.preStack)-1]
		return r
	case "forall", "exists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := v.closureArg(args[2])
		i := b.BVar("i", "Int")
		body := v.evalClosure(f, []Val{i}, st).(*Term)
		rng := b.And(b.Le(lo, i), b.Lt(i, hi))
		if name == "forall" {
			return b.Quant("forall", []*Term{i}, b.Implies(rng, body))
		}
		return b.Quant("exists", []*Term{i}, b.And(rng, body))
	case "forallStr", "existsStr":
		f := v.closureArg(args[1])
		i := b.BVar("s", "String")
		body := v.evalClosure(f, []Val{i}, st).(*Term)
		if name == "forallStr" {
			return b.Quant("forall", []*Term{i}, body)
		}
		return b.Quant("exists", []*Term{i}, body)
	case "lemmaAll":
		f := v.closureArg(args[0])
		var vars []*Term
		var as []Val
		for _, p := range f.fn.Params {
			x := b.BVar("l", v.sortOf(p.Type()))
			vars = append(vars, x)
			as = append(as, x)
		}
		n := len(v.lemAcc)
		v.lemDepth++
		v.evalClosure(f, as, st)
		v.lemDepth--
		for _, t := range v.lemAcc[n:] {
			v.assumes = append(v.assumes, b.Quant("forall", vars, t, patsFor(t, vars)...))
		}
		v.lemAcc = v.lemAcc[:n]
		return nil
	case "ite":
		t := fn.Signature.Params().At(1).Type()
		return b.Ite(args[0].(*Term), v.asTerm(args[1], t), v.asTerm(args[2], t))
	case "same":
		return b.Eq(args[0].(*Term), args[1].(*Term))
	case "fresh":
		return v.freshCond(args[0].(*Term), st)
	case "valid":
		// every value of a program is well-formed: it refers to allocated memory
		if x := args[0].(*Term); x.bound {
			// under a quantifier: the fact itself (in trusts() only)
			if f := v.typeFact(st, x, fn.Signature.Params().At(0).Type()); f != nil {
				return f
			}
			return b.True()
		}
		sp := v.spec
		v.spec = 0
		v.typed(st, reach, args[0].(*Term), fn.Signature.Params().At(0).Type())
		v.spec = sp
		return b.True()
	case "separate":
		x, y := v.refOf(args[0].(*Term)), v.refOf(args[1].(*Term))
		return b.Or(b.Not(b.Eq(x, y)), b.Eq(x, b.Int(0)))
	case "seqEq":
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		x, y := args[0].(*Term), args[1].(*Term)
		i := b.BVar("i", "Int")
		ex, ey := v.elemAt(st, x, et, i), v.elemAt(st, y, et, i)
		return b.And(b.Eq(v.slLen(x), v.slLen(y)), b.Quant("forall", []*Term{i}, b.Implies(b.And(b.Le(b.Int(0), i), b.Lt(i, v.slLen(x))), b.Eq(ex, ey))))
	case "mapKeys":
		return v.mkSlice(b.Int(0), b.Int(0), b.Int(0), b.Int(0))
	case "hasKey":
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		return v.mapHas(st, args[0].(*Term), mt, args[1].(*Term))
	}
	if h, ok := dslExtra[name]; ok {
		return h(v, fn, args, reach, st)
	}
	unsup("dsl %s", name)
	return nil
}

var dslExtra = map[string]func(v *VC, fn *ssa.Function, args []Val, reach *Term, st *State) Val{}

func patsFor(t *Term, vars []*Term) [][]*Term {
	// recursive spec applications containing all variables
	var out [][]*Term
	seen := map[*Term]bool{}
	var cover []*Term
	got := map[*Term]bool{}
	var walk func(t *Term)
	contains := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if !t.bound {
				return
			}
			if t.op == "var" {
				m[t] = true
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(t)
		return m
	}
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.rec {
			m := contains(t)
			all := true
			for _, x := range vars {
				if !m[x] {
					all = false
				}
			}
			if all {
				out = append(out, []*Term{t})
			} else {
				add := false
				for _, x := range vars {
					if m[x] && !got[x] {
						got[x] = true
						add = true
					}
				}
				if add {
					cover = append(cover, t)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	if len(out) == 0 && len(got) == len(vars) {
		out = append(out, cover)
	}
	if len(out) > 3 {
		out = out[:3]
	}
	return out
}

func (v *VC) elemAt(st *State, s *Term, et types.Type, i *Term) *Term {
	k, so := v.elemKey(et)
	return v.b.Select(v.b.Select(v.hget(st, k, so), v.slBase(s)), v.b.Add(v.slOff(s), i))
}

// refOf: the memory identity of a boxed pointer/slice/map
func (v *VC) refOf(x *Term) *Term {
	c := v.b.dts.ctorOf(x)
	if c == nil || len(c.fields) == 0 {
		unsup("fresh/separate/modifies need a statically typed argument")
	}
	switch c.fields[0] {
	case "Int":
		return x.args[0]
	case "Slice":
		return v.slBase(x.args[0])
	}
	unsup("fresh/separate of %s", c.fields[0])
	return nil
}

func (v *VC) freshCond(x *Term, st *State) *Term {
	b := v.b
	if len(v.preStack) == 0 {
		unsup("fresh() outside of a contract")
	}
	a := v.alloc(v.preStack[len(v.preStack)-1])
	c := b.dts.ctorOf(x)
	if c != nil && len(c.fields) == 1 && c.fields[0] == "Slice" {
		s := x.args[0]
		return b.Or(b.And(b.Le(a, v.slBase(s)), b.Lt(v.slBase(s), v.alloc(st))), b.Eq(v.slCap(s), b.Int(0)))
	}
	r := v.refOf(x)
	return b.Or(b.And(b.Le(a, r), b.Lt(r, v.alloc(st))), b.Eq(r, b.Int(0)))
}

func (v *VC) collectMods(sl *Term, st *State) {
	// variadic []interface{} with literal length
	n, ok := v.slLen(sl).intVal()
	if !ok {
		unsup("modifies")
	}
	k, so := v.elemKey(types.NewInterfaceType(nil, nil))
	_ = k
	for i := int64(0); i < n; i++ {
		row := v.b.Select(v.hget(st, "A!any", so), v.slBase(sl))
		x := v.b.Select(row, v.b.Add(v.slOff(sl), v.b.Int(i)))
		c := v.b.dts.ctorOf(x)
		if c == nil {
			unsup("modifies needs statically typed arguments")
		}
		var bt types.Type
		for _, t := range v.boxTypes {
			if v.boxCtor(t) == c {
				bt = t
			}
		}
		switch u := bt.Underlying().(type) {
		case *types.Pointer:
			v.collect.mods = append(v.collect.mods, modEntry{kind: "ptr", ref: x.args[0], typ: u.Elem()})
		case *types.Slice:
			v.collect.mods = append(v.collect.mods, modEntry{kind: "slice", ref: v.slBase(x.args[0]), typ: u.Elem()})
		case *types.Map:
			v.collect.mods = append(v.collect.mods, modEntry{kind: "map", ref: x.args[0], typ: bt})
		default:
			unsup("modifies %s", bt)
		}
	}
}

func (v *VC) modKeys(m modEntry) []string {
	switch m.kind {
	case "ptr":
		if v.isBuilder(m.typ) || v.isOpaque(m.typ) {
			k, _ := v.ptrKey(m.typ)
			return []string{k}
		}
		if s, ok := m.typ.Underlying().(*types.Struct); ok {
			var out []string
			for i := 0; i < s.NumFields(); i++ {
				k, _ := v.fieldKey(m.typ, i)
				out = append(out, k)
			}
			return out
		}
		k, _ := v.ptrKey(m.typ)
		return []string{k}
	case "slice":
		k, _ := v.elemKey(m.typ)
		return []string{k}
	case "map":
		d, va, l, _, _ := v.mapKeys(m.typ.Underlying().(*types.Map))
		return []string{d, va, l}
	}
	return nil
}

// expandMods makes one entry per heap key
func (v *VC) expandMods(ms []modEntry) []modEntry {
	var out []modEntry
	for _, m := range ms {
		for _, k := range v.modKeys(m) {
			out = append(out, modEntry{kind: m.kind, ref: m.ref, typ: m.typ, key: k})
		}
	}
	return out
}

// ---------- contracts at call sites ----------

// runContract evaluates the contract function with the given arguments in st (spec mode) and collects its clauses.
func (v *VC) runContract(con *Contract, args []Val, st *State, pre *State) *collector {
	v.spec++
	savedC, savedS := v.collect, v.stack
	v.collect = &collector{}
	v.stack = nil
	v.preStack = append(v.preStack, pre)
	defer func() {
		v.spec--
		v.collect = savedC
		v.stack = savedS
		v.preStack = v.preStack[:len(v.preStack)-1]
	}()
	if len(args) != len(con.Fn.Params) {
		unsup("contract %s: %d parameters, expected %d", con.Name(), len(con.Fn.Params), len(args))
	}
	if con.Recv != nil {
		args = append([]Val{v.b.Ctor(v.boxCtor(con.Recv), v.asTerm(args[0], con.Recv))}, args[1:]...)
	}
	_, _, _ = v.execFn(con.Fn, args, nil, v.b.True(), st.clone(), "contract")
	return v.collect
}

func (v *VC) freshResults(fn *types.Signature, name string) []Val {
	var out []Val
	for i := 0; i < fn.Results().Len(); i++ {
		out = append(out, v.b.Fresh("res!"+sanit(name), v.sortOf(fn.Results().At(i).Type())))
	}
	return out
}

func (v *VC) materialize(args []Val, sig *types.Signature, recvT types.Type, st *State) []Val {
	out := make([]Val, len(args))
	for i, a := range args {
		switch x := a.(type) {
		case *PathVal:
			var ty types.Type
			if recvT != nil {
				if i == 0 {
					ty = recvT
				} else {
					ty = sig.Params().At(i - 1).Type()
				}
			} else {
				ty = sig.Params().At(i).Type()
			}
			out[i] = v.asTerm(x, ty)
		default:
			out[i] = a
		}
	}
	return out
}

func (v *VC) applyContract(fr *frame, in ssa.Instruction, con *Contract, fn *ssa.Function, args []Val, reach *Term, st *State) (Val, *Term, *State) {
	b := v.b
	v.used[con.Name()] = true
	v.usedCon[con] = true
	var recvT types.Type
	if fn.Signature.Recv() != nil {
		recvT = fn.Signature.Recv().Type()
	}
	args = v.materialize(args, fn.Signature, recvT, st)
	pre := st.clone()
	res := v.freshResults(fn.Signature, fn.Name())
	col := v.runContract(con, append(append([]Val{}, args...), res...), st, pre)
	for _, r := range col.reqs {
		v.oblige("requires@call", fmt.Sprintf("%s at call in %s: %s", shortFn(fn), shortFn(fr.fn), r.text), reach, r.cond)
	}
	for _, r := range col.trusts {
		v.assume(reach, r.cond)
	}
	// termination of recursion
	if v.con != nil && v.con.Tgt == fn && len(col.decr) > 0 && v.entryDecr != nil {
		v.oblige("decreases", fmt.Sprintf("recursive call of %s: %s", shortFn(fn), v.srcText(in.Pos())), reach, v.lexLess(col.decr, v.entryDecr))
	}
	v.havocFor(con, fn, col, reach, st)
	if con.Flags["havoc"] != "" {
		v.keepLocal(fr, pre, st)
	}
	for i, r := range res {
		v.typed(st, reach, r.(*Term), fn.Signature.Results().At(i).Type())
	}
	col2 := v.runContract(con, append(append([]Val{}, args...), res...), st, pre)
	for _, e := range col2.ens {
		v.assume(reach, e.cond)
	}
	_ = b
	return pack(TupleVal(res)), reach, st
}

func (v *VC) lexLess(now, entry []*Term) *Term {
	b := v.b
	r := b.False()
	for i := len(now) - 1; i >= 0; i-- {
		lt := b.And(b.Le(b.Int(0), now[i]), b.Lt(now[i], entry[i]))
		if i == len(now)-1 {
			r = lt
		} else {
			r = b.Or(lt, b.And(b.Eq(now[i], entry[i]), r))
		}
	}
	return r
}

// keeps: the frame of this part of the heap is proved in spite of the `havoc` flag
func (c *Contract) keeps(key string) bool {
	for _, k := range strings.Split(c.Flags["keeps"], ",") {
		if k == key {
			return true
		}
	}
	return false
}

func (v *VC) havocFor(con *Contract, fn *ssa.Function, col *collector, reach *Term, st *State) {
	v.havocEff(con, v.effects(fn), col, reach, st)
}

func (v *VC) havocEff(con *Contract, eff map[string]bool, col *collector, reach *Term, st *State) {
	b := v.b
	// allocation
	if eff["alloc"] {
		a := b.Fresh("alloc", "Int")
		v.assume(reach, b.Le(v.alloc(st), a))
		st.h["alloc"] = a
	}
	if con.Flags["havoc"] != "" { // no frame is claimed: everything the code may write is unknown afterwards
		free := map[string]bool{}
		for k := range eff {
			// except where the frame is proved: existing objects stay the same there
			free[k] = eff[k] && !con.keeps(k)
		}
		for k := range free {
			if !free[k] {
				delete(free, k)
			}
		}
		v.havocKeys(free, st)
		return
	}
	mods := v.expandMods(col.mods)
	byKey := map[string][]*Term{}
	for _, m := range mods {
		byKey[m.key] = append(byKey[m.key], m.ref)
	}
	for _, k := range keysOf(byKey) {
		srt := v.heapSorts[k]
		if srt == "" {
			continue
		}
		if !eff[k] {
			continue
		}
		h := v.hget(st, k, srt)
		for _, r := range byKey[k] {
			h = b.Store(h, r, b.Fresh("mod!"+k, elemSort(srt)))
		}
		st.h[k] = h
	}
	for k := range eff {
		if strings.HasPrefix(k, "G!") {
			st.h[k] = b.Fresh("mod!"+k, v.heapSorts[k])
		}
	}
	// everything else: unchanged on existing objects (proved as the callee's frame obligations);
	// contents of objects allocated by the callee are the so far unconstrained values of the heap there.
}

// keepLocal: objects made by this activation whose address has not left it are out of reach of the callee
func (v *VC) keepLocal(fr *frame, pre, st *State) {
	b := v.b
	if v.spec > 0 {
		return
	}
	for _, bl := range fr.fn.Blocks {
		for _, in := range bl.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || !a.Heap || !staysLocal(a) {
				continue
			}
			ref, ok := fr.vals[a].(*Term)
			if !ok || ref.sort != "Int" {
				continue
			}
			for _, k := range v.modKeys(modEntry{kind: "ptr", typ: a.Type().Underlying().(*types.Pointer).Elem()}) {
				h0, h1 := pre.h[k], st.h[k]
				if h0 != nil && h1 != nil && h0 != h1 {
					st.h[k] = b.Store(h1, ref, b.Select(h0, ref))
				}
			}
		}
	}
}

// staysLocal: the address is only used to read and write fields, and to be returned
func staysLocal(a *ssa.Alloc) bool {
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var ok func(x ssa.Value) bool
	ok = func(x ssa.Value) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Return:
			case *ssa.Phi:
				if !ok(r) {
					return false
				}
			case *ssa.FieldAddr:
				for _, u := range *r.Referrers() {
					switch u := u.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
					case *ssa.Store:
						if u.Val == r {
							return false
						}
					default:
						return false
					}
				}
			case *ssa.Store:
				if r.Val == x {
					return false
				}
			case *ssa.UnOp:
			default:
				return false
			}
		}
		return true
	}
	return ok(a)
}

func (v *VC) havocKeys(eff map[string]bool, st *State) {
	for _, k := range keysOf(eff) {
		if srt := v.heapSorts[k]; srt != "" && k != "alloc" {
			st.h[k] = v.b.Fresh("any!"+k, srt)
		}
	}
}

// effects returns the heap keys that fn may write (directly or transitively).
func (v *VC) effects(fn *ssa.Function) map[string]bool {
	if e, ok := v.anyEff[fn]; ok {
		return e
	}
	e := map[string]bool{"alloc": true}
	v.anyEff[fn] = e
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	var walkType func(t types.Type)
	walkType = func(t types.Type) {}
	_ = walkType
	addStruct := func(t types.Type) {
		for _, k := range v.modKeys(modEntry{kind: "ptr", typ: t}) {
			e[k] = true
		}
	}
	var addAddr func(a ssa.Value)
	addAddr = func(a ssa.Value) {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			// writing through nested field: the root location
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				addAddr(x.X)
				return
			}
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			k, s := v.fieldKey(st, x.Field)
			v.heapSorts[k] = s
			e[k] = true
		case *ssa.IndexAddr:
			var et types.Type
			switch t := x.X.Type().Underlying().(type) {
			case *types.Slice:
				et = t.Elem()
			case *types.Pointer:
				switch x.X.(type) {
				case *ssa.FieldAddr:
					addAddr(x.X)
					return
				}
				et = t.Elem().Underlying().(*types.Array).Elem()
			}
			k, s := v.elemKey(et)
			v.heapSorts[k] = s
			e[k] = true
		case *ssa.Global:
			k := "G!" + sanit(x.String())
			v.heapSorts[k] = v.sortOf(x.Type().Underlying().(*types.Pointer).Elem())
			e[k] = true
		default:
			t := a.Type().Underlying().(*types.Pointer).Elem()
			if at, ok := t.Underlying().(*types.Array); ok {
				k, s := v.elemKey(at.Elem())
				v.heapSorts[k] = s
				e[k] = true
				return
			}
			addStruct(t)
		}
	}
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if al, ok := in.Addr.(*ssa.Alloc); ok && isSimpleAlloc(al) {
						continue
					}
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
						if al, ok := ia.X.(*ssa.Alloc); ok && isFormatArgs(al) {
							continue
						}
					}
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(unsupported); !ok {
									panic(r)
								}
							}
						}()
						addAddr(in.Addr)
					}()
				case *ssa.MapUpdate:
					d, va, l, ks, vs := v.mapKeys(in.Map.Type().Underlying().(*types.Map))
					v.heapSorts[d], v.heapSorts[va], v.heapSorts[l] = arrSort("Int", arrSort(ks, "Bool")), arrSort("Int", arrSort(ks, vs)), arrSort("Int", "Int")
					e[d], e[va], e[l] = true, true, true
				case *ssa.MakeClosure:
					walk(in.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
							k, s := v.elemKey(et)
							v.heapSorts[k] = s
							e[k] = true
						case "delete":
							d, va, l, _, _ := v.mapKeys(c.Args[0].Type().Underlying().(*types.Map))
							e[d], e[va], e[l] = true, true, true
						}
						continue
					}
					if c.IsInvoke() {
						it, ok := c.Value.Type().Underlying().(*types.Interface)
						if ok {
							for _, t := range v.p.implementers(it) {
								ms := v.p.ssa.MethodSets.MethodSet(t)
								for i := 0; i < ms.Len(); i++ {
									if ms.At(i).Obj().Name() == c.Method.Name() {
										walk(v.p.ssa.MethodValue(ms.At(i)))
									}
								}
							}
						}
						continue
					}
					if g := c.StaticCallee(); g != nil {
						v.modelEffects(g, c, e)
						if g.Pkg == nil || isRepoPkg(g.Pkg.Pkg) || g.Parent() != nil {
							walk(g)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return e
}

func (v *VC) modelEffects(g *ssa.Function, c *ssa.CallCommon, e map[string]bool) {
	n := g.String()
	if strings.HasPrefix(n, "(*strings.Builder)") {
		k := "P!strings_Builder"
		v.heapSorts[k] = arrSort("Int", "String")
		e[k] = true
		// embedded builders: any struct field of that type
		if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
			k, s := v.fieldKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
			v.heapSorts[k] = s
			e[k] = true
		}
	}
	if strings.HasPrefix(n, "sort.") {
		if len(c.Args) > 0 {
			if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				k, s := v.elemKey(st.Elem())
				v.heapSorts[k] = s
				e[k] = true
			}
		}
	}
	if h, ok := effExtra[n]; ok {
		for _, k := range h {
			e[k] = true
		}
	}
}

var effExtra = map[string][]string{}

func (v *VC) applyIfaceContract(fr *frame, in *ssa.Call, con *Contract, c *ssa.CallCommon, x *Term, args []Val, reach *Term, st *State) (Val, *Term, *State) {
	v.used[con.Name()] = true
	v.usedCon[con] = true
	pre := st.clone()
	sig := c.Signature()
	res := v.freshResults(sig, c.Method.Name())
	if v.spec == 0 {
		v.safety("interface receiver not nil: "+v.srcText(in.Pos()), reach, v.b.Not(v.b.Is(v.cNil, x)))
	}
	all := append([]Val{x}, args...)
	all = append(all, res...)
	col := v.runContract(con, all, st, pre)
	for _, r := range col.reqs {
		v.oblige("requires@call", fmt.Sprintf("%s at call in %s: %s", con.Target, shortFn(fr.fn), r.text), reach, r.cond)
	}
	for _, r := range col.trusts {
		v.assume(reach, r.cond)
	}
	eff := map[string]bool{}
	for _, t := range v.p.implementers(c.Value.Type().Underlying().(*types.Interface)) {
		ms := v.p.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == c.Method.Name() {
				for k := range v.effects(v.p.ssa.MethodValue(ms.At(i))) {
					eff[k] = true
				}
			}
		}
	}
	v.havocEff(con, eff, col, reach, st)
	if con.Flags["havoc"] != "" {
		v.keepLocal(fr, pre, st)
	}
	for i, r := range res {
		v.typed(st, reach, r.(*Term), sig.Results().At(i).Type())
	}
	col2 := v.runContract(con, all, st, pre)
	for _, e := range col2.ens {
		v.assume(reach, e.cond)
	}
	return pack(TupleVal(res)), reach, st
}

// ---------- lemmas ----------

func (v *VC) applyLemma(lc *Contract, args []Val, reach *Term, st *State) {
	b := v.b
	v.used[lc.Name()] = true
	v.usedCon[lc] = true
	v.spec++
	savedC, savedS := v.collect, v.stack
	v.collect = &collector{}
	v.stack = nil
	pre := st
	v.preStack = append(v.preStack, pre)
	savedL := v.lemNested
	v.lemNested = true
	func() {
		if savedL {
			return // nested lemma calls inside a lemma being used as a fact are not expanded
		}
		v.execFn(lc.Fn, args, nil, b.True(), st.clone(), "lemma")
	}()
	v.lemNested = savedL
	col := v.collect
	v.collect = savedC
	v.stack = savedS
	v.preStack = v.preStack[:len(v.preStack)-1]
	v.spec--
	if savedL {
		return
	}
	var rs, es []*Term
	for _, r := range col.reqs {
		rs = append(rs, r.cond)
	}
	for _, e := range col.ens {
		es = append(es, e.cond)
	}
	fact := b.Implies(b.And(reach, b.And(rs...)), b.And(es...))
	// induction inside the lemma's own proof: the measure must decrease
	if v.lemmaMode == lc.Fn {
		if len(col.decr) == 0 {
			unsup("recursive lemma %s without decreases", lc.Name())
		}
		v.obls = append(v.obls, &Obl{name: "induction measure of " + lc.Name() + " decreases", kind: "decreases", goal: b.Implies(reach, v.lexLess(col.decr, v.entryDecr)), nAss: len(v.assumes)})
	}
	if v.lemDepth > 0 {
		v.lemAcc = append(v.lemAcc, fact)
		return
	}
	if fact.bound {
		return
	}
	v.assumes = append(v.assumes, fact)
}

// ---------- recursive specification functions ----------

func (v *VC) recInfoFor(fn *ssa.Function) *recInfo {
	if r, ok := v.recs[fn]; ok {
		return r
	}
	// mutually recursive functions share one footprint
	group := []*recInfo{}
	var members []*ssa.Function
	for g := range v.p.recSpec {
		if g == fn || v.p.reaches(fn, g, map[*ssa.Function]bool{}) && v.p.reaches(g, fn, map[*ssa.Function]bool{}) {
			if v.recs[g] == nil {
				members = append(members, g)
			}
		}
	}
	sort.Slice(members, func(i, j int) bool { return members[i].String() < members[j].String() })
	for _, g := range members {
		ri := &recInfo{name: "spec!" + sanit(shortFn(g)), fn: g, slices: map[int]bool{}}
		res := g.Signature.Results()
		if res.Len() != 1 {
			unsup("recursive spec function %s must have one result", g)
		}
		ri.ret = v.sortOf(res.At(0).Type())
		if ri.ret == "Slice" {
			unsup("recursive spec function %s returns a slice", g)
		}
		v.recs[g] = ri
		v.recByName[ri.name] = ri
		group = append(group, ri)
	}
	for iter := 0; ; iter++ {
		if iter > 12 {
			unsup("heap footprint of %s does not stabilise", fn)
		}
		used := map[string]string{}
		for _, ri := range group {
			v.recBody(ri, used)
		}
		keys := map[string]bool{}
		for _, k := range group[0].keys {
			keys[k] = true
		}
		grow := false
		for k := range used {
			if !keys[k] {
				keys[k] = true
				grow = true
			}
		}
		if !grow {
			break
		}
		for _, ri := range group {
			ri.keys, ri.keySort = nil, nil
			for _, k := range keysOf(keys) {
				if used[k] != "" {
					v.heapSorts[k] = used[k]
				}
				ri.keys = append(ri.keys, k)
				ri.keySort = append(ri.keySort, v.heapSorts[k])
			}
		}
	}
	for _, ri := range group {
		ri.ready = true
	}
	return v.recs[fn]
}

// recBody computes the body of a recursive spec function with the footprint known so far; used collects the
// heap components which occur in it.
func (v *VC) recBody(ri *recInfo, used map[string]string) {
	b := v.b
	fn := ri.fn
	res := fn.Signature.Results()
	st := &State{h: map[string]*Term{}, c: map[*cell]Val{}, root: "RF!" + sanit(fn.Name())}
	var args []Val
	ri.formals = nil
	ri.rowArgs = nil
	for i, p := range fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			ri.slices[i] = true
			es := v.sortOf(sl.Elem())
			row := b.Const(fmt.Sprintf("rf!%s!%d!row", sanit(fn.Name()), i), arrSort("Int", es))
			off := b.Const(fmt.Sprintf("rf!%s!%d!off", sanit(fn.Name()), i), "Int")
			ln := b.Const(fmt.Sprintf("rf!%s!%d!len", sanit(fn.Name()), i), "Int")
			ri.rowArgs = append(ri.rowArgs, len(ri.formals))
			ri.formals = append(ri.formals, row, off, ln)
			k, so := v.elemKey(sl.Elem())
			base := b.Int(int64(-1000 - i))
			h := v.hget(st, k, so)
			st.h[k] = b.Store(h, base, row)
			args = append(args, v.mkSlice(base, off, ln, ln))
		} else {
			s := v.sortOf(p.Type())
			t := b.Const(fmt.Sprintf("rf!%s!%d", sanit(fn.Name()), i), s)
			ri.formals = append(ri.formals, t)
			args = append(args, t)
		}
	}
	for i, k := range ri.keys {
		ri.formals = append(ri.formals, b.Const(st.root+"!"+k, ri.keySort[i]))
	}
	v.spec++
	savedS := v.stack
	v.stack = nil
	savedC := v.collect
	v.collect = nil
	savedR := v.recMode
	v.recMode = true
	r, _, _ := v.execFn(fn, args, nil, b.True(), st, "rec")
	v.recMode = savedR
	v.collect = savedC
	v.stack = savedS
	v.spec--
	ri.body = v.asTerm(r[0], res.At(0).Type())
	seen := map[*Term]bool{}
	var walk func(t *Term)
	pre := st.root + "!"
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "const" && strings.HasPrefix(t.name, pre) {
			used[t.name[len(pre):]] = t.sort
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(ri.body)
}

func stripNeg(t *Term) *Term {
	for t.op == "store" {
		n, ok := t.args[1].intVal()
		if !ok || n >= 0 {
			break
		}
		t = t.args[0]
	}
	return t
}

func (v *VC) recApp(fn *ssa.Function, args []Val, st *State) Val {
	ri := v.recInfoFor(fn)
	var ts []*Term
	for i, p := range fn.Params {
		t := v.asTerm(args[i], p.Type())
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			k, so := v.elemKey(sl.Elem())
			ts = append(ts, v.b.Select(v.hget(st, k, so), v.slBase(t)), v.slOff(t), v.slLen(t))
		} else {
			ts = append(ts, t)
		}
	}
	for i, k := range ri.keys {
		ts = append(ts, stripNeg(v.hget(st, k, ri.keySort[i])))
	}
	// the declaration may be re-made with a longer signature while the footprint is being computed
	name := fmt.Sprintf("%s/%d", ri.name, len(ri.keys))
	v.recByName[name] = ri
	t := v.b.UF(name, ri.ret, ts...)
	t.rec = true
	return t
}

// fromEntry: the term is made of the parameters and of what was in memory when the function was entered, so
// that every reference in it is older than the function's own allocations
func (v *VC) fromEntry(t *Term) bool {
	if r, ok := v.entryMemo[t]; ok {
		return r
	}
	if v.entryMemo == nil {
		v.entryMemo = map[*Term]bool{}
	}
	ok := !t.bound
	switch {
	case t.op == "const":
		ok = ok && (strings.HasPrefix(t.name, "p!") || strings.HasPrefix(t.name, "H0!") && t.name != "H0!alloc")
	case strings.HasPrefix(t.op, "uf:") && !t.rec, t.op == "forall", t.op == "exists":
		ok = false
	}
	for _, a := range t.args {
		ok = ok && v.fromEntry(a)
	}
	v.entryMemo[t] = ok
	return ok
}

// entryFrame: x is the value of a recursive spec function on entry, y its value in another memory, on the same
// arguments.  What is reachable from the arguments on entry was there on entry, so the two agree if the two
// memories agree on the objects which were there.
func (v *VC) entryFrame(ri *recInfo, x, y *Term) *Term {
	b := v.b
	n := len(x.args)
	np := n - len(ri.keys)
	if len(ri.keys) == 0 || len(y.args) != n {
		return nil
	}
	entry := func(t *Term) bool {
		for _, h := range t.args[np:] {
			if h.op != "const" || !strings.HasPrefix(h.name, "H0!") {
				return false
			}
		}
		return true
	}
	if !entry(x) {
		x, y = y, x
	}
	if !entry(x) || entry(y) {
		return nil
	}
	isRow := map[int]bool{}
	for _, k := range ri.rowArgs {
		isRow[k] = true
	}
	var prem []*Term
	for k := 0; k < np; k++ {
		if so := x.args[k].sort; so != "String" && so != "Bool" && !v.fromEntry(x.args[k]) {
			return nil
		}
		if x.args[k] == y.args[k] {
			continue
		}
		if isRow[k] {
			q := b.BVar("f", "Int")
			off, ln := x.args[k+1], x.args[k+2]
			s1 := b.App("select", elemSort(x.args[k].sort), x.args[k], q)
			s2 := b.App("select", elemSort(x.args[k].sort), y.args[k], q)
			prem = append(prem, b.Quant("forall", []*Term{q}, b.Implies(b.And(b.Le(off, q), b.Lt(q, b.Add(off, ln))), b.Eq(s1, s2))))
			continue
		}
		prem = append(prem, b.Eq(x.args[k], y.args[k]))
	}
	for k := np; k < n; k++ {
		if x.args[k] == y.args[k] {
			continue
		}
		q := b.BVar("r", "Int")
		s1 := b.App("select", elemSort(x.args[k].sort), x.args[k], q)
		s2 := b.App("select", elemSort(x.args[k].sort), y.args[k], q)
		prem = append(prem, b.Quant("forall", []*Term{q}, b.Implies(b.And(b.Le(b.Int(0), q), b.Lt(q, b.Const("H0!alloc", "Int"))), b.Eq(s1, s2))))
	}
	return b.Implies(b.And(prem...), b.Eq(x, y))
}

// unfold returns the defining equations of the recursive applications in ts, to the given depth.
func (v *VC) unfold(ts []*Term, depth int) []*Term {
	b := v.b
	var out []*Term
	done := map[*Term]bool{}
	cur := ts
	for d := 0; d < depth; d++ {
		var apps []*Term
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.rec && !t.bound && !done[t] {
				done[t] = true
				apps = append(apps, t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range cur {
			walk(t)
		}
		if len(apps) == 0 {
			break
		}
		var eqs []*Term
		for _, a := range apps {
			ri := v.recByName[a.op[3:]]
			if ri == nil || len(ri.formals) != len(a.args) || v.opaque[ri.fn.Name()] {
				continue
			}
			m := map[*Term]*Term{}
			for i, f := range ri.formals {
				m[f] = a.args[i]
			}
			body := b.Subst(ri.body, m)
			eqs = append(eqs, b.Eq(a, body))
		}
		out = append(out, eqs...)
		cur = eqs
	}
	// frame instances: same function, different rows, same other arguments
	var apps []*Term
	for a := range done {
		apps = append(apps, a)
	}
	sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
	nf := 0
	for i := range apps {
		for j := i + 1; j < len(apps); j++ {
			x, y := apps[i], apps[j]
			if x.op != y.op {
				continue
			}
			ri := v.recByName[x.op[3:]]
			if ri == nil {
				continue
			}
			if f := v.entryFrame(ri, x, y); f != nil && nf <= 400 {
				nf++
				out = append(out, f)
				continue
			}
			if len(ri.rowArgs) == 0 {
				continue
			}
			isRow := map[int]bool{}
			for _, k := range ri.rowArgs {
				isRow[k] = true
			}
			ok := true
			diff := false
			for k := range x.args {
				if isRow[k] {
					if x.args[k] != y.args[k] {
						diff = true
					}
					continue
				}
				if x.args[k] != y.args[k] {
					// different offsets / lengths may still be provably equal; allow as a premise
					if x.args[k].sort != "Int" {
						ok = false
						break
					}
				}
			}
			if !ok || !diff || nf > 400 {
				continue
			}
			nf++
			var prem []*Term
			for k := range x.args {
				if isRow[k] {
					if x.args[k] == y.args[k] {
						continue
					}
					q := b.BVar("f", "Int")
					off, ln := x.args[k+1], x.args[k+2]
					s1 := b.App("select", elemSort(x.args[k].sort), x.args[k], q)
					s2 := b.App("select", elemSort(x.args[k].sort), y.args[k], q)
					prem = append(prem, b.Quant("forall", []*Term{q}, b.Implies(b.And(b.Le(off, q), b.Lt(q, b.Add(off, ln))), b.Eq(s1, s2))))
				} else if x.args[k] != y.args[k] {
					prem = append(prem, b.Eq(x.args[k], y.args[k]))
				}
			}
			out = append(out, b.Implies(b.And(prem...), b.Eq(x, y)))
		}
	}
	return out
}

// dispatchName: the name of a type in a `dispatch=` flag
func dispatchName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}
