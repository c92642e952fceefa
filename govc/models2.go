package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	extraModels = append(extraModels, sortModel, scannerModel)
	effExtra["(*bufio.Scanner).Scan"] = []string{"P!bufio_Scanner", "alloc"}
	dslExtra["ghostLine"] = func(v *VC, fn *ssa.Function, args []Val, reach *Term, st *State) Val {
		return v.b.UF("scan!line", "String", v.unboxRef(T2(v, args[0])), T2(v, args[1]))
	}
	dslExtra["anyInt"] = func(v *VC, fn *ssa.Function, args []Val, reach *Term, st *State) Val {
		return v.b.UF("any!int", "Int", T2(v, args[0]))
	}
	dslExtra["ghostLines"] = func(v *VC, fn *ssa.Function, args []Val, reach *Term, st *State) Val {
		n := v.b.UF("scan!count", "Int", v.unboxRef(T2(v, args[0])))
		if !n.bound {
			v.assumeRaw(v.b.Le(v.b.Int(0), n))
		}
		return n
	}
	dslExtra["ghostPos"] = func(v *VC, fn *ssa.Function, args []Val, reach *Term, st *State) Val {
		return v.scanPos(v.unboxRef(T2(v, args[0])), st)
	}
	dslExtra["ghostParsed"] = func(v *VC, fn *ssa.Function, args []Val, reach *Term, st *State) Val {
		e := T2(v, args[0])
		if e.op != "str" {
			unsup("ghostParsed needs a literal entry point")
		}
		return v.b.UF("parse!"+e.name, "Any", T2(v, args[1]))
	}
	dslExtra["ghostParses"] = func(v *VC, fn *ssa.Function, args []Val, reach *Term, st *State) Val {
		e := T2(v, args[0])
		if e.op != "str" {
			unsup("ghostParses needs a literal entry point")
		}
		return v.b.UF("parses!"+e.name, "Bool", T2(v, args[1]))
	}
}

func (v *VC) unboxRef(x *Term) *Term {
	if x.sort == "Any" {
		return v.refOf(x)
	}
	return x
}

const scanKey = "P!bufio_Scanner"

func (v *VC) scanPos(ref *Term, st *State) *Term {
	return v.b.Select(v.hget(st, scanKey, "(Array Int Int)"), ref)
}

// ---------- bufio.Scanner: a fixed sequence of lines and a position ----------

func scannerModel(v *VC, fr *frame, in ssa.Instruction, fn *ssa.Function, name string, args []Val, reach *Term, st *State) (Val, *Term, *State, bool) {
	b := v.b
	switch name {
	case "(*bufio.Scanner).Scan":
		r := T2(v, args[0])
		v.note("bufio.Scanner yields a fixed finite sequence of lines, one per Scan, whatever the reader does")
		pos := v.scanPos(r, st)
		n := b.UF("scan!count", "Int", r)
		v.assume(reach, b.And(b.Le(b.Int(0), pos), b.Le(pos, n)))
		more := b.Lt(pos, n)
		h := v.hget(st, scanKey, "(Array Int Int)")
		np := b.Fresh("scan!pos", "Int")
		v.assume(reach, b.And(b.Implies(more, b.Eq(np, b.Add(pos, b.Int(1)))), b.Implies(b.Not(more), b.Eq(np, pos))))
		st.h[scanKey] = b.Store(h, r, np)
		return more, reach, st, true
	case "(*bufio.Scanner).Text":
		r := T2(v, args[0])
		return b.UF("scan!line", "String", r, b.Sub(v.scanPos(r, st), b.Int(1))), reach, st, true
	case "(*bufio.Scanner).Bytes":
		r := T2(v, args[0])
		line := b.UF("scan!line", "String", r, b.Sub(v.scanPos(r, st), b.Int(1)))
		sl := b.Fresh("scan!bytes", "Slice")
		k, so := v.elemKey(types.Typ[types.Uint8])
		row := b.Select(v.hget(st, k, so), v.slBase(sl))
		v.typed(st, reach, sl, types.NewSlice(types.Typ[types.Uint8]))
		v.assume(reach, b.And(b.Eq(v.slLen(sl), b.StrLen(line)), b.Eq(v.bytesToStr(row, v.slOff(sl), v.slLen(sl)), line)))
		return sl, reach, st, true
	case "(*bufio.Scanner).Err":
		return b.Fresh("scan!err", "Any"), reach, st, true
	case "bufio.NewScanner":
		r := v.newRef(st)
		v.assume(reach, b.Eq(v.scanPos(r, st), b.Int(0)))
		return r, reach, st, true
	}
	return nil, nil, nil, false
}

// ---------- the generated parser ----------

// parseModel: Parse(_, text, options..., Entrypoint("E")) is a function of the text and E when all options are known literals.
func (v *VC) parseModel(fr *frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach *Term, st *State) (Val, *Term, *State, bool) {
	b := v.b
	if fn.String() != modPath+"/pkg/parser.Parse" {
		return nil, nil, nil, false
	}
	data := T2(v, args[1])
	k, so := v.elemKey(types.Typ[types.Uint8])
	text := v.bytesToStr(b.Select(v.hget(st, k, so), v.slBase(data)), v.slOff(data), v.slLen(data))
	opts := T2(v, args[2])
	entry := ""
	if n, ok := v.slLen(opts).intVal(); ok && n == 1 {
		ot := fn.Signature.Params().At(2).Type().(*types.Slice).Elem()
		x := v.elemAt(st, opts, ot, b.Int(0))
		if x.op == "const" {
			for fv, id := range v.fnIds {
				if x.name == fmt.Sprintf("closure!%d", id) && fv.fn.Parent() != nil && fv.fn.Parent().Name() == "Entrypoint" && len(fv.free) == 1 {
					t := fv.free[0]
					if p, ok := t.(*PathVal); ok {
						t = v.load(st, p, types.Typ[types.String])
					}
					if tt, ok := t.(*Term); ok && tt.op == "str" {
						entry = tt.name
					}
				}
			}
		}
	}
	if entry == "" {
		v.note("Parse with computed options returns an arbitrary value or an error and changes nothing under proof")
		r, e := b.Fresh("parse!res", "Any"), b.Fresh("parse!err", "Any")
		v.typed(st, reach, r, types.NewInterfaceType(nil, nil))
		return TupleVal{r, e}, reach, st, true
	}
	v.note("the generated PEG parser is a deterministic total function of the text for entry point %s; its results are not shared with other data under proof", entry)
	ok := b.UF("parses!"+entry, "Bool", text)
	r := b.UF("parse!"+entry, "Any", text)
	v.typed(v.entry, reach, r, types.NewInterfaceType(nil, nil))
	e := b.Fresh("parse!err", "Any")
	v.assume(reach, b.Not(b.Is(v.cNil, e)))
	return TupleVal{b.Ite(ok, r, v.anyNil()), b.Ite(ok, v.anyNil(), e)}, reach, st, true
}

// ---------- package sort ----------

func sortModel(v *VC, fr *frame, in ssa.Instruction, fn *ssa.Function, name string, args []Val, reach *Term, st *State) (Val, *Term, *State, bool) {
	b := v.b
	var sl *Term
	var et types.Type
	var less func(i, j *Term, st *State) *Term
	switch name {
	case "sort.Strings", "sort.Ints":
		sl = T2(v, args[0])
		et = types.Typ[types.String]
		if name == "sort.Ints" {
			et = types.Typ[types.Int]
		}
		less = func(i, j *Term, st *State) *Term {
			x, y := v.elemAt(st, sl, et, i), v.elemAt(st, sl, et, j)
			if name == "sort.Ints" {
				return b.Lt(x, y)
			}
			return b.App("str.<", "Bool", x, y)
		}
	case "sort.Slice", "sort.SliceStable":
		x := T2(v, args[0])
		c := b.dts.ctorOf(x)
		if c == nil || c.fields[0] != "Slice" {
			return nil, nil, nil, false
		}
		sl = x.args[0]
		for _, t := range v.boxTypes {
			if v.boxCtor(t) == c {
				et = t.Underlying().(*types.Slice).Elem()
			}
		}
		f := v.closureArg(args[1])
		less = func(i, j *Term, st *State) *Term { return v.evalClosure(f, []Val{i, j}, st).(*Term) }
	case "sort.Sort", "sort.Stable":
		x := T2(v, args[0])
		c := b.dts.ctorOf(x)
		if c == nil || c.fields[0] != "Slice" {
			return nil, nil, nil, false
		}
		sl = x.args[0]
		for _, t := range v.boxTypes {
			if v.boxCtor(t) == c {
				et = t.Underlying().(*types.Slice).Elem()
				ms := v.p.ssa.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == "Less" {
						m := v.p.ssa.MethodValue(ms.At(i))
						less = func(i, j *Term, st *State) *Term {
							v.spec++
							defer func() { v.spec-- }()
							saved := v.stack
							v.stack = nil
							defer func() { v.stack = saved }()
							r, _, _ := v.execFn(m, []Val{sl, i, j}, nil, b.True(), st.clone(), "spec")
							return r[0].(*Term)
						}
					}
				}
			}
		}
		if less == nil {
			return nil, nil, nil, false
		}
		v.note("sort.Sort relies on the type's Len and Swap being the usual ones")
	default:
		return nil, nil, nil, false
	}
	v.note("package sort: the result is a permutation of the input, ordered by the given less function")
	k, so := v.elemKey(et)
	h := v.hget(st, k, so)
	old := b.Select(h, v.slBase(sl))
	n, off := v.slLen(sl), v.slOff(sl)
	row := b.Fresh("sorted", elemSort(so))
	b.fresh["permfun"]++
	pn, qn := fmt.Sprintf("perm!%d", b.fresh["permfun"]), fmt.Sprintf("permInv!%d", b.fresh["permfun"])
	i, j := b.BVar("i", "Int"), b.BVar("j", "Int")
	in0 := func(x *Term) *Term { return b.And(b.Le(b.Int(0), x), b.Lt(x, n)) }
	p := func(x *Term) *Term { return b.UF(pn, "Int", x) }
	q := func(x *Term) *Term { return b.UF(qn, "Int", x) }
	v.assume(reach, b.Quant("forall", []*Term{i}, b.Implies(in0(i), b.And(in0(p(i)), b.Eq(q(p(i)), i), b.Eq(b.Select(row, b.Add(off, i)), b.Select(old, b.Add(off, p(i)))))), []*Term{p(i)}, []*Term{b.Select(row, b.Add(off, i))}))
	v.assume(reach, b.Quant("forall", []*Term{i}, b.Implies(in0(i), b.And(in0(q(i)), b.Eq(p(q(i)), i), b.Eq(b.Select(row, b.Add(off, q(i))), b.Select(old, b.Add(off, i))))), []*Term{q(i)}, []*Term{b.Select(old, b.Add(off, i))}))
	v.assume(reach, b.Quant("forall", []*Term{i}, b.Implies(b.Not(b.And(b.Le(off, i), b.Lt(i, b.Add(off, n)))), b.Eq(b.Select(row, i), b.Select(old, i))), []*Term{b.Select(row, i)}))
	st.h[k] = b.Store(h, v.slBase(sl), row)
	v.assume(reach, b.Quant("forall", []*Term{i, j}, b.Implies(b.And(b.Le(b.Int(0), i), b.Lt(i, j), b.Lt(j, n)), b.Not(less(j, i, st)))))
	_ = strings.HasPrefix
	return nil, reach, st, true
}
