package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"
	"sync"
)

// Result of one verification unit
type Result struct {
	Con     *Contract
	Obls    []*Obl
	Err     string
	Notes   []string
	Covered []string
	Used    []string
	Dropped int
	Cands   int
	Rounds  int
	ms      int64
	vc      *VC
}

func (r *Result) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.status != "proved" {
			return false
		}
	}
	return true
}

var genMu sync.Mutex

func verify(p *Program, con *Contract) (res *Result) {
	v := newVC(p, con)
	res = &Result{Con: con, vc: v}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = "unsupported: " + u.msg
			} else {
				res.Err = fmt.Sprintf("internal: %v\n%s", r, debug.Stack())
			}
		}
		res.Notes = keysOf(v.notes)
		res.Covered = keysOf(v.covered)
		res.Used = keysOf(v.used)
		res.Rounds = v.rounds
	}()
	func() {
		genMu.Lock() // the symbolic executor shares memo tables; the solvers run in parallel
		defer genMu.Unlock()
		v.generate()
	}()
	v.discharge()
	for _, o := range v.obls {
		if o.cand != nil {
			res.Cands++
			if !o.cand.active {
				res.Dropped++
				continue
			}
		}
		res.Obls = append(res.Obls, o)
	}
	return res
}

func (v *VC) generate() {
	b := v.b
	con := v.con
	st := &State{h: map[string]*Term{}, c: map[*cell]Val{}}
	v.alloc0 = v.alloc(st)
	v.assumeRaw(b.Le(b.Int(1), v.alloc0))
	v.noSafety = con.Flags["nosafety"] != ""
	v.opaque = map[string]bool{}
	for _, n := range strings.Split(con.Flags["opaque"], ",") {
		v.opaque[n] = true
	}
	if con.Kind == "lemma" {
		v.generateLemma(st)
		return
	}
	if con.Tgt == nil {
		unsup("target %s not found", con.Target)
	}
	fn := con.Tgt
	v.entry = st.clone()
	var args []Val
	for _, p := range fn.Params {
		t := b.Const("p!"+p.Name(), v.sortOf(p.Type()))
		v.typed(st, b.True(), t, p.Type())
		args = append(args, t)
	}
	dummy := v.freshResults(fn.Signature, "none")
	// parameter types of the contract function must match
	if err := checkSig(con); err != "" {
		unsup("contract %s: %s", con.Name(), err)
	}
	col := v.runContract(con, append(append([]Val{}, args...), dummy...), st, st)
	for _, r := range append(append([]clause{}, col.reqs...), col.trusts...) {
		v.assumeRaw(r.cond)
	}
	v.entry = st.clone()
	v.modset = v.expandMods(col.mods)
	v.invs = col.invs
	v.invState = col.st
	v.entryDecr = col.decr
	v.obls = append(v.obls, &Obl{name: "precondition is satisfiable", kind: "cover", goal: b.True(), nAss: len(v.assumes)})
	rs, reach, end := v.execFn(fn, args, nil, b.True(), st.clone(), "")
	if reach.isFalse() {
		unsup("%s never returns", shortFn(fn))
	}
	if len(rs) != fn.Signature.Results().Len() {
		unsup("result arity")
	}
	fa := append([]Val{}, args...)
	for i, r := range rs {
		fa = append(fa, v.asTerm(r, fn.Signature.Results().At(i).Type()))
	}
	col2 := v.runContract(con, fa, end, v.entry)
	for i, e := range col2.ens {
		v.obls = append(v.obls, &Obl{name: fmt.Sprintf("ensures[%d] %s", i, e.text), kind: "ensures", goal: b.Implies(reach, e.cond), nAss: len(v.assumes)})
	}
	v.obls = append(v.obls, &Obl{name: "end of function is reachable", kind: "cover", goal: reach, nAss: len(v.assumes)})
	// frame
	if con.Flags["noframe"] == "" {
		for _, k := range keysOf(end.h) {
			if k == "alloc" || con.Flags["havoc"] != "" && !con.keeps(k) {
				continue
			}
			h1 := end.h[k]
			h0 := v.hget(v.entry, k, h1.sort)
			if h0 == h1 {
				continue
			}
			if strings.HasPrefix(k, "G!") || !strings.HasPrefix(h1.sort, "(Array Int") {
				v.obls = append(v.obls, &Obl{name: "frame: " + k + " unchanged", kind: "frame", goal: b.Implies(reach, b.Eq(h0, h1)), nAss: len(v.assumes)})
				continue
			}
			r := b.Fresh("fr", "Int")
			cs := []*Term{b.Le(b.Int(1), r), b.Lt(r, v.alloc0)}
			for _, x := range v.modExcl(k) {
				cs = append(cs, b.Not(b.Eq(r, x)))
			}
			v.obls = append(v.obls, &Obl{name: "frame: only the declared objects change in " + k, kind: "frame",
				goal: b.Implies(b.And(append(cs, reach)...), b.Eq(b.Select(h1, r), b.Select(h0, r))), nAss: len(v.assumes)})
		}
	}
	for _, o := range v.obls {
		if o.status == "" && o.kind != "cover" && o.goal.isTrue() {
			o.status, o.solver = "proved", "simplifier"
		}
	}
}

func checkSig(con *Contract) string {
	var want []types.Type
	sig := con.Tgt.Signature
	if sig.Recv() != nil {
		want = append(want, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		want = append(want, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		want = append(want, sig.Results().At(i).Type())
	}
	got := con.Fn.Signature.Params()
	if got.Len() != len(want) {
		return fmt.Sprintf("has %d parameters, target needs %d", got.Len(), len(want))
	}
	for i := range want {
		if i == 0 && con.Recv != nil {
			continue // the contract is stated on the interface
		}
		if !types.Identical(got.At(i).Type(), want[i]) {
			return fmt.Sprintf("parameter %d has type %s, target has %s", i, got.At(i).Type(), want[i])
		}
	}
	return ""
}

func (v *VC) generateLemma(st *State) {
	b := v.b
	fn := v.con.Fn
	v.entry = st.clone()
	var args []Val
	for _, p := range fn.Params {
		t := b.Const("p!"+p.Name(), v.sortOf(p.Type()))
		v.typed(st, b.True(), t, p.Type())
		args = append(args, t)
	}
	// phase 1: hypotheses
	run := func(nested bool) *collector {
		v.spec++
		saved := v.collect
		v.collect = &collector{}
		v.lemNested = nested
		v.preStack = append(v.preStack, v.entry)
		v.execFn(fn, args, nil, b.True(), st.clone(), "lemma")
		v.preStack = v.preStack[:len(v.preStack)-1]
		v.lemNested = false
		v.spec--
		c := v.collect
		v.collect = saved
		return c
	}
	c1 := run(true)
	for _, r := range c1.reqs {
		v.assumeRaw(r.cond)
	}
	v.entryDecr = c1.decr
	v.lemmaMode = fn
	v.obls = append(v.obls, &Obl{name: "hypotheses are satisfiable", kind: "cover", goal: b.True(), nAss: len(v.assumes)})
	c2 := run(false)
	for i, e := range c2.ens {
		v.obls = append(v.obls, &Obl{name: fmt.Sprintf("lemma[%d] %s", i, e.text), kind: "lemma", goal: e.cond, nAss: len(v.assumes)})
	}
}
