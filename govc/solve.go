package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- skolemisation ----------

func (v *VC) negSk(t *Term) *Term {
	b := v.b
	switch t.op {
	case "=>":
		return b.And(v.posSk(t.args[0]), v.negSk(t.args[1]))
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, v.negSk(a))
		}
		return b.Or(out...)
	case "or":
		var out []*Term
		for _, a := range t.args {
			out = append(out, v.negSk(a))
		}
		return b.And(out...)
	case "not":
		return v.posSk(t.args[0])
	case "ite":
		if t.sort == "Bool" && t.qrec {
			return b.Or(b.And(t.args[0], v.negSk(t.args[1])), b.And(b.Not(t.args[0]), v.negSk(t.args[2])))
		}
	case "=":
		if t.args[0].sort == "Bool" && t.qrec {
			x, y := t.args[0], t.args[1]
			return b.Or(b.And(v.posSk(x), v.negSk(y)), b.And(v.negSk(x), v.posSk(y)))
		}
	case "forall":
		return v.negSk(v.skolem(t))
	case "exists":
		return b.Quant("forall", t.bvars, b.Not(t.args[0]), t.pats...)
	}
	return b.Not(t)
}

func (v *VC) posSk(t *Term) *Term {
	b := v.b
	if !t.qrec {
		return t
	}
	switch t.op {
	case "=>":
		return b.Or(v.negSk(t.args[0]), v.posSk(t.args[1]))
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, v.posSk(a))
		}
		return b.And(out...)
	case "or":
		var out []*Term
		for _, a := range t.args {
			out = append(out, v.posSk(a))
		}
		return b.Or(out...)
	case "not":
		return v.negSk(t.args[0])
	case "ite":
		if t.sort == "Bool" {
			return b.And(b.Or(b.Not(t.args[0]), v.posSk(t.args[1])), b.Or(t.args[0], v.posSk(t.args[2])))
		}
	case "=":
		if t.args[0].sort == "Bool" {
			x, y := t.args[0], t.args[1]
			return b.And(b.Or(v.negSk(x), v.posSk(y)), b.Or(v.posSk(x), v.negSk(y)))
		}
	case "exists":
		return v.posSk(v.skolem(t))
	}
	return t
}

func (v *VC) skolem(t *Term) *Term {
	m := map[*Term]*Term{}
	for _, x := range t.bvars {
		m[x] = v.b.Fresh("sk", x.sort)
	}
	return v.b.Subst(t.args[0], m)
}

// query builds the SMT script for an obligation.
func (v *VC) query(o *Obl, depth int, candActive func(c *Cand) bool) string {
	b := v.b
	var as []*Term
	as = append(as, v.candFacts(candActive)...)
	for _, a := range v.assumes[:o.nAss] {
		as = append(as, v.posSk(a))
	}
	if o.cand != nil && o.cand.user {
		for _, p := range v.obls {
			if p == o {
				break
			}
			if p.grp == o.grp && p.cand != nil && p.cand.user && candActive(p.cand) && p.goal != o.goal {
				as = append(as, v.posSk(p.goal))
			}
		}
	}
	if o.kind == "cover" {
		as = append(as, o.goal)
	} else {
		as = append(as, v.endInstances(v.negSk(o.goal)))
	}
	as = v.elimActs(as, candActive)
	as = append(as, v.unfold(as, depth)...)
	as = append(as, v.lateAxioms(as)...)
	if os.Getenv("GOVC_NOTRIG") == "" {
		as = v.nameItes(as)
		for i, a := range as {
			as[i] = v.triggerize(a)
		}
	}
	return b.script(as, "ALL", false)
}

func (v *VC) candFacts(active func(c *Cand) bool) []*Term { return nil }

func (v *VC) elimActs(as []*Term, active func(c *Cand) bool) []*Term {
	if len(v.cands) == 0 {
		return as
	}
	m := map[*Term]*Term{}
	for _, c := range v.cands {
		m[c.act] = v.b.Bool(active(c))
	}
	out := make([]*Term, 0, len(as))
	for _, a := range as {
		x := v.b.Subst(a, m)
		if !x.isTrue() {
			out = append(out, x)
		}
	}
	return out
}

var lateAxiomHooks []func(v *VC, as []*Term) []*Term

func (v *VC) lateAxioms(as []*Term) []*Term {
	var out []*Term
	for _, h := range lateAxiomHooks {
		out = append(out, h(v, as)...)
	}
	return out
}

// ---------- running solvers ----------

type solverSpec struct {
	name string
	cmd  func(file string, ms int) []string
}

var solvers = []solverSpec{
	{"z3-new", func(f string, ms int) []string { return []string{"z3-new", fmt.Sprintf("-t:%d", ms), f} }},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
	{"z3", func(f string, ms int) []string { return []string{"z3", fmt.Sprintf("-t:%d", ms), f} }},
	{"cvc5-enum", func(f string, ms int) []string {
		return []string{"cvc5", "--strings-exp", "--enum-inst", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
}

var scratchDir string
var qn int64
var solverMS int64

var scratchMu sync.Mutex

func scratch() string {
	scratchMu.Lock()
	defer scratchMu.Unlock()
	if scratchDir == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	}
	return scratchDir
}

type answer struct {
	res    string // unsat, sat, unknown
	solver string
	ms     int64
	out    string
}

var sem = make(chan struct{}, 8)

func runOne(ctx context.Context, s solverSpec, file string, ms int) answer {
	select {
	case sem <- struct{}{}:
	case <-ctx.Done():
		return answer{res: "unknown", solver: s.name, out: "cancelled"}
	}
	defer func() { <-sem }()
	c := s.cmd(file, ms)
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, c[0], c[1:]...)
	out, _ := cmd.CombinedOutput()
	d := time.Since(t0).Milliseconds()
	atomic.AddInt64(&solverMS, d)
	txt := strings.TrimSpace(string(out))
	res := "unknown"
	for _, l := range strings.Split(txt, "\n") {
		if strings.HasPrefix(l, "(error") {
			break
		}
		if l == "unsat" || l == "sat" {
			res = l
			break
		}
	}
	if len(txt) > 600 {
		txt = txt[:600]
	}
	return answer{res: res, solver: s.name, ms: d, out: txt}
}

// portfolio: stage 1 a quick run of the first solver, then all in parallel.
func portfolio(script string, quick, full int) answer {
	n := atomic.AddInt64(&qn, 1)
	f := filepath.Join(scratch(), fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(script), 0o644)
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.Remove(f)
	}
	a := runOne(context.Background(), solvers[0], f, quick)
	if a.res == "unsat" || a.res == "sat" || full == 0 {
		return a
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan answer, len(solvers))
	for _, s := range solvers {
		go func(s solverSpec) { ch <- runOne(ctx, s, f, full) }(s)
	}
	best := a
	outs := []string{}
	for range solvers {
		r := <-ch
		if r.res == "unsat" || r.res == "sat" {
			return r
		}
		outs = append(outs, r.solver+": "+r.out)
	}
	best.out = strings.Join(outs, "; ")
	return best
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

var (
	houdiniMS = 1500
	quickMS   = 2500
	fullMS    = 20000
)

// houdini prunes the candidate invariants.
func (v *VC) houdini() {
	if len(v.cands) == 0 {
		return
	}
	for round := 0; ; round++ {
		v.rounds = round + 1
		var todo []*Obl
		for _, o := range v.obls {
			if o.cand != nil && o.cand.active && o.status != "proved" {
				todo = append(todo, o)
			}
		}
		act := func(c *Cand) bool { return c.active }
		scripts := make([]string, len(todo))
		for i, o := range todo {
			scripts[i] = v.query(o, 2, act)
		}
		fail := make([]bool, len(todo))
		var drop sync.Map
		parallel(len(todo), func(i int) {
			if _, ok := drop.Load(todo[i].cand); ok {
				return
			}
			ms := houdiniMS
			full := 0
			if todo[i].cand.user {
				full = houdiniMS * 3
			}
			a := portfolio(scripts[i], ms, full)
			if a.res != "unsat" {
				fail[i] = true
				drop.Store(todo[i].cand, true)
				if debugHoudini {
					if todo[i].cand.user {
						os.WriteFile(fmt.Sprintf("/tmp/hd_%d.smt2", i), []byte(scripts[i]), 0o644)
						fmt.Fprintf(os.Stderr, "   /tmp/hd_%d.smt2 ", i)
					}
					fmt.Fprintf(os.Stderr, "  houdini drop [%s] %s (%s) %s\n", a.res, todo[i].name, a.solver, a.out)
				}
			} else {
				todo[i].solver, todo[i].ms = a.solver, a.ms
			}
		})
		changed := false
		for i := range todo {
			if fail[i] && todo[i].cand.active {
				todo[i].cand.active = false
				changed = true
			}
		}
		if !changed {
			for _, o := range v.obls {
				if o.cand != nil && o.cand.active {
					o.status = "proved"
				}
			}
			return
		}
	}
}

var debugHoudini bool

func (v *VC) discharge() {
	v.houdini()
	act := func(c *Cand) bool { return c.active }
	var todo []*Obl
	for _, o := range v.obls {
		if o.cand == nil && o.status == "" {
			todo = append(todo, o)
		}
	}
	scripts := make([]string, len(todo))
	for i, o := range todo {
		scripts[i] = v.query(o, 2, act)
	}
	parallel(len(todo), func(i int) {
		o := todo[i]
		if o.kind == "cover" {
			a := portfolio(scripts[i], 1500, 0)
			o.solver, o.ms, o.output = a.solver, a.ms, a.out
			o.status = "proved"
			if a.res == "unsat" {
				o.status = "failed"
				o.output = "the precondition (or the end of the function) is unreachable: vacuous proof"
			}
			return
		}
		a := portfolio(scripts[i], quickMS, fullMS)
		o.solver, o.ms, o.output = a.solver, a.ms, a.out
		switch a.res {
		case "unsat":
			o.status = "proved"
		case "sat":
			o.status = "failed"
			o.script = scripts[i]
		default:
			o.status = "unknown"
			o.script = scripts[i]
		}
	})
}
