package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Finding struct {
	Property string `json:"property"`
	Contract string `json:"contract"`             // contract the finding belongs to
	Args     string `json:"args,omitempty"`       // the failing input, as printed by the native run
	Choices  []int  `json:"choices,omitempty"`    // how the generator makes it
	Obl      string `json:"obligation,omitempty"` // failing obligation
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // "fixed: property=<id> <commit> <what>": suppresses nothing
}

func loadFindings(path string) []Finding {
	var out struct {
		Findings []Finding `json:"findings"`
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &out); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
	}
	return out.Findings
}

type checker struct {
	ov      *Overlay
	prop    string
	tier    string
	seed    int64
	out     string // evidence dir
	replay  string // replay dir
	kf      []Finding
	notes   []string
	t0      time.Time
	results []*Result
	reports map[string]*NReport

	concrete bool // a failing input is already known: no need to insist on the proofs
}

// budget: time after which failed obligations are not retried with larger limits
func (c *checker) budget() time.Duration {
	if c.tier == "thorough" {
		return 40 * time.Minute
	}
	return 240 * time.Second
}

func verifyAll(p *Program, todo []*Contract, par int) []*Result {
	out := make([]*Result, len(todo))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, c := range todo {
		wg.Add(1)
		sem <- true
		go func(i int, c *Contract) {
			defer wg.Done()
			defer func() { <-sem }()
			t := time.Now()
			out[i] = verify(p, c)
			out[i].ms = time.Since(t).Milliseconds()
		}(i, c)
	}
	wg.Wait()
	return out
}

// closure runs the contracts of a property and of everything their proofs rely on.
func (c *checker) proofs(p *Program) {
	done := map[*Contract]bool{}
	var todo []*Contract
	for _, k := range p.contracts {
		if k.Kind != "bounded" && k.Imethod == "" && k.hasProp(c.prop) && k.Flags["assumed"] == "" {
			todo = append(todo, k)
			done[k] = true
		}
	}
	for len(todo) > 0 {
		var run []*Contract
		for _, k := range todo {
			if k.Kind == "contract" && k.Tgt == nil {
				c.notes = append(c.notes, "not attached: "+k.Name()+" (no such function in the current tree)")
				continue
			}
			run = append(run, k)
		}
		rs := verifyAll(p, run, 6)
		// second chance with larger limits, one at a time
		for i, r := range rs {
			if !r.ok() && r.Err == "" && !c.concrete && time.Since(c.t0) < c.budget() {
				h, q, f := houdiniMS, quickMS, fullMS
				houdiniMS, quickMS, fullMS = 5000, 8000, 45000
				t := time.Now()
				rs[i] = verify(p, run[i])
				rs[i].ms = time.Since(t).Milliseconds()
				houdiniMS, quickMS, fullMS = h, q, f
			}
		}
		c.results = append(c.results, rs...)
		todo = nil
		for _, r := range rs {
			for k := range r.vc.usedCon {
				if !done[k] && k.Kind != "bounded" && k.Imethod == "" && k.Flags["assumed"] == "" {
					done[k] = true
					todo = append(todo, k)
				}
			}
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].Name() < todo[j].Name() })
	}
}

func (c *checker) ncases() []*NCase {
	var out []*NCase
	inRes := map[string]bool{}
	for _, r := range c.results {
		inRes[r.Con.Name()] = true
	}
	for _, n := range c.ov.cases {
		if n.hasProp(c.prop) || inRes[n.Name] {
			out = append(out, n)
		}
	}
	return out
}

func runCheck(repo, contracts, verifDir, prop, tier string, seed int64) int {
	c := &checker{prop: prop, tier: tier, seed: seed, out: filepath.Join(verifDir, "evidence"), replay: filepath.Join(verifDir, "evidence", "replay"), t0: time.Now(), reports: map[string]*NReport{}}
	c.kf = loadFindings(filepath.Join(verifDir, "known_findings.json"))
	os.MkdirAll(c.replay, 0o755)
	var err error
	c.ov, err = readOverlay(repo, contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		return 2
	}
	if tier == "thorough" {
		fullMS = 60000
	}
	// native build runs beside the loading of the program
	nov, _ := readOverlay(repo, contracts)
	var nat *Native
	ready := make(chan bool)
	go func() {
		pk := map[string]bool{}
		for _, n := range nov.cases {
			if n.hasProp(prop) {
				pk[n.Pkg] = true
			}
		}
		nat = buildNative(nov, mkdir(filepath.Join(scratch(), "native")), keysOf(pk))
		close(ready)
	}()
	p, err := loadProgram(c.ov, []string{"./..."})
	<-ready
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	for _, d := range c.ov.dropped {
		c.notes = append(c.notes, "declaration no longer compiles against the current tree and is left out: "+d)
	}
	for _, d := range nov.dropped {
		c.notes = append(c.notes, "native declaration left out: "+d)
	}
	ro := runOpts{seed: seed, runs: 2500, ms: 12000, avoid: map[string][]string{}}
	if tier == "thorough" {
		ro.runs, ro.ms = 40000, 100000
	}
	for _, f := range c.kf {
		if f.Fixed == "" && f.Args != "" {
			ro.avoid[f.Contract] = append(ro.avoid[f.Contract], f.Args)
		}
	}
	c.reports = nat.run(c.ncases(), ro, 8)
	for _, r := range c.reports {
		if r.Failure != nil && r.Failure.Kind != "harness" {
			c.concrete = true
		}
	}
	c.proofs(p)
	// contracts of other properties the proofs relied on
	var cases, extra []*NCase
	m := map[string]bool{}
	for _, n := range c.ncases() {
		cases = append(cases, n)
		if c.reports[n.Name] == nil {
			extra = append(extra, n)
			if nat.bins[n.Pkg] == "" && nat.errs[n.Pkg] == "" {
				m[n.Pkg] = true
			}
		}
	}
	if len(m) > 0 {
		n2 := buildNative(nov, mkdir(filepath.Join(scratch(), "native2")), keysOf(m))
		for k, b := range n2.bins {
			nat.bins[k] = b
		}
		for k, b := range n2.errs {
			nat.errs[k] = b
		}
	}
	if len(extra) > 0 {
		for k, r := range nat.run(extra, ro, 8) {
			c.reports[k] = r
		}
	}

	// failed obligations: look harder for a failing input
	failed := map[string]*Result{}
	for _, r := range c.results {
		if !r.ok() {
			failed[r.Con.Name()] = r
		}
	}
	if len(failed) > 0 {
		any := false
		for _, r := range c.reports {
			if r.Failure != nil && r.Failure.Kind != "harness" {
				any = true
			}
		}
		if !any {
			ro2 := ro
			ro2.runs, ro2.ms, ro2.seed = 60000, 40000, seed+1000
			more := nat.run(cases, ro2, 8)
			for k, r := range more {
				if r.Failure != nil {
					c.reports[k] = r
				} else if o := c.reports[k]; o != nil {
					o.Runs += r.Runs
					o.Distinct = max(o.Distinct, r.Distinct)
				}
			}
		}
	}
	return c.report(nat, failed, ro)
}

func mkdir(d string) string { os.MkdirAll(d, 0o755); return d }

func (c *checker) known(r *Result, o *Obl) *Finding {
	for i, f := range c.kf {
		if f.Fixed == "" && f.Property == c.prop && f.Contract == r.Con.Name() && f.Obl != "" && strings.HasPrefix(o.kind+": "+o.name, f.Obl) {
			return &c.kf[i]
		}
	}
	return nil
}

func (c *checker) report(nat *Native, failed map[string]*Result, ro runOpts) int {
	rc := 0
	var viol []string
	nviol := 0
	emit := func(name string, content map[string]interface{}, concrete bool) {
		nviol++
		rc = 1
		f := filepath.Join(c.replay, fmt.Sprintf("%s_%s.json", c.prop, sanit(name)))
		content["property"] = c.prop
		j, _ := json.MarshalIndent(content, "", " ")
		os.WriteFile(f, append(j, '\n'), 0o644)
		s := fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, f)
		if !concrete {
			s += " no-failing-input-found"
		}
		viol = append(viol, s)
	}
	// known findings that still fail
	for _, f := range c.kf {
		if f.Property != c.prop || f.Fixed != "" || f.Args == "" {
			continue
		}
		for _, n := range c.ncases() {
			if n.Name == f.Contract {
				r := nat.runOne(9999, n, runOpts{seed: c.seed, runs: 1, ms: 10000, choices: f.Choices})
				if r.Failure != nil && r.Failure.Args == f.Args {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, f.What)
				}
			}
		}
	}
	var names []string
	for n := range c.reports {
		names = append(names, n)
	}
	sort.Strings(names)
	evals, distinct := 0, 0
	var samples []string
	var bounded []map[string]interface{}
	concrete := false
	for _, n := range names {
		r := c.reports[n]
		evals += r.Runs
		distinct += r.Distinct
		if len(samples) < 12 {
			for i, s := range r.Samples {
				if i < 2 {
					samples = append(samples, n+": "+s)
				}
			}
		}
		if r.Err != "" {
			c.notes = append(c.notes, "native run of "+n+": "+clip(r.Err, 300))
		}
		b := map[string]interface{}{"contract": n, "label": "bounded", "runs": r.Runs, "distinct": r.Distinct, "skipped_by_precondition": r.Skipped, "ms": r.MS}
		if r.Case != nil && r.Case.Kind == "contract" {
			b["label"] = "native execution of a proved contract (validates the contract, not counted as proof)"
		}
		bounded = append(bounded, b)
		if r.Failure != nil {
			if r.Failure.Kind == "harness" {
				c.notes = append(c.notes, "harness problem in "+n+": "+r.Failure.Clause+" "+clip(r.Failure.Detail, 500))
				fmt.Println("HARNESS", n, r.Failure.Clause, clip(r.Failure.Detail, 1500))
				continue
			}
			concrete = true
			m := map[string]interface{}{"contract": n, "target": r.Case.Target, "package": r.Case.Pkg, "failed": r.Failure.Clause, "kind": r.Failure.Kind, "input": r.Failure.Args, "observed": r.Failure.Detail, "choices": r.Failure.Choices, "replay": fmt.Sprintf("/verif/check replay %s", filepath.Join(c.replay, fmt.Sprintf("%s_%s.json", c.prop, sanit(n))))}
			if k := c.clauseText(r.Failure.Clause); k != "" {
				m["clause"] = k
			}
			if fr := failed[n]; fr != nil {
				m["failed_obligations"] = oblList(fr)
			}
			fmt.Printf("FAILED %s: %s %s\n   input: %s\n   %s\n", n, r.Failure.Clause, c.clauseText(r.Failure.Clause), clip(r.Failure.Args, 1500), clip(r.Failure.Detail, 1500))
			emit(n, m, true)
		}
	}
	var fn []string
	for n := range failed {
		fn = append(fn, n)
	}
	sort.Strings(fn)
	for _, n := range fn {
		r := failed[n]
		all := true
		var fo []*Obl
		if r.Err != "" {
			all = false
		}
		for _, o := range r.Obls {
			if o.status == "proved" {
				continue
			}
			if k := c.known(r, o); k != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
				continue
			}
			all = false
			fo = append(fo, o)
		}
		if all {
			continue
		}
		fmt.Printf("NOT PROVED %s: %s\n", n, clip(r.Err, 600))
		for _, o := range fo {
			fmt.Printf("   [%s] %s: %s\n", o.status, o.kind, o.name)
		}
		if concrete {
			continue // the concrete violation carries it
		}
		emit("proof_"+n, map[string]interface{}{"contract": n, "error": r.Err, "failed_obligations": oblList(r)}, false)
	}
	for _, v := range viol {
		fmt.Println(v)
	}
	c.evidence(rc, nviol, evals, distinct, samples, bounded)
	return rc
}

func oblList(r *Result) []map[string]string {
	var out []map[string]string
	for _, o := range r.Obls {
		if o.status != "proved" {
			out = append(out, map[string]string{"kind": o.kind, "obligation": o.name, "status": o.status, "solver": o.solver, "output": clip(o.output, 2000)})
		}
	}
	if r.Err != "" {
		out = append(out, map[string]string{"kind": "generation", "obligation": "obligations can be generated for " + r.Con.Name(), "status": "failed", "output": clip(r.Err, 2000)})
	}
	return out
}

func (c *checker) clauseText(pos string) string {
	k := strings.LastIndex(pos, ":")
	if k < 0 {
		return ""
	}
	base := filepath.Base(pos[:k])
	if i := strings.Index(base, "zz_verif_"); i > 0 {
		base = base[i:]
	}
	for f, src := range c.ov.files {
		if filepath.Base(f) == base {
			ls := strings.Split(src, "\n")
			n := 0
			fmt.Sscan(pos[k+1:], &n)
			if n > 0 && n <= len(ls) && strings.Contains(ls[n-1], "ensures") {
				return strings.TrimSpace(ls[n-1])
			}
		}
	}
	return ""
}

func (c *checker) evidence(rc, nviol, evals, distinct int, samples []string, bounded []map[string]interface{}) {
	obls, proved := 0, 0
	byKind := map[string]int{}
	bySolver := map[string]int{}
	var fns []map[string]interface{}
	covered := map[string]bool{}
	trusted := map[string]bool{}
	var solverTime int64
	for _, r := range c.results {
		n := 0
		for _, o := range r.Obls {
			if o.kind == "cover" {
				continue
			}
			obls++
			byKind[o.kind]++
			solverTime += o.ms
			if o.status == "proved" {
				proved++
				n++
				bySolver[o.solver]++
			}
		}
		fns = append(fns, map[string]interface{}{"contract": r.Con.Name(), "kind": r.Con.Kind, "obligations": len(r.Obls), "discharged": n, "ms": r.ms, "candidate_invariants": r.Cands, "rejected_candidates": r.Dropped})
		for _, x := range r.Covered {
			covered[x] = true
		}
		for _, x := range r.Notes {
			trusted[x] = true
		}
	}
	level := "proof"
	if obls == 0 {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"obligations": obls, "discharged": proved, "checker_cmd": fmt.Sprintf("/verif/check %s --tier %s", c.prop, c.tier),
		"obligations_by_kind": byKind, "discharged_by_backend": bySolver, "solver_time_ms": solverTime,
		"contracts": fns, "functions_under_contract_or_inlined": keysOf(covered), "trusted_base": append(trustedBase(), keysOf(trusted)...),
		"evaluations": evals, "distinct_nontrivial": distinct, "samples": samples,
		"rule":    "native runs: inputs made by the choice-sequence generators (small-size enumeration, then random); an input is counted when it meets the precondition and is distinct from the earlier ones as printed",
		"bounded": bounded,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
		for _, n := range c.notes {
			fmt.Println("NOTE:", n)
		}
	}
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov,
		"assumptions": append(assumptions(), keysOf(trusted)...), "wall_s": time.Since(c.t0).Seconds(), "violations": nviol}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(c.out, 0o755)
	os.WriteFile(filepath.Join(c.out, c.prop+".json"), append(j, '\n'), 0o644)
	fmt.Printf("%s: %d/%d obligations discharged in %d contracts, %d native runs, %.1fs\n", c.prop, proved, obls, len(c.results), evals, time.Since(c.t0).Seconds())
}

func trustedBase() []string {
	return []string{
		"govc: the SSA-to-SMT translation in /verif/govc (symbolic execution of golang.org/x/tools/go/ssa)",
		"the Go front end (go/types, golang.org/x/tools/go/ssa v0.52.0)",
		"SMT solvers z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an answer unsat from any one of them discharges an obligation)",
	}
}

func assumptions() []string {
	return []string{
		"machine integers are mathematical integers (no overflow)",
		"memory is unbounded and allocation does not fail; goroutines do not interfere (the code under contract is sequential)",
		"strings are sequences of bytes over the SMT theory of strings",
		"termination is not proved by the deductive part (partial correctness), except for lemmas",
	}
}

// replay runs the input of a replay file again.
func runReplay(repo, contracts, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Contract string `json:"contract"`
		Choices  []int  `json:"choices"`
		Property string `json:"property"`
	}
	json.Unmarshal(b, &m)
	ov, err := readOverlay(repo, contracts)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, n := range ov.cases {
		if n.Name == m.Contract {
			nat := buildNative(ov, mkdir(filepath.Join(scratch(), "native")), []string{n.Pkg})
			r := nat.runOne(0, n, runOpts{seed: 1, runs: 1, ms: 10000, choices: m.Choices})
			j, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(j))
			if r.Failure != nil {
				return 1
			}
			return 0
		}
	}
	fmt.Println("no native case", m.Contract)
	return 2
}
