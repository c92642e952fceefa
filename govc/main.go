package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

func main() {
	rc := realMain()
	if scratchDir != "" && os.Getenv("GOVC_KEEP") == "" {
		os.RemoveAll(scratchDir)
	}
	os.Exit(rc)
}

func realMain() int {
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	only := flag.String("only", "", "regexp on contract names")
	prop := flag.String("prop", "", "property id")
	verbose := flag.Bool("v", false, "")
	flag.BoolVar(&debugHoudini, "houdini", false, "")
	flag.IntVar(&fullMS, "full", fullMS, "")
	check := flag.Bool("check", false, "run the check of -prop: proofs, native runs, evidence")
	native := flag.Bool("native", false, "native runs only")
	replay := flag.String("replay", "", "run the input of a replay file again")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	runs := flag.Int("runs", 2500, "")
	verifDir := flag.String("verif", "/verif", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *replay != "" {
		return runReplay(*repo, *contracts, *replay)
	}
	if *check {
		return runCheck(*repo, *contracts, *verifDir, *prop, *tier, *seed)
	}
	t0 := time.Now()
	ov, err := readOverlay(*repo, *contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		return 2
	}
	re := regexp.MustCompile(*only)
	if *native {
		var cs []*NCase
		pk := map[string]bool{}
		for _, c := range ov.cases {
			if re.MatchString(c.Name) && (*prop == "" || c.hasProp(*prop)) {
				cs = append(cs, c)
				pk[c.Pkg] = true
			}
		}
		nat := buildNative(ov, mkdir(scratch()+"/native"), keysOf(pk))
		for k, e := range nat.errs {
			fmt.Println("BUILD", k, e)
		}
		for _, d := range ov.dropped {
			fmt.Println("dropped", d)
		}
		rs := nat.run(cs, runOpts{seed: *seed, runs: *runs, ms: int64(*runs) * 6}, 8)
		bad := 0
		for _, c := range cs {
			r := rs[c.Name]
			fmt.Printf("%-60s runs=%d skipped=%d distinct=%d complete=%v %dms %s\n", c.Name, r.Runs, r.Skipped, r.Distinct, r.Complete, r.MS, r.Err)
			if *verbose {
				for _, s := range r.Samples {
					fmt.Println("    sample", s)
				}
			}
			if r.Failure != nil {
				bad++
				fmt.Printf("    %s %s %s\n    args: %s\n    %s\n    choices %v\n", r.Failure.Kind, r.Failure.Clause, (&checker{ov: ov}).clauseText(r.Failure.Clause), r.Failure.Args, r.Failure.Detail, r.Failure.Choices)
			}
		}
		return bad
	}
	p, err := loadProgram(ov, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	for _, d := range ov.dropped {
		fmt.Println("dropped", d)
	}
	fmt.Fprintf(os.Stderr, "loaded in %v, %d contracts\n", time.Since(t0), len(p.contracts))
	var todo []*Contract
	for _, c := range p.contracts {
		if c.Kind == "bounded" || c.Imethod != "" {
			continue
		}
		if !re.MatchString(c.Name()) {
			continue
		}
		if *prop != "" && !c.hasProp(*prop) {
			continue
		}
		todo = append(todo, c)
	}
	if *list {
		for _, c := range todo {
			fmt.Println(c.Kind, c.Name(), c.Props, c.Tgt != nil)
		}
		return 0
	}
	bad := 0
	for _, c := range todo {
		t1 := time.Now()
		r := verify(p, c)
		counts := map[string]int{}
		for _, o := range r.Obls {
			counts[o.status]++
		}
		fmt.Printf("%-60s %v obls=%v cands=%d dropped=%d rounds=%d %s\n", c.Name(), time.Since(t1).Round(time.Millisecond), counts, r.Cands, r.Dropped, r.Rounds, r.Err)
		if !r.ok() {
			bad++
		}
		sort.SliceStable(r.Obls, func(i, j int) bool { return r.Obls[i].kind < r.Obls[j].kind })
		for _, o := range r.Obls {
			if o.status != "proved" || *verbose {
				fmt.Printf("   [%s] %s: %s (%s %dms) %s\n", o.status, o.kind, o.name, o.solver, o.ms, strings.ReplaceAll(o.output, "\n", " "))
				if o.status != "proved" && os.Getenv("GOVC_KEEP") != "" {
					f := fmt.Sprintf("/tmp/govc_fail_%d.smt2", len(o.name))
					os.WriteFile(f, []byte(o.script), 0o644)
					fmt.Println("      script:", f)
				}
			}
		}
		if *verbose {
			for _, c := range r.vc.cands {
				fmt.Printf("   cand %v user=%v %s: %s\n", c.active, c.user, c.loop, c.label)
			}
			for _, n := range r.Notes {
				fmt.Println("   note:", n)
			}
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
