package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------- overlay ----------

// Overlay is the set of virtual files laid over /repo: contracts, the contract language and (for
// test builds) generators and the runner.
type Overlay struct {
	repo, contracts string
	files           map[string]string // virtual path -> content
	real            map[string]string // virtual path -> path under /verif
	test            map[string]bool   // only for native builds
	dropped         []string          // declarations removed because they no longer compile
	cases           []*NCase
}

// NCase is a contract that can be executed natively.
type NCase struct {
	Name, Dir, Pkg string
	Kind           string
	Target         string
	Props          []string
	Flags          map[string]string
	ConFn, GenFn   string
}

func (n *NCase) hasProp(p string) bool {
	for _, x := range n.Props {
		if x == p {
			return true
		}
	}
	return false
}

func readOverlay(repo, contracts string) (*Overlay, error) {
	o := &Overlay{repo: repo, contracts: contracts, files: map[string]string{}, real: map[string]string{}, test: map[string]bool{}}
	dsl, err := os.ReadFile(filepath.Join(contracts, "_dsl", "dsl.go.txt"))
	if err != nil {
		return nil, err
	}
	runner, err := os.ReadFile(filepath.Join(contracts, "_dsl", "runner.go.txt"))
	if err != nil {
		return nil, err
	}
	dirs := map[string]bool{}
	err = filepath.Walk(contracts, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contracts, p)
		dir, base := filepath.Dir(rel), filepath.Base(rel)
		if dir == "_dsl" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		v := filepath.Join(repo, dir, "zz_verif_"+base)
		if strings.HasPrefix(base, "gen_") {
			v = strings.TrimSuffix(v, ".go") + "_test.go"
			o.test[v] = true
		}
		o.files[v] = string(b)
		o.real[v] = p
		dirs[filepath.Join(repo, dir)] = true
		return nil
	})
	if err != nil {
		return nil, err
	}
	for d := range dirs {
		name := pkgNameOf(d)
		f := filepath.Join(d, "zz_verif_dsl.go")
		o.files[f] = strings.Replace(string(dsl), "package PKG", "package "+name, 1)
		f = filepath.Join(d, "zz_verif_runner_test.go")
		o.files[f] = strings.Replace(string(runner), "package PKG", "package "+name, 1)
		o.test[f] = true
	}
	o.scanCases()
	for d := range dirs {
		f := filepath.Join(d, "zz_verif_reg_test.go")
		o.files[f] = o.registry(d)
		o.test[f] = true
	}
	return o, nil
}

func (o *Overlay) scanCases() {
	gens := map[string]bool{}
	var paths []string
	for v := range o.real {
		paths = append(paths, v)
	}
	sort.Strings(paths)
	for _, v := range paths {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, v, o.files[v], parser.ParseComments)
		if err != nil {
			continue
		}
		dir := filepath.Dir(v)
		rel, _ := filepath.Rel(o.repo, dir)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if strings.HasPrefix(fd.Name.Name, "gen_") {
				gens[dir+"|"+fd.Name.Name] = true
			}
			if fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if !strings.HasPrefix(c.Text, "//verif:") {
					continue
				}
				kind, target, props, flags := parseDirective(c.Text)
				if kind != "contract" && kind != "bounded" || strings.HasPrefix(target, "iface:") || flags["nonative"] != "" {
					continue
				}
				n := &NCase{Kind: kind, Target: target, Props: props, Flags: flags, Dir: dir, Pkg: rel, ConFn: fd.Name.Name}
				n.Name = caseName(rel, target, flags)
				o.cases = append(o.cases, n)
			}
		}
	}
	for _, n := range o.cases {
		g := "gen_" + strings.TrimPrefix(n.ConFn, "contract_")
		if gens[n.Dir+"|"+g] {
			n.GenFn = g
		}
	}
	sort.Slice(o.cases, func(i, j int) bool { return o.cases[i].Name < o.cases[j].Name })
}

func caseName(rel, target string, flags map[string]string) string {
	if rel == "" || rel == "." {
		rel = "libasciidoc"
	}
	n := rel + "." + strings.NewReplacer("(*", "", ")", "").Replace(target)
	if v := flags["variant"]; v != "" {
		n += "@" + v
	}
	return n
}

func parseDirective(text string) (kind, target string, props []string, flags map[string]string) {
	flags = map[string]string{}
	fs := strings.Fields(strings.TrimPrefix(text, "//verif:"))
	if len(fs) == 0 {
		return
	}
	kind = fs[0]
	for _, f := range fs[1:] {
		if strings.HasPrefix(f, "props=") {
			props = strings.Split(f[6:], ",")
		} else if k := strings.Index(f, "="); k > 0 {
			flags[f[:k]] = f[k+1:]
		} else if target == "" && kind != "lemma" {
			target = f
		} else {
			flags[f] = "1"
		}
	}
	return
}

func (o *Overlay) registry(dir string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n", pkgNameOf(dir))
	for i, n := range o.cases {
		if n.Dir != dir {
			continue
		}
		gen := "nil"
		if n.GenFn != "" {
			gen = n.GenFn
		}
		num := 0
		if s := n.Flags["n"]; s != "" {
			num, _ = strconv.Atoi(s)
		}
		fmt.Fprintf(&b, "\nfunc init() { // %d\n\tverifRegister(&verifCase{name: %q, target: %s, contract: %s, gen: %s, nosafety: %v, bounded: %v, n: %d})\n}\n",
			i, n.Name, n.Target, n.ConFn, gen, n.Flags["nosafety"] != "", n.Kind == "bounded", num)
	}
	return b.String()
}

// drop blanks out the top-level declaration of virtual file f that covers line; it reports whether
// something was removed.
func (o *Overlay) drop(f string, line int) bool {
	src, ok := o.files[f]
	if !ok {
		return false
	}
	fs := token.NewFileSet()
	pf, err := parser.ParseFile(fs, f, src, parser.ParseComments)
	if err != nil {
		return false
	}
	for _, d := range pf.Decls {
		s, e := fs.Position(d.Pos()), fs.Position(d.End())
		var doc *ast.CommentGroup
		if fd, ok := d.(*ast.FuncDecl); ok {
			doc = fd.Doc
		}
		if line < s.Line || line > e.Line {
			continue
		}
		if doc != nil {
			s = fs.Position(doc.Pos())
		}
		name := ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			// unused import
			lines := strings.Split(src, "\n")
			lines[line-1] = ""
			o.files[f] = strings.Join(lines, "\n")
			return true
		}
		lines := strings.Split(src, "\n")
		for i := s.Line - 1; i < e.Line; i++ {
			lines[i] = ""
		}
		o.files[f] = strings.Join(lines, "\n")
		if !strings.HasSuffix(f, "zz_verif_reg_test.go") {
			o.dropped = append(o.dropped, filepath.Base(f)+": "+name)
		} else {
			o.dropped = append(o.dropped, strings.TrimSpace(lines[min(s.Line, len(lines)-1)])+"registration line "+strconv.Itoa(line))
		}
		return true
	}
	return false
}

var errPosRE = regexp.MustCompile(`(?m)((?:/|\.)?[\w./\-]*zz_verif_[\w\-]+\.go):(\d+)(?::\d+)?:? `)

func (o *Overlay) dropErrors(text string) bool {
	any := false
	type fl struct {
		f string
		l int
	}
	seen := map[fl]bool{}
	for _, m := range errPosRE.FindAllStringSubmatch(text, -1) {
		n, _ := strconv.Atoi(m[2])
		for f := range o.files {
			if filepath.Base(f) == filepath.Base(m[1]) && (strings.HasSuffix(f, strings.TrimLeft(m[1], "./")) || f == m[1]) {
				k := fl{f, n}
				if seen[k] {
					continue
				}
				seen[k] = true
				if o.drop(f, n) {
					any = true
				}
			}
		}
	}
	return any
}

// write materialises the overlay for the go command; extra test files of the packages are hidden.
func (o *Overlay) write(dir string, native bool) (string, error) {
	rep := map[string]string{}
	i := 0
	dirs := map[string]bool{}
	for v, c := range o.files {
		if o.test[v] && !native {
			continue
		}
		i++
		p := filepath.Join(dir, fmt.Sprintf("ov%d_%s", i, filepath.Base(v)))
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			return "", err
		}
		rep[v] = p
		dirs[filepath.Dir(v)] = true
	}
	if native {
		for d := range dirs {
			fs, _ := filepath.Glob(filepath.Join(d, "*_test.go"))
			for _, f := range fs {
				rep[f] = ""
			}
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, j, 0o644)
}

// ---------- native build and run ----------

type Native struct {
	o    *Overlay
	dir  string
	bins map[string]string // pkg rel dir -> test binary
	errs map[string]string
}

func goEnv() []string {
	env := os.Environ()
	has := map[string]bool{}
	for _, e := range env {
		has[strings.SplitN(e, "=", 2)[0]] = true
	}
	set := func(k, v string) {
		if !has[k] {
			env = append(env, k+"="+v)
		}
	}
	set("HOME", "/root")
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("CGO_ENABLED", "0")
	return env
}

func goCmd() string {
	if _, err := os.Stat("/opt/veriftools/go1.27.3/bin/go"); err == nil {
		return "/opt/veriftools/go1.27.3/bin/go"
	}
	return "go"
}

func buildNative(o *Overlay, dir string, pkgs []string) *Native {
	n := &Native{o: o, dir: dir, bins: map[string]string{}, errs: map[string]string{}}
	for _, pk := range pkgs {
		for try := 0; ; try++ {
			ov, err := o.write(dir, true)
			if err != nil {
				n.errs[pk] = err.Error()
				break
			}
			bin := filepath.Join(dir, strings.ReplaceAll(pk, "/", "_")+".test")
			cmd := exec.Command(goCmd(), "test", "-c", "-vet=off", "-gcflags=-e", "-overlay", ov, "-o", bin, "./"+pk)
			cmd.Dir = o.repo
			cmd.Env = goEnv()
			out, err := cmd.CombinedOutput()
			if err == nil {
				n.bins[pk] = bin
				break
			}
			if try < 12 && o.dropErrors(string(out)) {
				continue
			}
			n.errs[pk] = string(out)
			break
		}
	}
	return n
}

type NReport struct {
	Name     string   `json:"name"`
	Runs     int      `json:"runs"`
	Skipped  int      `json:"skipped"`
	Distinct int      `json:"distinct"`
	Complete bool     `json:"complete"`
	Samples  []string `json:"samples"`
	Failure  *struct {
		Kind    string `json:"kind"`
		Clause  string `json:"clause"`
		Args    string `json:"args"`
		Detail  string `json:"detail"`
		Choices []int  `json:"choices"`
	} `json:"failure,omitempty"`
	MS   int64  `json:"ms"`
	Err  string `json:"err,omitempty"`
	Case *NCase `json:"-"`
}

type runOpts struct {
	seed    int64
	runs    int
	ms      int64
	choices []int
	shard   int
	avoid   map[string][]string
}

func (n *Native) run(cases []*NCase, ro runOpts, par int) map[string]*NReport {
	out := map[string]*NReport{}
	var mu sync.Mutex
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	nb := 0
	for _, c := range cases {
		if c.Kind == "bounded" {
			nb++
		}
	}
	// bounded contracts run first, and in several processes with different seeds
	type job struct {
		c     *NCase
		shard int
	}
	var jobs []job
	for _, c := range cases {
		if c.Kind == "bounded" {
			for s := 0; s < max(1, min(6, par/nb)); s++ {
				jobs = append(jobs, job{c, s})
			}
		}
	}
	for _, c := range cases {
		if c.Kind != "bounded" {
			jobs = append(jobs, job{c, 0})
		}
	}
	for i, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(i int, c *NCase, shard int) {
			defer wg.Done()
			defer func() { <-sem }()
			o := ro
			o.shard = shard
			o.seed += int64(shard) * 1000003
			r := n.runOne(i, c, o)
			r.Case = c
			mu.Lock()
			defer mu.Unlock()
			p := out[c.Name]
			if p == nil {
				out[c.Name] = r
				return
			}
			p.Runs += r.Runs
			p.Skipped += r.Skipped
			p.Distinct = max(p.Distinct, r.Distinct) // a lower bound: shards may repeat each other
			p.MS = max(p.MS, r.MS)
			p.Samples = append(p.Samples, r.Samples...)
			if p.Failure == nil || r.Failure != nil && len(r.Failure.Args) < len(p.Failure.Args) {
				if r.Failure != nil {
					p.Failure = r.Failure
				}
			}
			if p.Err == "" {
				p.Err = r.Err
			}
		}(i, j.c, j.shard)
	}
	wg.Wait()
	return out
}

func (n *Native) runOne(i int, c *NCase, ro runOpts) *NReport {
	bin := n.bins[c.Pkg]
	if bin == "" {
		return &NReport{Name: c.Name, Err: "not built: " + clip(n.errs[c.Pkg], 400)}
	}
	do := func(trace string) (*NReport, string) {
		cfgf := filepath.Join(n.dir, fmt.Sprintf("cfg%d.json", i))
		outf := filepath.Join(n.dir, fmt.Sprintf("out%d.json", i))
		os.Remove(outf)
		cfg := map[string]interface{}{"names": []string{c.Name}, "seed": ro.seed, "runs": ro.runs, "ms": ro.ms, "out": outf, "trace": trace, "choices": ro.choices, "shard": ro.shard, "avoid": ro.avoid[c.Name]}
		b, _ := json.Marshal(cfg)
		os.WriteFile(cfgf, b, 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ro.ms)*time.Millisecond*2+60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifNative$", "-test.timeout", "0")
		cmd.Dir = c.Dir
		cmd.Env = append(goEnv(), "VERIF_NATIVE="+cfgf, "GOMEMLIMIT=3GiB", "GOMAXPROCS=2")
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		cmd.Run()
		b, err := os.ReadFile(outf)
		if err != nil || len(bytes.TrimSpace(b)) == 0 {
			return nil, clip(buf.String(), 3000)
		}
		r := &NReport{}
		if err := json.Unmarshal(bytes.TrimSpace(b), r); err != nil {
			return nil, err.Error()
		}
		return r, ""
	}
	r, crash := do("")
	if r != nil {
		return r
	}
	if !strings.Contains(crash, "fatal error") && !strings.Contains(crash, "panic") {
		return &NReport{Name: c.Name, Err: "no result: " + crash}
	}
	// the process died: find the input
	tr := filepath.Join(n.dir, fmt.Sprintf("trace%d.json", i))
	r, crash = do(tr)
	if r != nil {
		return r
	}
	r = &NReport{Name: c.Name, Runs: 1}
	var t struct {
		Args    string `json:"args"`
		Choices []int  `json:"choices"`
	}
	b, _ := os.ReadFile(tr)
	json.Unmarshal(b, &t)
	r.Failure = &struct {
		Kind    string `json:"kind"`
		Clause  string `json:"clause"`
		Args    string `json:"args"`
		Detail  string `json:"detail"`
		Choices []int  `json:"choices"`
	}{"safety", "the process survives the call", t.Args, clip(crash, 3000), t.Choices}
	return r
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
