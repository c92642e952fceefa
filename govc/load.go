package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bytesparadise/libasciidoc"

// Contract describes one `//verif:...` directive function.
type Contract struct {
	Kind    string // contract, lemma, bounded
	Target  string // as written
	Props   []string
	Flags   map[string]string
	Decl    *ast.FuncDecl
	Fn      *ssa.Function // the contract function
	Tgt     *ssa.Function // the function under contract (nil for lemma)
	Pkg     *packages.Package
	Imethod string     // "Iface.Method" if the target is an interface method
	Recv    types.Type // receiver type, if derived from the contract of an interface method
}

func (c *Contract) Name() string {
	p := strings.TrimPrefix(strings.TrimPrefix(c.Pkg.PkgPath, modPath), "/")
	if c.Kind == "lemma" {
		return caseName(p, c.Fn.Name(), nil)
	}
	return caseName(p, c.Target, c.Flags)
}

func (c *Contract) hasProp(p string) bool {
	for _, x := range c.Props {
		if x == p {
			return true
		}
	}
	return false
}

// Program is the loaded /repo with the contract overlay.
type Program struct {
	fset      *token.FileSet
	pkgs      []*packages.Package
	byPath    map[string]*packages.Package
	ssa       *ssa.Program
	spkgs     map[string]*ssa.Package
	contracts []*Contract
	byTarget  map[*ssa.Function][]*Contract
	lemmas    map[*ssa.Function]*Contract
	overlayFn map[*ssa.Function]bool // functions defined in overlay files
	recSpec   map[*ssa.Function]bool
	dslFn     map[*ssa.Function]string
	src       map[string][]string // file -> lines
	implsMemo map[string][]types.Type
	allNamed  []*types.Named
	repoDir   string
	globalsW  map[*ssa.Global]bool          // globals written outside init
	globFn    map[*ssa.Global]*ssa.Function // initial value, when it is a function
	globMap   map[*ssa.Global][]*ssa.MapUpdate // initial contents of maps which are never modified
}

func loadProgram(ov *Overlay, patterns []string) (*Program, error) {
	for try := 0; ; try++ {
		p, errs, err := loadOnce(ov, patterns)
		if err != nil {
			return nil, err
		}
		if errs == "" {
			return p, nil
		}
		if try > 12 || !ov.dropErrors(errs) {
			return nil, fmt.Errorf("load: %s", clip(errs, 1500))
		}
	}
}

func loadOnce(ov *Overlay, patterns []string) (*Program, string, error) {
	p := &Program{fset: token.NewFileSet(), byPath: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{},
		byTarget: map[*ssa.Function][]*Contract{}, lemmas: map[*ssa.Function]*Contract{}, overlayFn: map[*ssa.Function]bool{},
		recSpec: map[*ssa.Function]bool{}, dslFn: map[*ssa.Function]string{}, src: map[string][]string{}, implsMemo: map[string][]types.Type{}, repoDir: ov.repo, globalsW: map[*ssa.Global]bool{}, globFn: map[*ssa.Global]*ssa.Function{}, globMap: map[*ssa.Global][]*ssa.MapUpdate{}}
	overlay := map[string][]byte{}
	for o, c := range ov.files {
		if ov.test[o] {
			continue
		}
		overlay[o] = []byte(c)
		p.src[o] = strings.Split(c, "\n")
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax, // dependencies outside the module come from export data
		Dir:     ov.repo,
		Fset:    p.fset,
		Overlay: overlay,
		Env:     goEnv(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, "", err
	}
	var errs strings.Builder
	for _, k := range pkgs {
		for _, e := range k.Errors {
			errs.WriteString(e.Error() + " \n")
		}
	}
	if errs.Len() > 0 {
		return nil, errs.String(), nil
	}
	p.pkgs = pkgs
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.ssa = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, "", fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		p.byPath[pkgs[i].PkgPath] = pkgs[i]
		p.spkgs[pkgs[i].PkgPath] = sp
	}
	prog.Build()
	p.collect()
	return p, "", nil
}

func pkgNameOf(dir string) string {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					return strings.Fields(l)[1]
				}
			}
		}
	}
	return filepath.Base(dir)
}

func (p *Program) isOverlayFile(f string) bool {
	return strings.HasPrefix(filepath.Base(f), "zz_verif_")
}

func (p *Program) collect() {
	p.globals()
	for _, pk := range p.pkgs {
		sp := p.spkgs[pk.PkgPath]
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					p.allNamed = append(p.allNamed, n)
				}
			}
		}
		for _, f := range pk.Syntax {
			fn := p.fset.Position(f.Pos()).Filename
			if !p.isOverlayFile(fn) {
				continue
			}
			isDSL := strings.HasSuffix(fn, "zz_verif_dsl.go")
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if sf == nil {
					// generic functions
					if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						sf = p.ssa.FuncValue(o)
					}
				}
				if sf == nil {
					continue
				}
				p.overlayFn[sf] = true
				if isDSL {
					p.dslFn[sf] = fd.Name.Name
					continue
				}
				if fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:") {
						p.addContract(pk, fd, sf, c.Text)
					}
				}
			}
		}
	}
	sort.Slice(p.allNamed, func(i, j int) bool { return p.allNamed[i].String() < p.allNamed[j].String() })
	p.deriveImpls()
	sort.Slice(p.contracts, func(i, j int) bool { return p.contracts[i].Name() < p.contracts[j].Name() })
	// recursive spec functions
	for fn := range p.overlayFn {
		if p.dslFn[fn] == "" && p.lemmas[fn] == nil && p.reaches(fn, fn, map[*ssa.Function]bool{}) {
			p.recSpec[fn] = true
		}
	}
}

func allFuncs(sp *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			t := m.Type()
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				ms := sp.Prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					f := sp.Prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == sp {
						add(f)
					}
				}
			}
		}
	}
	return out
}

func (p *Program) reaches(from, to *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[from] {
		return false
	}
	seen[from] = true
	check := func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if (p.overlayFn[f] && p.dslFn[f] == "") || f.Parent() != nil {
			return p.reaches(f, to, seen)
		}
		return false
	}
	for _, a := range from.AnonFuncs {
		if check(a) {
			return true
		}
	}
	for _, b := range from.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && check(f) {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) addContract(pk *packages.Package, fd *ast.FuncDecl, sf *ssa.Function, text string) {
	c := &Contract{Decl: fd, Fn: sf, Pkg: pk}
	c.Kind, c.Target, c.Props, c.Flags = parseDirective(text)
	switch c.Kind {
	case "lemma":
		p.lemmas[sf] = c
		p.contracts = append(p.contracts, c)
		return
	case "contract", "bounded":
		if strings.HasPrefix(c.Target, "iface:") {
			c.Imethod = c.Target[6:]
		} else {
			c.Tgt = p.findTarget(pk, c.Target)
		}
		p.contracts = append(p.contracts, c)
		if c.Tgt != nil && c.Kind == "contract" {
			p.byTarget[c.Tgt] = append(p.byTarget[c.Tgt], c)
		}
	case "init", "gen", "spec":
	default:
		fmt.Fprintf(os.Stderr, "unknown directive %s\n", text)
	}
}

func (p *Program) findTarget(pk *packages.Package, target string) *ssa.Function {
	sp := p.spkgs[pk.PkgPath]
	if k := strings.LastIndex(target, "."); k >= 0 {
		tn := strings.Trim(target[:k], "()*")
		m := target[k+1:]
		if t := sp.Type(tn); t != nil {
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := p.ssa.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == m {
						f := p.ssa.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							return f
						}
					}
				}
			}
		}
		return nil
	}
	if f := sp.Func(target); f != nil {
		return f
	}
	if g := sp.Var(target); g != nil && !p.globalsW[g] {
		return p.globFn[g] // a variable whose only value is a function
	}
	return nil
}

// implementers returns the concrete types (T or *T) of the program that implement iface.
func (p *Program) implementers(iface *types.Interface) []types.Type {
	key := iface.String()
	if r, ok := p.implsMemo[key]; ok {
		return r
	}
	var out []types.Type
	for _, n := range p.allNamed {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(n, iface) {
			out = append(out, n)
		}
		if _, ok := n.Underlying().(*types.Interface); !ok {
			pt := types.NewPointer(n)
			if types.Implements(pt, iface) {
				out = append(out, pt)
			}
		}
	}
	p.implsMemo[key] = out
	return out
}

func (p *Program) srcLines(f string) []string {
	if l, ok := p.src[f]; ok {
		return l
	}
	b, err := os.ReadFile(f)
	if err != nil {
		p.src[f] = nil
		return nil
	}
	p.src[f] = strings.Split(string(b), "\n")
	return p.src[f]
}

// deriveImpls: every implementation of an interface method under contract is held to that contract
func (p *Program) deriveImpls() {
	for _, c := range append([]*Contract{}, p.contracts...) {
		if c.Imethod == "" || c.Kind != "contract" || c.Flags["assumed"] != "" {
			continue
		}
		k := strings.Index(c.Imethod, ".")
		o := c.Pkg.Types.Scope().Lookup(c.Imethod[:k])
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		seen := map[*ssa.Function]bool{}
		for _, t := range p.implementers(it) {
			ms := p.ssa.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() != c.Imethod[k+1:] {
					continue
				}
				fn := p.ssa.MethodValue(ms.At(i))
				if fn == nil || fn.Synthetic != "" || seen[fn] {
					continue
				}
				seen[fn] = true
				d := *c
				d.Imethod = ""
				d.Recv = t
				d.Tgt = fn
				d.Flags = map[string]string{}
				for k, v := range c.Flags {
					d.Flags[k] = v
				}
				d.Target = types.TypeString(t, func(*types.Package) string { return "" }) + "." + c.Imethod[k+1:]
				d.Flags["variant"] = c.Imethod[:k]
				p.contracts = append(p.contracts, &d)
				p.byTarget[fn] = append(p.byTarget[fn], &d)
			}
		}
	}
}

// constMaps: package-level maps of constants, which are set up once and only ever read
func (p *Program) constMaps() {
	bad := map[*ssa.Global]bool{}
	for _, sp := range p.spkgs {
		for fn := range allFuncs(sp) {
			init := fn.Name() == "init" && fn.Synthetic != ""
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && init {
						if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg == fn.Pkg {
							ups, ok := constUpdates(s.Val, s)
							if !ok || p.globMap[g] != nil {
								bad[g] = true
							} else {
								p.globMap[g] = ups
							}
							continue
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && !onlyRead(in) {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for g := range bad {
		delete(p.globMap, g)
	}
}

// onlyRead: the instruction loads a map which is then only looked up
func onlyRead(in ssa.Instruction) bool {
	if _, ok := in.(*ssa.DebugRef); ok {
		return true
	}
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	for _, r := range *u.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				if f := r.Call.StaticCallee(); f == nil || !strings.HasPrefix(f.Name(), "hasKey") && !strings.HasPrefix(f.Name(), "mapKeys") {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func constUpdates(x ssa.Value, st *ssa.Store) ([]*ssa.MapUpdate, bool) {
	m, ok := x.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	ups := []*ssa.MapUpdate{}
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			_, k := r.Key.(*ssa.Const)
			_, v := r.Value.(*ssa.Const)
			if !k || !v || r.Map != x {
				return nil, false
			}
			ups = append(ups, r)
		case *ssa.DebugRef:
		default:
			if r != ssa.Instruction(st) {
				return nil, false
			}
		}
	}
	return ups, true
}

func (p *Program) globals() {
	p.constMaps()
	// globals written outside of init
	for _, sp := range p.spkgs {
		for fn := range allFuncs(sp) {
			init := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							if !init || p.globFn[g] != nil {
								p.globalsW[g] = true
								continue
							}
							x := s.Val
							if c, ok := x.(*ssa.ChangeType); ok {
								x = c.X
							}
							if f, ok := x.(*ssa.Function); ok {
								p.globFn[g] = f
							}
						}
					}
				}
			}
		}
	}
}
