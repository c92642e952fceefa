package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model interprets library functions. ok=false: not modelled.
func (v *VC) model(fr *frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach *Term, st *State) (Val, *Term, *State, bool) {
	b := v.b
	name := fn.String()
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	}
	if fn.Name() == "Parse" && strings.HasSuffix(pkg, "/pkg/parser") {
		return v.parseModel(fr, in, fn, args, reach, st)
	}
	if isRepoPkgPath(pkg) || pkg == "" {
		return nil, nil, nil, false
	}
	T := func(i int) *Term { return v.asTerm(args[i], paramType(fn, i)) }
	ret := func(x Val) (Val, *Term, *State, bool) { return x, reach, st, true }
	switch {
	case strings.HasPrefix(pkg, "github.com/sirupsen/logrus"), strings.HasPrefix(pkg, "github.com/davecgh/go-spew"):
		v.note("logging calls (logrus, spew) have no effect and do not panic; whether a level is enabled is arbitrary")
		var out TupleVal
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := b.Fresh("log!"+sanit(fn.Name()), v.sortOf(fn.Signature.Results().At(i).Type()))
			out = append(out, t)
		}
		return ret(pack(out))
	}
	switch name {
	case "strings.HasPrefix":
		return ret(b.App("str.prefixof", "Bool", T(1), T(0)))
	case "strings.HasSuffix":
		return ret(b.App("str.suffixof", "Bool", T(1), T(0)))
	case "strings.Contains":
		return ret(b.App("str.contains", "Bool", T(0), T(1)))
	case "strings.TrimPrefix":
		s, p := T(0), T(1)
		return ret(b.Ite(b.App("str.prefixof", "Bool", p, s), b.App("str.substr", "String", s, b.StrLen(p), b.Sub(b.StrLen(s), b.StrLen(p))), s))
	case "strings.TrimSuffix":
		s, p := T(0), T(1)
		return ret(b.Ite(b.App("str.suffixof", "Bool", p, s), b.App("str.substr", "String", s, b.Int(0), b.Sub(b.StrLen(s), b.StrLen(p))), s))
	case "strings.Index":
		return ret(b.App("str.indexof", "Int", T(0), T(1), b.Int(0)))
	case "strings.ReplaceAll":
		return ret(b.App("str.replace_all", "String", T(0), T(1), T(2)))
	case "strings.Replace":
		if n, ok := T(3).intVal(); ok && n == 1 {
			return ret(b.App("str.replace", "String", T(0), T(1), T(2)))
		}
		if n, ok := T(3).intVal(); ok && n < 0 {
			return ret(b.App("str.replace_all", "String", T(0), T(1), T(2)))
		}
	case "strings.Repeat":
		s, n := T(0), T(1)
		v.safety("strings.Repeat count not negative: "+v.srcText(in.Pos()), reach, b.Le(b.Int(0), n))
		r := b.UF("repeat", "String", s, n)
		v.assumeAlways(b.Implies(b.Le(b.Int(0), n), b.Eq(b.StrLen(r), b.Mul(n, b.StrLen(s)))))
		v.assumeAlways(b.Implies(b.Le(n, b.Int(0)), b.Eq(r, b.Str(""))))
		v.assumeAlways(b.Implies(b.Lt(b.Int(0), n), b.Eq(r, b.Concat(b.UF("repeat", "String", s, b.Sub(n, b.Int(1))), s))))
		v.assumeAlways(b.Eq(b.UF("repeat", "String", s, b.Int(0)), b.Str("")))
		return ret(r)
	case "unicode/utf8.DecodeRuneInString":
		r, w := v.decodeRune(T(0))
		return ret(TupleVal{r, w})
	case "unicode.Is":
		return ret(b.UF("unicode.Is", "Bool", b.Const("unicode!"+globalName(in, 0), "Int"), T(1)))
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsNumber", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsPunct":
		return ret(b.UF(name, "Bool", T(0)))
	case "unicode.ToLower", "unicode.ToUpper":
		return ret(b.UF(name, "Int", T(0)))
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.Title":
		r := b.UF(name, "String", T(0))
		if name == "strings.TrimSpace" {
			v.assumeAlways(b.App("str.contains", "Bool", T(0), r))
			v.assumeAlways(b.Implies(b.Eq(T(0), b.Str("")), b.Eq(r, b.Str(""))))
		}
		v.note("%s is an uninterpreted function of its argument", name)
		return ret(r)
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		r := b.UF(name, "String", T(0), T(1))
		v.assumeAlways(b.App("str.contains", "Bool", T(0), r))
		v.note("%s is an uninterpreted function of its arguments whose result is a substring of the first", name)
		return ret(r)
	case "strings.Split", "strings.Fields":
		var ts []*Term
		for i := range args {
			ts = append(ts, T(i))
		}
		n := b.UF(sanit(name)+"!len", "Int", ts...)
		low := b.Int(0)
		if name == "strings.Split" {
			low = b.Ite(b.And(b.Eq(ts[0], b.Str("")), b.Eq(ts[1], b.Str(""))), b.Int(0), b.Int(1))
			v.note("%s gives at least one text", name)
		}
		v.assumeAlways(b.Le(low, n))
		v.note("%s is an uninterpreted function (a new slice of texts)", name)
		r := v.newRef(st)
		k, hs := v.elemKey(types.Typ[types.String])
		st.h[k] = b.Store(v.hget(st, k, hs), r, b.UF(sanit(name)+"!texts", arrSort("Int", "String"), ts...))
		return ret(v.mkSlice(r, b.Int(0), n, n))
	case "math.Min", "math.Max":
		v.note("machine floats are real numbers")
		c := b.App("<=", "Bool", T(0), T(1))
		if name == "math.Max" {
			c = b.App("<=", "Bool", T(1), T(0))
		}
		return ret(b.Ite(c, T(0), T(1)))
	case "strconv.Itoa":
		return ret(v.itoa(T(0)))
	case "strconv.Atoi":
		s := T(0)
		ok := b.UF("isInt", "Bool", s)
		n := b.UF("atoi", "Int", s)
		e := v.freshErr("atoi")
		v.note("strconv.Atoi is an uninterpreted partial function, inverse of strconv.Itoa")
		return ret(TupleVal{b.Ite(ok, n, b.Int(0)), b.Ite(ok, v.anyNil(), e)})
	case "strconv.ParseBool":
		s := T(0)
		e := v.freshErr("parsebool")
		v.note("strconv.ParseBool is an uninterpreted partial function")
		ok := b.UF("isBool", "Bool", s)
		return ret(TupleVal{b.And(ok, b.UF("parsebool", "Bool", s)), b.Ite(ok, v.anyNil(), e)})
	case "fmt.Errorf", "github.com/pkg/errors.Errorf", "github.com/pkg/errors.New", "errors.New":
		return ret(v.freshErr("err"))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		e := T(0)
		return ret(b.Ite(b.Is(v.cNil, e), v.anyNil(), v.freshErr("err")))
	case "fmt.Sprintf":
		if r := v.sprintf(args, reach, st); r != nil {
			return ret(r)
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		x := T(0)
		content := x
		if name == "bytes.NewBuffer" {
			k, so := v.elemKey(types.Typ[types.Uint8])
			content = b.Ite(b.Eq(v.slLen(x), b.Int(0)), b.Str(""), v.bytesToStr(b.Select(v.hget(st, k, so), v.slBase(x)), v.slOff(x), v.slLen(x)))
		}
		r := v.newRef(st)
		v.storePtr(st, r, t, content)
		return ret(r)
	case "(*bytes.Buffer).Bytes":
		v.nilCheck(fr, args[0], reach, in.Pos(), "buffer")
		v.note("(*bytes.Buffer).Bytes returns a slice which isn't modified by later writes")
		return ret(v.strToBytes(v.asTerm(v.load(st, args[0], elemOf(fn)), nil), reach, st))
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		s := T2(v, args[1])
		v.nilCheck(fr, args[0], reach, in.Pos(), "builder")
		cur := v.asTerm(v.load(st, args[0], elemOf(fn)), nil)
		v.store(st, args[0], elemOf(fn), b.Concat(cur, s))
		return ret(TupleVal{b.StrLen(s), v.anyNil()})
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		sl := T2(v, args[1])
		k, so := v.elemKey(types.Typ[types.Uint8])
		row := b.Select(v.hget(st, k, so), v.slBase(sl))
		s := v.bytesToStr(row, v.slOff(sl), v.slLen(sl))
		v.nilCheck(fr, args[0], reach, in.Pos(), "builder")
		cur := v.asTerm(v.load(st, args[0], elemOf(fn)), nil)
		v.store(st, args[0], elemOf(fn), b.Concat(cur, s))
		return ret(TupleVal{v.slLen(sl), v.anyNil()})
	case "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune":
		x := T2(v, args[1])
		s := v.runeString(x)
		cur := v.asTerm(v.load(st, args[0], elemOf(fn)), nil)
		v.store(st, args[0], elemOf(fn), b.Concat(cur, s))
		if fn.Signature.Results().Len() == 1 {
			return ret(v.anyNil())
		}
		return ret(TupleVal{b.StrLen(s), v.anyNil()})
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return ret(v.asTerm(v.load(st, args[0], elemOf(fn)), nil))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return ret(b.StrLen(v.asTerm(v.load(st, args[0], elemOf(fn)), nil)))
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		v.store(st, args[0], elemOf(fn), b.Str(""))
		return ret(nil)
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		v.nilCheck(fr, args[0], reach, in.Pos(), "mutex")
		v.note("mutex operations have no effect on the proved (sequential) code")
		return ret(nil)
	case "(*sync.Once).Do":
	}
	for _, m := range extraModels {
		if r, rc, s2, ok := m(v, fr, in, fn, name, args, reach, st); ok {
			return r, rc, s2, true
		}
	}
	return nil, nil, nil, false
}

type modelFn func(v *VC, fr *frame, in ssa.Instruction, fn *ssa.Function, name string, args []Val, reach *Term, st *State) (Val, *Term, *State, bool)

var extraModels []modelFn

func T2(v *VC, x Val) *Term { return v.asTerm(x, nil) }

func elemOf(fn *ssa.Function) types.Type {
	return fn.Signature.Recv().Type().(*types.Pointer).Elem()
}

func isRepoPkgPath(p string) bool { return strings.HasPrefix(p, modPath) }

func paramType(fn *ssa.Function, i int) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		i--
	}
	return fn.Signature.Params().At(i).Type()
}

// assumeAlways adds a library fact that holds unconditionally
func (v *VC) assumeAlways(t *Term) {
	if t.bound || t.isTrue() {
		return
	}
	v.assumes = append(v.assumes, t)
}

func (v *VC) freshErr(tag string) *Term {
	b := v.b
	if v.spec > 0 {
		return b.Ctor(v.cOther, b.Const("errtag", "Int"), b.Const("specerr", "Int"))
	}
	return b.Ctor(v.cOther, b.Const("errtag", "Int"), b.Fresh("err!"+tag, "Int"))
}

func (v *VC) itoa(n *Term) *Term {
	b := v.b
	if k, ok := n.intVal(); ok {
		return b.Str(itoaGo(k))
	}
	r := b.UF("itoa", "String", n)
	if n.bound && !v.itoaAll {
		v.itoaAll = true
		q := b.BVar("itoa", "Int")
		x := b.UF("itoa", "String", q)
		v.assumeAlways(b.Quant("forall", []*Term{q}, b.And(b.UF("isInt", "Bool", x), b.Eq(b.UF("atoi", "Int", x), q), b.Lt(b.Int(0), b.StrLen(x))), []*Term{x}))
	}
	v.assumeAlways(b.And(b.UF("isInt", "Bool", r), b.Eq(b.UF("atoi", "Int", r), n), b.Lt(b.Int(0), b.StrLen(r))))
	return r
}

func itoaGo(k int64) string {
	if k < 0 {
		return "-" + itoaGo(-k)
	}
	if k < 10 {
		return string(rune('0' + k))
	}
	return itoaGo(k/10) + string(rune('0'+k%10))
}

// sprintf handles constant formats made of %s, %d, %v over statically typed string and int arguments.
func (v *VC) sprintf(args []Val, reach *Term, st *State) *Term {
	b := v.b
	f, ok := args[0].(*Term)
	if !ok || f.op != "str" {
		return nil
	}
	sl, ok := args[1].(*Term)
	if !ok {
		return nil
	}
	n, ok := v.slLen(sl).intVal()
	if !ok {
		return nil
	}
	k, so := v.elemKey(types.NewInterfaceType(nil, nil))
	row, ok := v.formatArgs[v.slBase(sl)]
	if !ok {
		row = b.Select(v.hget(st, k, so), v.slBase(sl))
	}
	var as []*Term
	for i := int64(0); i < n; i++ {
		as = append(as, b.Select(row, b.Add(v.slOff(sl), b.Int(i))))
	}
	out := b.Str("")
	ai := 0
	s := f.name
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = b.Concat(out, b.Str(string(s[i])))
			continue
		}
		i++
		if i >= len(s) {
			return nil
		}
		if s[i] == '%' {
			out = b.Concat(out, b.Str("%"))
			continue
		}
		if ai >= len(as) {
			return nil
		}
		a := as[ai]
		ai++
		c := b.dts.ctorOf(a)
		var t *Term
		if c != nil && len(c.fields) == 1 {
			switch c.fields[0] {
			case "String":
				if s[i] == 's' || s[i] == 'v' {
					t = a.args[0]
				}
			case "Int":
				if (s[i] == 'd' || s[i] == 'v') && !strings.HasPrefix(c.name, "box_ptr") {
					t = v.itoa(a.args[0])
				}
			}
		}
		if t == nil {
			t = b.UF("format!"+string(s[i]), "String", a)
			v.note("fmt verbs other than %%s on strings and %%d on ints are uninterpreted functions of the argument")
		}
		out = b.Concat(out, t)
	}
	if ai != len(as) {
		return nil
	}
	return out
}

// globalFacts: initial contents of package-level variables that are never reassigned (set up by registered extractors).
func (v *VC) globalFacts(st *State, reach *Term, g *ssa.Global) {
	if ups := v.p.globMap[g]; ups != nil && !v.p.globalsW[g] {
		b := v.b
		mt := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
		m := v.asTerm(v.load(st, &PathVal{kind: pGlobal, glob: g, typ: g.Type().Underlying().(*types.Pointer).Elem(), cur: g.Type().Underlying().(*types.Pointer).Elem()}, g.Type().Underlying().(*types.Pointer).Elem()), nil)
		dom := b.ConstArr(arrSort(v.sortOf(mt.Key()), "Bool"), b.False())
		for _, u := range ups {
			k, x := u.Key.(*ssa.Const), u.Value.(*ssa.Const)
			kt := v.constTerm(k.Value, mt.Key())
			dom = b.Store(dom, kt, b.True())
			v.assumeAlways(b.Eq(b.Select(v.mapVal(st, m, mt), kt), v.constTerm(x.Value, mt.Elem())))
		}
		v.assumeAlways(b.And(b.Not(b.Eq(m, b.Int(0))), b.Eq(v.mapDom(st, m, mt), dom)))
		v.note("package-level maps of constants which no function modifies have the contents they are declared with")
	}
	for _, h := range globalHooks {
		h(v, st, reach, g)
	}
}

var globalHooks []func(v *VC, st *State, reach *Term, g *ssa.Global)

// globalName: the package variable whose value is the i-th argument of the call
func globalName(in ssa.Instruction, i int) string {
	if c, ok := in.(ssa.CallInstruction); ok && i < len(c.Common().Args) {
		if u, ok := c.Common().Args[i].(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok {
				return g.Name()
			}
		}
	}
	unsup("call with a computed table")
	return ""
}

// runeString: string(x)
func (v *VC) runeString(x *Term) *Term {
	b := v.b
	u := b.UF("runeToString", "String", x)
	v.assumeAlways(b.And(b.Le(b.Int(2), b.StrLen(u)), b.Le(b.Int(128), b.App("str.to_code", "Int", b.App("str.at", "String", u, b.Int(0))))))
	v.note("string(rune): a single byte below 0x80, otherwise two to four bytes, the first of them not below 0x80")
	return b.Ite(b.And(b.Le(b.Int(0), x), b.Lt(x, b.Int(128))), b.App("str.from_code", "String", x), u)
}
