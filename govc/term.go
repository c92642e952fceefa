package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // "const" (symbol), "int", "str", "bool", "var" (bound), or an operator / function name
	name  string // symbol / literal text
	args  []*Term
	sort  string
	bound bool    // contains a bound variable free in it
	bvars []*Term // for quantifiers
	pats  [][]*Term
	rec   bool // application of a recursive spec function
	qrec  bool // contains quantifier
}

// TB is the term bank of one verification run.
type TB struct {
	tab    map[string]*Term
	n      int
	fresh  map[string]int
	consts map[string]*Term // declared symbols
	funs   map[string]funDecl
	dts    *datatypes
}

type funDecl struct {
	args []string
	ret  string
}

func newTB() *TB {
	return &TB{tab: map[string]*Term{}, fresh: map[string]int{}, consts: map[string]*Term{}, funs: map[string]funDecl{}, dts: newDatatypes()}
}

func (b *TB) mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	t := &Term{id: b.n, op: op, name: name, args: args, sort: srt}
	b.n++
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if a.qrec {
			t.qrec = true
		}
	}
	if op == "var" {
		t.bound = true
	}
	b.tab[k] = t
	return t
}

func (b *TB) Int(n int64) *Term { return b.mk("int", strconv.FormatInt(n, 10), "Int") }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.mk("bool", "true", "Bool")
	}
	return b.mk("bool", "false", "Bool")
}
func (b *TB) True() *Term        { return b.Bool(true) }
func (b *TB) False() *Term       { return b.Bool(false) }
func (b *TB) Str(s string) *Term { return b.mk("str", s, "String") }
func (t *Term) isTrue() bool     { return t.op == "bool" && t.name == "true" }
func (t *Term) isFalse() bool    { return t.op == "bool" && t.name == "false" }
func (t *Term) intVal() (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.name, 10, 64)
	return n, err == nil
}

func (b *TB) Const(name, srt string) *Term {
	t := b.mk("const", name, srt)
	b.consts[name] = t
	return t
}

func (b *TB) Fresh(prefix, srt string) *Term {
	b.fresh[prefix]++
	return b.Const(fmt.Sprintf("%s!%d", prefix, b.fresh[prefix]), srt)
}

func (b *TB) BVar(prefix, srt string) *Term {
	b.fresh["?"+prefix]++
	return b.mk("var", fmt.Sprintf("?%s_%d", prefix, b.fresh["?"+prefix]), srt)
}

func (b *TB) App(f, srt string, args ...*Term) *Term { return b.mk(f, "", srt, args...) }

// UF declares (if necessary) and applies an uninterpreted function.
func (b *TB) UF(f, ret string, args ...*Term) *Term {
	if _, ok := b.funs[f]; !ok {
		d := funDecl{ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		b.funs[f] = d
	}
	if len(args) == 0 {
		return b.Const(f, ret)
	}
	return b.mk("uf:"+f, "", ret, args...)
}

func (b *TB) Not(t *Term) *Term {
	if t.isTrue() {
		return b.False()
	}
	if t.isFalse() {
		return b.True()
	}
	if t.op == "not" {
		return t.args[0]
	}
	return b.App("not", "Bool", t)
}

func (b *TB) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() {
			return false
		}
		if t.isTrue() || seen[t.id] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		if t.op == "not" && seen[t.args[0].id] {
			return false
		}
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return b.False()
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0].id] {
			return b.False()
		}
	}
	switch len(out) {
	case 0:
		return b.True()
	case 1:
		return out[0]
	}
	return b.App("and", "Bool", out...)
}

func (b *TB) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == "or" {
			for _, a := range t.args {
				flat(a)
			}
			return
		}
		if t.isFalse() || seen[t.id] {
			return
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, t := range ts {
		flat(t)
	}
	for _, t := range out {
		if t.isTrue() {
			return b.True()
		}
		if t.op == "not" && seen[t.args[0].id] {
			return b.True()
		}
	}
	// (a and c) or (a and not c) -> a
	if len(out) == 2 {
		if r := b.factor(out[0], out[1]); r != nil {
			return r
		}
	}
	switch len(out) {
	case 0:
		return b.False()
	case 1:
		return out[0]
	}
	return b.App("or", "Bool", out...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// factor simplifies (P and c) or (P and not c) to P, and (P) or (P and c) to P.
func (b *TB) factor(x, y *Term) *Term {
	cx, cy := conj(x), conj(y)
	inx := map[int]bool{}
	iny := map[int]bool{}
	for _, t := range cx {
		inx[t.id] = true
	}
	for _, t := range cy {
		iny[t.id] = true
	}
	var common, dx, dy []*Term
	for _, t := range cx {
		if iny[t.id] {
			common = append(common, t)
		} else {
			dx = append(dx, t)
		}
	}
	for _, t := range cy {
		if !inx[t.id] {
			dy = append(dy, t)
		}
	}
	if len(dx) == 0 || len(dy) == 0 {
		return b.And(common...)
	}
	if len(dx) == 1 && len(dy) == 1 && b.Not(dx[0]) == dy[0] {
		return b.And(common...)
	}
	if len(common) > 0 {
		return b.And(append(append([]*Term{}, common...), b.App("or", "Bool", b.And(dx...), b.And(dy...)))...)
	}
	return nil
}

func (b *TB) Implies(p, q *Term) *Term {
	if p.isTrue() {
		return q
	}
	if p.isFalse() || q.isTrue() {
		return b.True()
	}
	if q.isFalse() {
		return b.Not(p)
	}
	if p == q {
		return b.True()
	}
	return b.App("=>", "Bool", p, q)
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == "Bool" {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	if y.op == "ite" && y.args[0] == c {
		y = y.args[2]
	}
	if x.op == "ite" && x.args[0] == c {
		x = x.args[1]
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("ite sort mismatch: %s vs %s", x.sort, y.sort))
	}
	return b.App("ite", x.sort, c, x, y)
}

func isLit(t *Term) bool { return t.op == "int" || t.op == "str" || t.op == "bool" }

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("eq sort mismatch: %s (%s) vs %s (%s)", x.sort, x.op, y.sort, y.op))
	}
	if isLit(x) && isLit(y) {
		return b.False()
	}
	if x.sort == "Bool" {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.sort == "Int" && b.distinctInts(x, y) {
		return b.False()
	}
	if cx, cy := b.dts.ctorOf(x), b.dts.ctorOf(y); cx != nil && cy != nil {
		if cx != cy {
			return b.False()
		}
		var cs []*Term
		for i := range x.args {
			cs = append(cs, b.Eq(x.args[i], y.args[i]))
		}
		return b.And(cs...)
	}
	if x.op == "ite" && isLit(y) && isLit(x.args[1]) && isLit(x.args[2]) {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if y.op == "ite" && isLit(x) && isLit(y.args[1]) && isLit(y.args[2]) {
		return b.Ite(y.args[0], b.Eq(y.args[1], x), b.Eq(y.args[2], x))
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.App("=", "Bool", x, y)
}

// base + offset decomposition of ints
func splitInt(t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.op == "+" && len(t.args) == 2 {
		if n, ok := t.args[1].intVal(); ok {
			return t.args[0], n
		}
	}
	return t, 0
}

func (b *TB) distinctInts(x, y *Term) bool {
	bx, ox := splitInt(x)
	by, oy := splitInt(y)
	return bx == by && ox != oy
}

func (b *TB) Add(x, y *Term) *Term {
	bx, ox := splitInt(x)
	by, oy := splitInt(y)
	o := ox + oy
	switch {
	case bx == nil && by == nil:
		return b.Int(o)
	case bx == nil:
		return b.addc(by, o)
	case by == nil:
		return b.addc(bx, o)
	}
	// x - y + y
	if bx.op == "-" && len(bx.args) == 2 && bx.args[1] == by {
		return b.Add(bx.args[0], b.Int(o))
	}
	if by.op == "-" && len(by.args) == 2 && by.args[1] == bx {
		return b.Add(by.args[0], b.Int(o))
	}
	if bx.id > by.id {
		bx, by = by, bx
	}
	return b.addc(b.App("+", "Int", bx, by), o)
}

func (b *TB) addc(t *Term, o int64) *Term {
	if o == 0 {
		return t
	}
	return b.App("+", "Int", t, b.Int(o))
}

func (b *TB) Sub(x, y *Term) *Term {
	bx, ox := splitInt(x)
	by, oy := splitInt(y)
	o := ox - oy
	if bx == by {
		return b.Int(o)
	}
	if by == nil {
		return b.addc(bx, o)
	}
	if bx == nil {
		return b.App("-", "Int", b.Int(o), by)
	}
	if bx.op == "+" && len(bx.args) == 2 {
		if bx.args[0] == by {
			return b.addc(bx.args[1], o)
		}
		if bx.args[1] == by {
			return b.addc(bx.args[0], o)
		}
	}
	return b.addc(b.App("-", "Int", bx, by), o)
}

func (b *TB) Mul(x, y *Term) *Term {
	if n, ok := x.intVal(); ok {
		if m, ok := y.intVal(); ok {
			return b.Int(n * m)
		}
		if n == 1 {
			return y
		}
		if n == 0 {
			return x
		}
	}
	if n, ok := y.intVal(); ok {
		if n == 1 {
			return x
		}
		if n == 0 {
			return y
		}
	}
	return b.App("*", "Int", x, y)
}

func (b *TB) Lt(x, y *Term) *Term { return b.cmp("<", x, y) }
func (b *TB) Le(x, y *Term) *Term { return b.cmp("<=", x, y) }

func (b *TB) cmp(op string, x, y *Term) *Term {
	if x.sort == "Int" {
		bx, ox := splitInt(x)
		by, oy := splitInt(y)
		if bx == by {
			if op == "<" {
				return b.Bool(ox < oy)
			}
			return b.Bool(ox <= oy)
		}
	}
	return b.App(op, "Bool", x, y)
}

func arrSorts(s string) (string, string) {
	// "(Array X Y)"
	body := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func (b *TB) Select(a, i *Term) *Term {
	_, v := arrSorts(a.sort)
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if (i.sort == "Int" && b.distinctInts(a.args[1], i)) || (isLit(i) && isLit(a.args[1])) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	return b.App("select", v, a, i)
}

func (b *TB) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return b.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	_, vs := arrSorts(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	return b.App("store", a.sort, a, i, v)
}

func (b *TB) ConstArr(srt string, v *Term) *Term { return b.mk("constarr", "", srt, v) }

func (b *TB) Concat(x, y *Term) *Term {
	if x.op == "str" && x.name == "" {
		return y
	}
	if y.op == "str" && y.name == "" {
		return x
	}
	if x.op == "str" && y.op == "str" {
		return b.Str(x.name + y.name)
	}
	// right-assoc literal merging
	if x.op == "str.++" && x.args[1].op == "str" && y.op == "str" {
		return b.Concat(x.args[0], b.Str(x.args[1].name+y.name))
	}
	// left associate
	if y.op == "str.++" {
		return b.Concat(b.Concat(x, y.args[0]), y.args[1])
	}
	return b.App("str.++", "String", x, y)
}

func (b *TB) StrLen(s *Term) *Term {
	if s.op == "str" {
		return b.Int(int64(len(s.name)))
	}
	return b.App("str.len", "Int", s)
}

func (b *TB) Quant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	names := []string{}
	for _, v := range vars {
		names = append(names, v.name)
	}
	k := q + ":" + strings.Join(names, ",")
	t := b.mk(q, k, "Bool", body)
	t.bvars = vars
	t.pats = pats
	t.qrec = true
	// bound = has other free bound variables
	t.bound = hasFreeBound(t)
	return t
}

func hasFreeBound(t *Term) bool {
	fv := map[string]bool{}
	var walk func(t *Term, bd map[string]int)
	walk = func(t *Term, bd map[string]int) {
		if t.op == "var" {
			if bd[t.name] == 0 {
				fv[t.name] = true
			}
			return
		}
		if !t.bound && !(t.op == "forall" || t.op == "exists") {
			return
		}
		for _, v := range t.bvars {
			bd[v.name]++
		}
		for _, a := range t.args {
			walk(a, bd)
		}
		for _, v := range t.bvars {
			bd[v.name]--
		}
	}
	walk(t, map[string]int{})
	return len(fv) > 0
}

// Subst replaces terms by terms (bottom-up, rebuilding through the smart constructors).
func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = b.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (b *TB) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "and":
		return b.And(a...)
	case "or":
		return b.Or(a...)
	case "not":
		return b.Not(a[0])
	case "=>":
		return b.Implies(a[0], a[1])
	case "ite":
		return b.Ite(a[0], a[1], a[2])
	case "=":
		return b.Eq(a[0], a[1])
	case "+":
		return b.Add(a[0], a[1])
	case "-":
		if len(a) == 2 {
			return b.Sub(a[0], a[1])
		}
	case "*":
		return b.Mul(a[0], a[1])
	case "<", "<=":
		return b.cmp(t.op, a[0], a[1])
	case "select":
		return b.Select(a[0], a[1])
	case "store":
		return b.Store(a[0], a[1], a[2])
	case "str.++":
		return b.Concat(a[0], a[1])
	case "str.len":
		return b.StrLen(a[0])
	case "forall", "exists":
		return b.Quant(t.op, t.bvars, a[0])
	}
	if strings.HasPrefix(t.op, "acc:") || strings.HasPrefix(t.op, "is:") {
		return b.dts.rebuildAcc(b, t, a[0])
	}
	r := b.mk(t.op, t.name, t.sort, a...)
	r.rec = t.rec
	return r
}

// ---------- datatypes ----------

type ctor struct {
	name   string
	fields []string // sorts
	dt     string
}

type datatypes struct {
	decl  map[string][]*ctor // sort -> ctors
	order []string
	ctors map[string]*ctor
}

func newDatatypes() *datatypes {
	return &datatypes{decl: map[string][]*ctor{}, ctors: map[string]*ctor{}}
}

func (d *datatypes) add(dt, name string, fields ...string) *ctor {
	if c, ok := d.ctors[name]; ok {
		return c
	}
	if _, ok := d.decl[dt]; !ok {
		d.order = append(d.order, dt)
	}
	c := &ctor{name: name, fields: fields, dt: dt}
	d.decl[dt] = append(d.decl[dt], c)
	d.ctors[name] = c
	return c
}

func (d *datatypes) ctorOf(t *Term) *ctor {
	if strings.HasPrefix(t.op, "ctor:") {
		return d.ctors[t.op[5:]]
	}
	return nil
}

func (b *TB) Ctor(c *ctor, args ...*Term) *Term {
	if len(args) != len(c.fields) {
		panic("ctor arity " + c.name)
	}
	for i := range args {
		if args[i].sort != c.fields[i] {
			panic(fmt.Sprintf("ctor %s field %d: %s vs %s", c.name, i, args[i].sort, c.fields[i]))
		}
	}
	// mk(acc0(x),...,accn(x)) -> x for single constructor datatypes
	if len(args) > 0 && len(b.dts.decl[c.dt]) == 1 {
		var x *Term
		ok := true
		for i, a := range args {
			if a.op != fmt.Sprintf("acc:%s.%d", c.name, i) || (x != nil && a.args[0] != x) {
				ok = false
				break
			}
			x = a.args[0]
		}
		if ok {
			return x
		}
	}
	return b.mk("ctor:"+c.name, "", c.dt, args...)
}

func (b *TB) Acc(c *ctor, i int, t *Term) *Term {
	if k := b.dts.ctorOf(t); k != nil {
		if k == c {
			return t.args[i]
		}
	}
	if t.op == "ite" && (b.dts.ctorOf(t.args[1]) == c || b.dts.ctorOf(t.args[2]) == c || t.args[1].op == "ite" || t.args[2].op == "ite") {
		return b.Ite(t.args[0], b.Acc(c, i, t.args[1]), b.Acc(c, i, t.args[2]))
	}
	return b.mk(fmt.Sprintf("acc:%s.%d", c.name, i), "", c.fields[i], t)
}

func (b *TB) Is(c *ctor, t *Term) *Term {
	if k := b.dts.ctorOf(t); k != nil {
		return b.Bool(k == c)
	}
	if t.op == "ite" {
		return b.Ite(t.args[0], b.Is(c, t.args[1]), b.Is(c, t.args[2]))
	}
	return b.mk("is:"+c.name, "", "Bool", t)
}

func (d *datatypes) rebuildAcc(b *TB, t *Term, a *Term) *Term {
	if strings.HasPrefix(t.op, "is:") {
		return b.Is(d.ctors[t.op[3:]], a)
	}
	s := t.op[4:]
	k := strings.LastIndex(s, ".")
	i, _ := strconv.Atoi(s[k+1:])
	return b.Acc(d.ctors[s[:k]], i, a)
}

// ---------- printing ----------

func smtSym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("~!@$%^&*_-+=<>.?/", c)) {
			ok = false
			break
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString("\"\"")
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func sortPrint(s string) string { return s }

type printer struct {
	b     *TB
	names map[*Term]string
	out   *strings.Builder
	syms  map[string]bool
	z3    bool
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.raw(t)
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case "int":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")"
		}
		return t.name
	case "bool", "var", "real":
		return t.name
	case "str":
		return smtStr(t.name)
	case "const":
		return smtSym(t.name)
	case "constarr":
		// cvc5 wants a literal value here, so no shared names inside
		q := &printer{b: p.b, names: map[*Term]string{}, out: p.out}
		return "((as const " + t.sort + ") " + q.raw(t.args[0]) + ")"
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			sb.WriteString("(" + v.name + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.expr(t.args[0]))
		for _, ps := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range ps {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(p.expr(x))
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	op := t.op
	switch {
	case strings.HasPrefix(op, "uf:"):
		op = smtSym(op[3:])
	case strings.HasPrefix(op, "ctor:"):
		op = smtSym(op[5:])
		if len(t.args) == 0 {
			return op
		}
	case strings.HasPrefix(op, "acc:"):
		op = smtSym(op[4:])
	case strings.HasPrefix(op, "is:"):
		op = "(_ is " + smtSym(op[3:]) + ")"
	}
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.expr(a))
	}
	sb.WriteString(")")
	return sb.String()
}

// script prints a full query: assumptions and the negated goal.
func (b *TB) script(asserts []*Term, logic string, wantModel bool) string {
	var out strings.Builder
	if wantModel {
		out.WriteString("(set-option :produce-models true)\n")
	}
	out.WriteString("(set-logic " + logic + ")\n")
	// collect
	order := []*Term{}
	seen := map[*Term]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		seen[t]++
		if seen[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, ps := range t.pats {
			for _, x := range ps {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	// sorts & datatypes
	usedSorts := map[string]bool{}
	var useSort func(s string)
	useSort = func(s string) {
		if usedSorts[s] {
			return
		}
		usedSorts[s] = true
		if strings.HasPrefix(s, "(Array ") {
			k, v := arrSorts(s)
			useSort(k)
			useSort(v)
			return
		}
		for _, c := range b.dts.decl[s] {
			for _, f := range c.fields {
				useSort(f)
			}
		}
	}
	consts := []string{}
	funs := map[string]bool{}
	cseen := map[string]bool{}
	for _, t := range order {
		useSort(t.sort)
		for _, v := range t.bvars {
			useSort(v.sort)
		}
		if t.op == "const" && !cseen[t.name] {
			cseen[t.name] = true
			consts = append(consts, t.name)
		}
		if strings.HasPrefix(t.op, "uf:") {
			funs[t.op[3:]] = true
		}
		if strings.HasPrefix(t.op, "acc:") || strings.HasPrefix(t.op, "is:") {
			for _, a := range t.args {
				useSort(a.sort)
			}
		}
	}
	for f := range funs {
		for _, s := range b.funs[f].args {
			useSort(s)
		}
	}
	var dnames []string
	for _, d := range b.dts.order {
		if usedSorts[d] {
			dnames = append(dnames, d)
		}
	}
	if len(dnames) > 0 {
		out.WriteString("(declare-datatypes (")
		for _, d := range dnames {
			out.WriteString("(" + smtSym(d) + " 0)")
		}
		out.WriteString(") (\n")
		for _, d := range dnames {
			out.WriteString(" (")
			for _, c := range b.dts.decl[d] {
				out.WriteString("(" + smtSym(c.name))
				for i, f := range c.fields {
					fmt.Fprintf(&out, " (%s %s)", smtSym(fmt.Sprintf("%s.%d", c.name, i)), f)
				}
				out.WriteString(")")
			}
			out.WriteString(")\n")
		}
		out.WriteString("))\n")
	}
	sort.Strings(consts)
	for _, c := range consts {
		fmt.Fprintf(&out, "(declare-const %s %s)\n", smtSym(c), b.consts[c].sort)
	}
	var fl []string
	for f := range funs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		d := b.funs[f]
		fmt.Fprintf(&out, "(declare-fun %s (%s) %s)\n", smtSym(f), strings.Join(d.args, " "), d.ret)
	}
	p := &printer{b: b, names: map[*Term]string{}, out: &out}
	for _, t := range order {
		if seen[t] > 1 && len(t.args) > 0 && !t.bound {
			s := p.raw(t)
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&out, "(define-fun %s () %s %s)\n", n, t.sort, s)
			p.names[t] = n
		}
	}
	for _, a := range asserts {
		if a.isTrue() {
			continue
		}
		fmt.Fprintf(&out, "(assert %s)\n", p.expr(a))
	}
	out.WriteString("(check-sat)\n")
	return out.String()
}
