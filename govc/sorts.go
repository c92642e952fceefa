package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func sanit(s string) string {
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, "interface{}", "any")
	s = strings.ReplaceAll(s, "*", "ptr_")
	s = strings.ReplaceAll(s, "[]", "sl_")
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func typeKey(t types.Type) string {
	if b, ok := types.Unalias(t).(*types.Basic); ok {
		t = types.Typ[b.Kind()] // byte is uint8, rune is int32
	}
	return sanit(types.TypeString(t, nil))
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

// structKey returns a key for a struct type (named or not)
func (v *VC) structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (v *VC) isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func (v *VC) isOpaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return !isRepoPkg(n.Obj().Pkg())
}

func (v *VC) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if s, ok := v.sortMemo[t]; ok {
		return s
	}
	s := v.sortOf0(t)
	v.sortMemo[t] = s
	return s
}

func (v *VC) sortOf0(t types.Type) string {
	if v.isBuilder(t) {
		return "String"
	}
	if v.isOpaque(t) {
		return "Int"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "String"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Kind() == types.UntypedNil:
			return "Any"
		}
		unsup("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Any"
	case *types.Struct:
		return v.structCtor(t).dt
	case *types.Array:
		return arrSort("Int", v.sortOf(u.Elem()))
	case *types.TypeParam:
		unsup("type parameter")
	}
	unsup("type %s", t)
	return ""
}

func (v *VC) structCtor(t types.Type) *ctor {
	k := typeKey(t)
	if c, ok := v.b.dts.ctors["mk_"+k]; ok {
		return c
	}
	s := t.Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, v.sortOf(s.Field(i).Type()))
	}
	return v.b.dts.add("S_"+k, "mk_"+k, fs...)
}

// boxCtor is the Any constructor for dynamic type t
func (v *VC) boxCtor(t types.Type) *ctor {
	t = types.Unalias(t)
	k := "box_" + typeKey(t)
	if c, ok := v.b.dts.ctors[k]; ok {
		return c
	}
	c := v.b.dts.add("Any", k, v.sortOf(t))
	v.boxTypes = append(v.boxTypes, t)
	return c
}

func (v *VC) initSorts() {
	b := v.b
	v.cNil = b.dts.add("Any", "any_nil")
	v.cOther = b.dts.add("Any", "any_other", "Int", "Int")
	v.cSlice = b.dts.add("Slice", "mk_slice", "Int", "Int", "Int", "Int")
}

func (v *VC) anyNil() *Term { return v.b.Ctor(v.cNil) }

func (v *VC) mkSlice(base, off, n, c *Term) *Term { return v.b.Ctor(v.cSlice, base, off, n, c) }
func (v *VC) slBase(s *Term) *Term                { return v.b.Acc(v.cSlice, 0, s) }
func (v *VC) slOff(s *Term) *Term                 { return v.b.Acc(v.cSlice, 1, s) }
func (v *VC) slLen(s *Term) *Term                 { return v.b.Acc(v.cSlice, 2, s) }
func (v *VC) slCap(s *Term) *Term                 { return v.b.Acc(v.cSlice, 3, s) }

func (v *VC) zero(t types.Type) *Term {
	b := v.b
	s := v.sortOf(t)
	if v.isBuilder(t) {
		return b.Str("")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.isOpaque(t) {
			return b.Int(0)
		}
		c := v.structCtor(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, v.zero(u.Field(i).Type()))
		}
		return b.Ctor(c, as...)
	case *types.Array:
		return b.ConstArr(s, v.zero(u.Elem()))
	}
	return v.zeroSort(s)
}

func (v *VC) zeroSort(s string) *Term {
	b := v.b
	switch s {
	case "Int":
		return b.Int(0)
	case "Real":
		return b.mk("real", "0.0", "Real")
	case "Bool":
		return b.False()
	case "String":
		return b.Str("")
	case "Slice":
		z := b.Int(0)
		return v.mkSlice(z, z, z, z)
	case "Any":
		return v.anyNil()
	}
	if strings.HasPrefix(s, "(Array ") {
		_, e := arrSorts(s)
		return b.ConstArr(s, v.zeroSort(e))
	}
	if cs := b.dts.decl[s]; len(cs) == 1 {
		var as []*Term
		for _, f := range cs[0].fields {
			as = append(as, v.zeroSort(f))
		}
		return b.Ctor(cs[0], as...)
	}
	panic("zeroSort " + s)
}

func (v *VC) constTerm(val constant.Value, t types.Type) *Term {
	b := v.b
	if val == nil {
		return v.zero(t)
	}
	switch val.Kind() {
	case constant.Bool:
		return b.Bool(constant.BoolVal(val))
	case constant.String:
		return b.Str(constant.StringVal(val))
	case constant.Int:
		if v.sortOf(t) == "Real" {
			return b.mk("real", val.ExactString()+".0", "Real")
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return b.Str(constant.StringVal(val))
		}
		return b.mk("int", val.ExactString(), "Int")
	case constant.Float:
		f, _ := constant.Float64Val(val)
		if v.sortOf(t) == "Int" {
			return b.Int(int64(f))
		}
		s := fmt.Sprintf("%f", f)
		return b.mk("real", s, "Real")
	}
	unsup("constant %s", val)
	return nil
}
