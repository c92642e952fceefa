//go:build go1.21

package types

func genAttr(g *verifGen) interface{} {
	v := g.Str("v1", "v2", "a,b", "")
	switch g.Weighted(6, 3, 1) {
	case 0:
		return &Attribute{Key: g.Str("id", "role", "roles", "option", "options", "k1", "k2", "@positional-1"), Value: v}
	case 1:
		return &PositionalAttribute{Value: v}
	default:
		if g.Weighted(4, 1) == 1 {
			return "text"
		}
		return &Attribute{Key: "k1", Value: g.Int(0, 3)}
	}
}

func gen_NewAttributes(g *verifGen) []interface{} {
	var out []interface{}
	for i := g.Int(0, 6); i > 0; i-- {
		out = append(out, genAttr(g))
	}
	return out
}

func gen_MergeAttributes(g *verifGen) []interface{} {
	var out []interface{}
	for i := g.Int(0, 4); i > 0; i-- {
		if g.Bool() {
			if a, ok := genAttr(g).(*Attribute); ok {
				out = append(out, a)
			}
			continue
		}
		set := Attributes{}
		for j := g.Int(0, 3); j > 0; j-- {
			if a, ok := genAttr(g).(*Attribute); ok {
				set.Set(a.Key, a.Value)
			}
		}
		out = append(out, set)
	}
	if g.Weighted(9, 1) == 1 {
		out = append(out, "text")
	}
	return out
}
