//go:build go1.21

package validator

import "github.com/bytesparadise/libasciidoc/pkg/types"

func genTitle(g *verifGen) []interface{} {
	t := []interface{}{&types.StringElement{Content: g.Str("Name", "NAME", "name", "Synopsis", "SYNOPSIS", "synopsis", "Names", "")}}
	switch g.Weighted(12, 1, 1, 1) {
	case 1:
		return nil
	case 2:
		return append(t, &types.StringElement{Content: "x"})
	case 3:
		return []interface{}{&types.QuotedText{Elements: t}}
	}
	return t
}

func genBlock(g *verifGen) interface{} {
	switch g.Weighted(8, 1, 1, 1, 1) {
	case 1:
		return &types.List{}
	case 2:
		return &types.DelimitedBlock{}
	case 3:
		return &types.Section{Level: 2}
	case 4:
		return &types.Table{}
	}
	return &types.Paragraph{}
}

func genSection(g *verifGen) interface{} {
	s := &types.Section{Level: 1, Title: genTitle(g)}
	if g.Weighted(6, 1) == 1 {
		s.Level = g.Int(0, 3)
	}
	switch g.Weighted(8, 1, 1) {
	case 0:
		s.Elements = append(s.Elements, genBlock(g))
	case 1:
		s.Elements = append(s.Elements, genBlock(g), genBlock(g))
	}
	return s
}

func gen_Validate(g *verifGen) (*types.Document, string) {
	d := &types.Document{}
	if g.Weighted(5, 1) == 0 {
		d.Elements = append(d.Elements, &types.DocumentHeader{})
	}
	if g.Weighted(3, 1) == 0 { // close to a manpage
		name := []interface{}{&types.StringElement{Content: g.Str("Name", "NAME", "name")}}
		syn := []interface{}{&types.StringElement{Content: g.Str("Synopsis", "synopsis", "SYNOPSIS")}}
		d.Elements = append(d.Elements,
			&types.Section{Level: 1, Title: name, Elements: []interface{}{&types.Paragraph{}}},
			&types.Section{Level: 1, Title: syn, Elements: []interface{}{genBlock(g)}})
		i := len(d.Elements) - 1 - g.N(2)
		switch g.Weighted(3, 1, 1, 1, 1) {
		case 1:
			d.Elements[i] = genSection(g)
		case 2:
			d.Elements[i] = genBlock(g)
		case 3:
			d.Elements = d.Elements[:i]
		case 4:
			d.Elements = append(d.Elements[:i:i], append([]interface{}{genBlock(g)}, d.Elements[i:]...)...)
		}
	}
	for i := g.Len(3); i > 0; i-- {
		if g.Bool() {
			d.Elements = append(d.Elements, genSection(g))
		} else {
			d.Elements = append(d.Elements, genBlock(g))
		}
	}
	return d, g.Str("manpage", "manpage", "manpage", "article", "")
}
