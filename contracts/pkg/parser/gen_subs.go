//go:build go1.21

package parser

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

func genSubName(g *verifGen) string {
	return g.Str("attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements", "callouts", "normal", "none", "verbatim", "inline_passthrough", "other")
}

func genSubs(g *verifGen) *substitutions {
	s := &substitutions{}
	for i := g.Int(0, 9); i > 0; i-- {
		s.sequence = append(s.sequence, g.Str("inline_passthrough", "attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements", "callouts", "attributes"))
	}
	return s
}

func gen_substitutionsFor(g *verifGen) string { return genSubName(g) }

func gen_substitutions_append(g *verifGen) (*substitutions, string) { return genSubs(g), genSubName(g) }

func gen_substitutions_prepend(g *verifGen) (*substitutions, string) {
	return genSubs(g), genSubName(g)
}

func gen_substitutions_remove(g *verifGen) (*substitutions, string) {
	return genSubs(g), genSubName(g)
}

func gen_substitutions_contains(g *verifGen) (*substitutions, string) {
	return genSubs(g), genSubName(g)
}

func gen_substitutions_split(g *verifGen) *substitutions { return genSubs(g) }

func genSubIncr(g *verifGen) string {
	n := genSubName(g)
	switch g.Int(0, 3) {
	case 0:
		return n + "+"
	case 1:
		return "+" + n
	case 2:
		return "-" + n
	}
	return n
}

func gen_allIncremental(g *verifGen) []string {
	var subs []string
	for i := g.Int(0, 4); i > 0; i-- {
		subs = append(subs, genSubIncr(g))
	}
	return subs
}

func gen_defaultSubstitutions(g *verifGen) types.WithElements {
	switch g.Int(0, 3) {
	case 0, 1:
		return &types.DelimitedBlock{
			Kind: g.Str("example", "quote", "verse", "sidebar", "markdown-quote", "open", "comment", "pass", "listing", "fenced", "literal", "source"),
		}
	case 2:
		p := &types.Paragraph{}
		if g.Bool() {
			p.Attributes = types.Attributes{"style": g.Str("listing", "source", "literal", "literal_paragraph", "pass", "quote", "verse", "NOTE", "")}
		}
		return p
	}
	return &types.LabeledListElement{}
}

func gen_newSubstitutions(g *verifGen) types.WithElements {
	b := gen_defaultSubstitutions(g)
	if g.Weighted(1, 5) == 1 {
		l := gen_allIncremental(g)
		if g.Bool() { // no mix
			for i := range l {
				l[i] = strings.Trim(l[i], "+-")
			}
		}
		b.AddAttributes(types.Attributes{"subs": strings.Join(l, g.Str(",", ", ", " ,"))})
	}
	return b
}
