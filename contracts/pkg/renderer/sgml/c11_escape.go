//go:build go1.21

package sgml

import (
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// ---- C11: special characters, symbols and predefined attributes ----

//verif:contract (*sgmlRenderer).renderSpecialCharacter props=C11
func contract_sgmlRenderer_renderSpecialCharacter(r *sgmlRenderer, s *types.SpecialCharacter, out string, err error) {
	requires(s != nil)
	ensures(s.Name != "<" || out == "&lt;" && err == nil)
	ensures(s.Name != ">" || out == "&gt;" && err == nil)
	ensures(s.Name != "&" || out == "&amp;" && err == nil)
	ensures(s.Name == "<" || s.Name == ">" || s.Name == "&" || out == "" && err != nil)
}

// SpecSymbol: the references of the characters for which symbols stand
func SpecSymbol(name string) string {
	switch name {
	case "(C)":
		return "&#169;"
	case "(R)":
		return "&#174;"
	case "(TM)":
		return "&#8482;"
	case "...":
		return "&#8230;&#8203;"
	case "'", "`'":
		return "&#8217;"
	case "'`":
		return "&#8216;"
	case "\"`":
		return "&#8220;"
	case "`\"":
		return "&#8221;"
	case "->":
		return "&#8594;"
	case "<-":
		return "&#8592;"
	case "=>":
		return "&#8658;"
	case "<=":
		return "&#8656;"
	case "--":
		return "&#8212;&#8203;"
	case " -- ":
		return "&#8201;&#8212;&#8201;"
	}
	return ""
}

//verif:contract (*sgmlRenderer).renderSymbol props=C11
func contract_sgmlRenderer_renderSymbol(r *sgmlRenderer, s *types.Symbol, out string, err error) {
	requires(s != nil)
	ensures(out == SpecSymbol(s.Name))
	ensures((err != nil) == (out == ""))
}

//verif:contract (*plaintextRenderer).renderSymbol props=C11
func contract_plaintextRenderer_renderSymbol(r *plaintextRenderer, s *types.Symbol, out string, err error) {
	requires(s != nil)
	ensures(err == nil && out == ite(SpecSymbol(s.Name) != "", SpecSymbol(s.Name), s.Name))
}

// SpecPredefined: the characters for which predefined attributes stand
func SpecPredefined(name string) string {
	switch name {
	case "sp":
		return " "
	case "nbsp":
		return "&#160;"
	case "zwsp":
		return "&#8203;"
	case "wj":
		return "&#8288;"
	case "apos":
		return "&#39;"
	case "quot":
		return "&#34;"
	case "lsquo":
		return "&#8216;"
	case "rsquo":
		return "&#8217;"
	case "ldquo":
		return "&#8220;"
	case "rdquo":
		return "&#8221;"
	case "deg":
		return "&#176;"
	case "plus":
		return "&#43;"
	case "brvbar":
		return "&#166;"
	case "vbar":
		return "|"
	case "amp":
		return "&"
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "startsb":
		return "["
	case "endsb":
		return "]"
	case "caret":
		return "^"
	case "asterisk":
		return "*"
	case "tilde":
		return "~"
	case "backslash":
		return "\\"
	case "backtick":
		return "`"
	case "two-colons":
		return "::"
	case "two-semicolons":
		return ";"
	case "cpp":
		return "C++"
	}
	return ""
}

//verif:contract predefinedAttribute props=C11
func contract_predefinedAttribute(name string, out string) {
	ensures(out == SpecPredefined(name))
}
