//go:build go1.21

package libasciidoc

// C21: bounded contract on whole conversions of manpages, well formed or not

import (
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

func drive_manpage(doc []string, caller string, full bool) (string, error) {
	attrs := types.Attributes{}
	if caller != "" {
		attrs["doctype"] = caller
	}
	out, _, err := cvConvert(strings.Join(doc, "\n"), configuration.NewConfiguration(configuration.WithAttributes(attrs),
		configuration.WithHeaderFooter(full)))
	return out, err
}

var mpSection = regexp.MustCompile(`^(=+) (.*)$`)

// mpWant: whether the document is to be treated as a manpage
func mpWant(doc []string, caller string) bool {
	doctype := caller
	title := len(doc) > 0 && strings.HasPrefix(doc[0], "= ")
	i := 0
	if title {
		i = 1
	}
	for ; i < len(doc) && doc[i] != ""; i++ {
		if caller == "" && strings.HasPrefix(doc[i], ":doctype:") {
			doctype = strings.TrimSpace(doc[i][len(":doctype:"):])
		} else if caller == "" && (doc[i] == ":!doctype:" || doc[i] == ":doctype!:") {
			doctype = ""
		}
	}
	if doctype != "manpage" || !title {
		return false
	}
	// blocks of the body
	var blocks []string
	open := ""
	for i < len(doc) {
		switch l := doc[i]; {
		case l == "" || strings.HasPrefix(l, "//"):
			i++
		case mpSection.MatchString(l):
			blocks = append(blocks, l)
			i++
		case l == "====" || l == "----":
			open = l
			blocks = append(blocks, "other")
			for i++; i < len(doc) && doc[i] != open; i++ {
			}
			i++
		case strings.HasPrefix(l, "* ") || strings.HasPrefix(l, "image::"):
			blocks = append(blocks, "other")
			for i++; i < len(doc) && doc[i] != ""; i++ {
			}
		default:
			blocks = append(blocks, "paragraph")
			for i++; i < len(doc) && doc[i] != ""; i++ {
			}
		}
	}
	return len(blocks) >= 3 && strings.ToLower(blocks[0]) == "== name" && blocks[1] == "paragraph" && strings.ToLower(blocks[2]) == "== synopsis"
}

func mpCheck(doc []string, caller string, full bool, out string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	man := mpWant(doc, caller)
	if full {
		if got := strings.Contains(out, " Manual Page</h1>"); got != man {
			verifNote("manual page: %v, expected %v\n%s", got, man, out)
			return false
		}
		if got := strings.Contains(out, `<body class="manpage">`); got != man {
			verifNote("class manpage: %v, expected %v\n%s", got, man, out)
			return false
		}
	}
	// the paragraph of the Name section has no block of its own in a manpage
	first := true
	for _, l := range doc {
		if !strings.HasPrefix(l, "pname") {
			continue
		}
		block := !man || !first
		first = false
		if block != strings.Contains(out, "<div class=\"paragraph\">\n<p>"+l+"</p>\n</div>") {
			verifNote("name section: expected manpage %v\n%s", man, out)
			return false
		}
	}
	// nothing is lost
	for _, l := range doc {
		if strings.HasPrefix(l, "p") && !strings.Contains(out, l) {
			verifNote("%q is lost in\n%s", l, out)
			return false
		}
	}
	return true
}

func gen_drive_manpage(g *verifGen) ([]string, string, bool) {
	var d []string
	if g.Weighted(6, 1) == 0 {
		d = append(d, "= eve(1)")
	}
	caller := ""
	if g.Weighted(2, 1) == 0 {
		if len(d) > 0 || g.Bool() {
			d = append(d, g.Str(":doctype: manpage", ":doctype: manpage", ":doctype: manpage", ":doctype: article"))
		}
		if g.Weighted(9, 1) == 1 && len(d) > 0 {
			d = append(d, g.Str(":!doctype:", ":doctype!:", ":manmanual: X"))
		}
	} else {
		caller = g.Str("manpage", "manpage", "article")
	}
	if g.Weighted(12, 1) == 1 {
		return d, caller, g.Bool()
	}
	d = append(d, "")
	n := 0
	block := func(w ...int) {
		n++
		switch g.Weighted(w...) {
		case 0:
			d = append(d, "pname"+strings.Repeat("x", n-1), "")
		case 1:
			d = append(d, "* pitem"+strings.Repeat("x", n), "")
		case 2:
			d = append(d, "====", "pexample"+strings.Repeat("x", n), "====", "")
		case 3:
			d = append(d, "// comment", "")
		case 4:
			d = append(d, "----", "plisting"+strings.Repeat("x", n), "----", "")
		case 5:
			d = append(d, "image::x.png[]", "")
		}
	}
	if g.Weighted(7, 1) == 1 {
		block(2, 1, 1, 2, 1, 1)
	}
	switch g.Weighted(12, 1, 1, 1, 1) {
	case 0:
		d = append(d, g.Str("== Name", "== NAME", "== name"), "")
	case 1:
		d = append(d, "=== Name", "")
	case 2:
		d = append(d, "== Names", "")
	case 3:
		d = append(d, "== *Name*", "")
	}
	for i := g.Weighted(1, 8, 1, 1); i > 0; i-- {
		block(9, 1, 1, 2, 1, 1)
	}
	switch g.Weighted(12, 1, 1, 1, 1) {
	case 0:
		d = append(d, g.Str("== Synopsis", "== SYNOPSIS", "== synopsis"), "")
	case 1:
		d = append(d, "=== Synopsis", "")
	case 2:
		d = append(d, "== Description", "")
	case 3:
		return d, caller, g.Bool()
	}
	for i := g.Len(2); i > 0; i-- {
		block(4, 1, 1, 1, 1, 1)
	}
	if g.Weighted(3, 1) == 1 {
		d = append(d, g.Str("== Name", "== Options", "== Synopsis"), "")
	}
	return d, caller, g.Bool()
}

//verif:bounded drive_manpage props=C21 n=3000
func contract_drive_manpage(doc []string, caller string, full bool, out string, err error) {
	ensures(mpCheck(doc, caller, full, out, err))
}
