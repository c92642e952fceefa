//go:build go1.21

package libasciidoc

// C04: bounded contract on whole conversions: what attribute references and conditionals see.

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// drive_attributes converts the documents one after the other with the same settings
func drive_attributes(docs [][]string, attrs types.Attributes) (outs []string, titles []string, errs []error, after types.Attributes) {
	c := configuration.NewConfiguration(configuration.WithAttributes(attrs))
	after = c.Attributes
	for _, d := range docs {
		out, m, err := cvConvert(strings.Join(d, "\n")+"\n", c)
		outs = append(outs, out)
		titles = append(titles, m.Title)
		errs = append(errs, err)
	}
	return
}

var (
	atDecl   = regexp.MustCompile(`^:([a-z\-]+):(?: +(.*))?$`)
	atReset  = regexp.MustCompile(`^:!([a-z\-]+):$|^:([a-z\-]+)!:$`)
	atCond   = regexp.MustCompile(`^(ifdef|ifndef)::([a-z\-]+)\[(.*)\]$`)
	atMark   = regexp.MustCompile(`<([a-z0-9]+);([^>]*);>`)
	atMarkH  = regexp.MustCompile(`&lt;([a-z0-9]+);(.*?);&gt;`)
	atRef    = regexp.MustCompile(`\{([a-z0-9_\-]+)\}`)
	atAuthor = regexp.MustCompile(`^(?:([\p{Lu}]\pL*)(?: (\pL+))?(?: (\pL+))? ?)?(?:<([a-z@.]+)>)?$`)
	atRev    = regexp.MustCompile(`^v([0-9.]+), ([0-9\-]+)$`)
)

// atSplit: marks of the document in the order of the source, with the text expected of each
func atWant(doc []string, caller types.Attributes) (map[string]string, string) {
	own := map[string]string{}
	look := func(n string) (string, bool) {
		if v, ok := caller[n]; ok {
			if v == nil { // the caller unsets it
				return "", false
			}
			return fmt.Sprint(v), true
		}
		v, ok := own[n]
		return v, ok
	}
	subst := func(s string) string {
		return atRef.ReplaceAllStringFunc(s, func(r string) string {
			if v, ok := look(r[1 : len(r)-1]); ok {
				return v
			}
			return r
		})
	}
	want := map[string]string{}
	title, hdr := "", ""
	inHeader := false
	put := func(l string) {
		for _, m := range atMark.FindAllStringSubmatch(l, -1) {
			want[m[1]] = subst(m[2])
		}
	}
	for i, l := range doc {
		if i == 0 && strings.HasPrefix(l, "= ") {
			hdr, inHeader = l[2:], true
			continue
		}
		if inHeader && l == "" {
			inHeader = false
			title = subst(hdr)
		}
		if i == 1 && hdr != "" && atIsAuthors(l) {
			atAuthors(l, own)
		} else if m := atRev.FindStringSubmatch(l); m != nil && i == 2 {
			own["revnumber"], own["revdate"] = m[1], m[2]
		} else if m := atReset.FindStringSubmatch(l); m != nil {
			delete(own, m[1]+m[2])
		} else if m := atDecl.FindStringSubmatch(l); m != nil {
			own[m[1]] = subst(m[2])
		} else if m := atCond.FindStringSubmatch(l); m != nil {
			if _, ok := look(m[2]); ok == (m[1] == "ifdef") {
				put(m[3])
			}
		} else {
			put(l)
		}
	}
	if inHeader {
		title = subst(hdr)
	}
	return want, title
}

// atIsAuthors: whether the line (the second one) gives the authors
func atIsAuthors(l string) bool {
	if l == "" {
		return false
	}
	for _, a := range strings.Split(l, "; ") {
		if !atAuthor.MatchString(a) {
			return false
		}
	}
	return true
}

// atAuthors: the attributes which the line of the authors gives
func atAuthors(l string, own map[string]string) {
	for i, a := range strings.Split(l, "; ") {
		suffix := ""
		if i > 0 {
			suffix = fmt.Sprintf("_%d", i+1)
		}
		m := atAuthor.FindStringSubmatch(a)
		first, middle, last, email := m[1], m[2], m[3], m[4]
		if last == "" {
			middle, last = "", middle
		}
		full, initials := "", ""
		for _, p := range []string{first, middle, last} {
			if p != "" {
				full += " " + p
				initials += string([]rune(p)[:1])
			}
		}
		own["author"+suffix], own["firstname"+suffix], own["authorinitials"+suffix] = strings.TrimPrefix(full, " "), first, initials
		for n, v := range map[string]string{"middlename": middle, "lastname": last, "email": email} {
			if v != "" {
				own[n+suffix] = v
			}
		}
	}
}

func atCheck(docs [][]string, attrs types.Attributes, outs, titles []string, errs []error) bool {
	for i, d := range docs {
		if errs[i] != nil {
			verifNote("document %d is rejected: %v", i, errs[i])
			return false
		}
		want, title := atWant(d, attrs)
		got := map[string]string{}
		for _, m := range atMarkH.FindAllStringSubmatch(htmlStrip(outs[i]), -1) {
			got[m[1]] = m[2]
		}
		for k, w := range want {
			if g, ok := got[k]; !ok || g != w {
				verifNote("document %d, mark %s: expected %q, got %q (%v) in\n%s", i, k, w, g, ok, outs[i])
				return false
			}
		}
		for k, g := range got {
			if _, ok := want[k]; !ok {
				verifNote("document %d: %s (%q) should not be there", i, k, g)
				return false
			}
		}
		if titles[i] != title {
			verifNote("document %d: expected title %q, got %q", i, title, titles[i])
			return false
		}
	}
	return true
}

// htmlStrip: raw text without the tags
func htmlStrip(s string) string {
	var b strings.Builder
	for _, t := range htmlTokens(s) {
		if t.Kind == 't' {
			b.WriteString(t.Text)
		}
	}
	return b.String()
}

// ---- captions: attributes the renderer itself reads ----

var atCaption = regexp.MustCompile(`<(?:div class="title"|caption class="title")>([^<]*)</`)

func drive_captions(docs [][]string, attrs types.Attributes) (outs []string, titles []string, errs []error, after types.Attributes) {
	return drive_attributes(docs, attrs)
}

func atCaptions(docs [][]string, attrs types.Attributes, outs []string, errs []error) bool {
	names := map[byte]string{'i': "figure-caption", 't': "table-caption", 'e': "example-caption"}
	for i, d := range docs {
		if errs[i] != nil {
			verifNote("document %d is rejected: %v", i, errs[i])
			return false
		}
		own := map[string]string{"figure-caption": "Figure", "table-caption": "Table", "example-caption": "Example"}
		num := map[string]int{}
		var want, got []string
		for _, l := range d {
			if m := atReset.FindStringSubmatch(l); m != nil {
				delete(own, m[1]+m[2])
			} else if m := atDecl.FindStringSubmatch(l); m != nil {
				own[m[1]] = m[2]
			} else if strings.HasPrefix(l, ".") && len(l) > 2 && l[1] != '.' {
				n := names[l[1]]
				v, ok := own[n]
				if c, found := attrs[n]; found {
					v, ok = fmt.Sprint(c), c != nil
				}
				if ok && v != "" {
					num[n]++
					want = append(want, fmt.Sprintf("%s %d. %s", v, num[n], l[1:]))
				} else {
					want = append(want, l[1:])
				}
			}
		}
		for _, m := range atCaption.FindAllStringSubmatch(outs[i], -1) {
			got = append(got, m[1])
		}
		if strings.Join(want, "|") != strings.Join(got, "|") {
			verifNote("document %d: expected captions %q, got %q", i, want, got)
			return false
		}
	}
	return true
}

// ---- generators ----

var atNames = []string{"a", "b", "cc", "d-e"}

func gen_drive_attributes(g *verifGen) ([][]string, types.Attributes) {
	attrs := types.Attributes{}
	for _, n := range atNames {
		if g.Weighted(3, 1) == 1 {
			attrs[n] = g.Str("caller", "C2", "")
			if g.Weighted(3, 1) == 1 {
				attrs[n] = nil
			}
		}
	}
	if g.Weighted(7, 1) == 1 {
		attrs[g.Str("author", "email", "revnumber", "firstname")] = "callerinfo"
	}
	if g.Weighted(9, 1) == 1 {
		attrs[g.Str("author", "email", "revnumber", "firstname")] = nil
	}
	var docs [][]string
	for i := g.Int(1, 2); i > 0; i-- {
		docs = append(docs, atDoc(g))
	}
	return docs, attrs
}

func atDeclLine(g *verifGen) string {
	n := g.Str(atNames...)
	switch g.Weighted(5, 2, 2) {
	case 0:
		return ":" + n + ": " + g.Str("one", "two", "x1 y", "1.5", "<v>"[1:2]+"w")
	case 1:
		return ":" + n + ": pre" + "{" + g.Str(atNames...) + "}"
	}
	return g.Str(":!"+n+":", ":"+n+"!:", ":"+n+":")
}

func atDoc(g *verifGen) []string {
	var d []string
	n := 0
	mark := func() string {
		n++
		s := ""
		for i := g.Int(1, 2); i > 0; i-- {
			s += g.Str("", "x") + "{" + g.Str(append(atNames, "zz")...) + "}" + g.Str("", " ")
		}
		if g.Weighted(9, 1) == 1 {
			s = "{" + g.Str("author", "email", "revnumber", "firstname", "lastname", "authorinitials", "author_2", "middlename", "authorinitials_2", "email_2") + "}"
		}
		return fmt.Sprintf("<p%d;%s;>", n, s)
	}
	if g.Weighted(1, 1) == 1 {
		d = append(d, "= Title {"+g.Str(atNames...)+"} end")
		if g.Weighted(2, 1) == 1 {
			d = append(d, g.Str("Kim Lee <kim@lee.org>", "Kim Lee <kim@lee.org>", "Émile Zola", "Kim Jo Lee <kim@lee.org>; Ösp Dal",
				"<kim@lee.org>", "Kim", "Kim Lee <kim@lee.org>; Émile del Ünal <z@z.fr>; Joe <joe@z.fr>"))
			if g.Bool() {
				d = append(d, "v1.0, 2020-01-02")
			}
		}
		for i := g.Len(3); i > 0; i-- {
			d = append(d, atDeclLine(g))
		}
		d = append(d, "")
	}
	sect := false
	for i := g.Len(8); i > 0; i-- {
		switch g.Weighted(6, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2) {
		case 0:
			d = append(d, atDeclLine(g), "")
		case 1:
			d = append(d, mark(), "")
		case 2:
			d = append(d, "* item "+mark(), "* item "+mark(), "")
		case 3:
			switch g.Weighted(3, 1, 1) {
			case 0:
				d = append(d, "text *"+mark()+"* and _"+mark()+"_", "")
			case 1:
				d = append(d, "text http://x.y["+mark()+"] and link:u[*"+mark()+"*]", "")
			case 2:
				d = append(d, "text *http://x.y[_"+mark()+"_ x]*", "")
			}
		case 4:
			if sect {
				d = append(d, "=== Sub "+mark(), "")
			} else {
				d = append(d, "== Section "+mark(), "")
				sect = true
			}
		case 5:
			d = append(d, "."+"Title "+mark(), "text", "")
		case 6:
			d = append(d, "|===", "|"+mark()+" |"+mark(), "|===", "")
		case 7:
			d = append(d, "text.footnote:[note "+mark()+"] more", "")
		case 8:
			d = append(d, "[subs=\"specialchars,attributes\"]", "----", mark(), "----", "")
		case 9:
			d = append(d, "====", mark(), "", atDeclLine(g), "", mark(), "====", "")
		case 10:
			d = append(d, "term "+mark()+":: desc "+mark(), "")
		case 11:
			d = append(d, g.Str("ifdef::", "ifndef::")+g.Str(atNames...)+"["+mark()+"]", "")
		}
	}
	return d
}

func gen_drive_captions(g *verifGen) ([][]string, types.Attributes) {
	names := []string{"figure-caption", "table-caption", "example-caption"}
	attrs := types.Attributes{}
	for _, n := range names {
		if g.Weighted(3, 1) == 1 {
			attrs[n] = g.Str("Caller", "Abb", "")
			if g.Weighted(3, 1) == 1 {
				attrs[n] = nil
			}
		}
	}
	var docs [][]string
	for i := g.Int(1, 2); i > 0; i-- {
		d := []string{}
		for j := g.Len(7); j > 0; j-- {
			n := g.Str(names...)
			switch g.Weighted(3, 1, 3, 3, 3, 1, 1, 1) {
			case 0:
				d = append(d, ":"+n+": "+g.Str("Doc", "Bild"), "")
			case 1:
				d = append(d, g.Str(":!"+n+":", ":"+n+":"), "")
			case 2:
				d = append(d, ".iT"+fmt.Sprint(j), "image::x.png[]", "")
			case 3:
				d = append(d, ".tT"+fmt.Sprint(j), "|===", "|a", "|===", "")
			case 4:
				d = append(d, ".eT"+fmt.Sprint(j), "====", "text", "====", "")
			case 5:
				d = append(d, "image::x.png[]", "")
			case 6:
				d = append(d, "|===", "|a", "|===", "")
			case 7:
				d = append(d, "====", "text", "====", "")
			}
		}
		docs = append(docs, d)
	}
	return docs, attrs
}

//verif:bounded drive_attributes props=C04 n=3000
func contract_drive_attributes(docs [][]string, attrs types.Attributes, outs, titles []string, errs []error, after types.Attributes) {
	ensures(atCheck(docs, old(func() types.Attributes { return attrs.Clone() }), outs, titles, errs))
	ensures(cvSame(after, old(func() types.Attributes { return attrs.Clone() })))
}

//verif:bounded drive_captions props=C04,C10 n=3000
func contract_drive_captions(docs [][]string, attrs types.Attributes, outs, titles []string, errs []error, after types.Attributes) {
	ensures(atCaptions(docs, old(func() types.Attributes { return attrs.Clone() }), outs, errs))
	ensures(cvSame(after, old(func() types.Attributes { return attrs.Clone() })))
}
