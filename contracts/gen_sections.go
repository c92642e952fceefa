//go:build go1.21

package libasciidoc

// C06: bounded contract on whole conversions: ids of the sections, links of the table of contents and
// cross references to sections.

import (
	"fmt"
	"html"
	"regexp"
	"strings"
	"unicode"
)

func drive_sections(doc []string) (string, error) { return cvBody(doc) }

var (
	secHead = regexp.MustCompile(`<h([1-6]) id="([^"]*)"[^>]*>(.*)</h[1-6]>`)
	secToc  = regexp.MustCompile(`<li><a href="#([^"]*)">`)
	secLine = regexp.MustCompile(`^(=+) (.*)$`)
	secID   = regexp.MustCompile(`^\[(?:#|\[)([^\]]*?)\]{1,2}$`)
	secXref = regexp.MustCompile(`(x\d+x) <a href="#([^"]*)">(.*?)</a>`)
	secRef  = regexp.MustCompile(`(x\d+x) <<([^>]*)>>`)
)

func secTitleText(t string) string {
	t = strings.ReplaceAll(t, "{a}", "att val")
	return strings.NewReplacer("*", "", "_", "", "`", "").Replace(t)
}

// secWant: the id the title asks for
func secWant(title, prefix, sep string) string {
	out := ""
	last := false
	for _, c := range secTitleText(title) {
		switch {
		case unicode.IsLetter(c) || unicode.IsNumber(c):
			out += string(c)
			last = false
		case !last && (c == ' ' || c == '-' || c == '.'):
			out += sep
			last = true
		}
	}
	out = strings.TrimSuffix(out, sep)
	if strings.HasPrefix(out, prefix) {
		return out
	}
	return prefix + out
}

func secCheck(doc []string, out string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	prefix, sep := "_", "_"
	var want []string // id of each section
	titles := map[string]string{}
	used := map[string]bool{}
	pending, blockTitle := "", false
	toc := 2
	var levels []int
	type ref struct{ word, id, label string }
	var refs []ref
	for i, l := range doc {
		if strings.HasPrefix(l, ":idprefix:") {
			prefix = strings.TrimSpace(l[len(":idprefix:"):])
		} else if strings.HasPrefix(l, ":idseparator:") {
			sep = strings.TrimSpace(l[len(":idseparator:"):])
		} else if strings.HasPrefix(l, ":toclevels:") {
			fmt.Sscan(l[len(":toclevels:"):], &toc)
		} else if m := secID.FindStringSubmatch(l); m != nil {
			pending = m[1]
		} else if m := secLine.FindStringSubmatch(l); m != nil && len(m[1]) > 1 {
			id := pending
			if id == "" {
				id = secWant(m[2], prefix, sep)
			}
			base := id
			for n := 2; used[strings.ToLower(id)]; n++ {
				id = fmt.Sprintf("%s_%d", base, n)
			}
			used[strings.ToLower(id)] = true
			titles[strings.ToLower(id)] = m[2]
			want = append(want, strings.ToLower(id))
			levels = append(levels, len(m[1])-1)
			pending, blockTitle = "", false
		} else if strings.HasPrefix(l, ".") && len(l) > 1 && l[1] != ' ' && l[1] != '.' {
			blockTitle = true
		} else if l == "" {
		} else if i > 0 {
			if pending != "" && blockTitle && !used[strings.ToLower(pending)] {
				used[strings.ToLower(pending)] = true
			}
			pending, blockTitle = "", false
		}
		for _, m := range secRef.FindAllStringSubmatch(l, -1) {
			refs = append(refs, ref{word: m[1], id: m[2]})
		}
	}
	body := out
	var got []string
	for _, m := range secHead.FindAllStringSubmatch(body, -1) {
		got = append(got, m[2])
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		verifNote("ids: expected %q, got %q", want, got)
		return false
	}
	if strings.Contains(strings.Join(doc, "\n"), ":toc:") {
		var wantToc, gotToc []string
		for i, id := range want {
			if levels[i] <= toc {
				wantToc = append(wantToc, id)
			}
		}
		for _, m := range secToc.FindAllStringSubmatch(out, -1) {
			gotToc = append(gotToc, m[1])
		}
		if fmt.Sprint(gotToc) != fmt.Sprint(wantToc) {
			verifNote("table of contents: expected %q, got %q", wantToc, gotToc)
			return false
		}
	}
	found := map[string][]string{}
	for _, m := range secXref.FindAllStringSubmatch(out, -1) {
		found[m[1]] = []string{m[2], html.UnescapeString(htmlStrip(m[3]))}
	}
	for _, r := range refs {
		f := found[r.word]
		if f == nil {
			verifNote("cross reference %s <<%s>> lost", r.word, r.id)
			return false
		}
		target := r.id
		if strings.Contains(target, " ") {
			target = secWant(target, prefix, sep)
		}
		target = strings.ToLower(target)
		if f[0] != target {
			verifNote("cross reference %s <<%s>> points to %q", r.word, r.id, f[0])
			return false
		}
		if t, ok := titles[target]; ok && f[1] != secTitleText(t) {
			verifNote("cross reference %s <<%s>> to section %q is shown as %q", r.word, r.id, t, f[1])
			return false
		}
	}
	return true
}

func gen_drive_sections(g *verifGen) []string {
	d := []string{"= Doc"}
	if g.Bool() {
		d = append(d, ":toc:")
		if g.Bool() {
			d = append(d, ":toclevels: "+g.Str("1", "2", "3"))
		}
	}
	sep, pre := "_", "_"
	if g.Weighted(2, 1) == 1 {
		pre = g.Str("id_", "sec-", "_", "X")
		d = append(d, ":idprefix: "+pre)
	}
	if g.Weighted(2, 1) == 1 {
		sep = g.Str("-", "_", "--")
		d = append(d, ":idseparator: "+sep)
	}
	d = append(d, ":a: att val", "")
	n, many := 0, ""
	more := 0
	if g.Weighted(14, 1) == 1 { // more duplicates than there are digits
		many, more = g.Str("Foo", "foo.bar", "Foo 2"), g.Int(5, 12)
	}
	var ids, tt []string
	title := func() string {
		t := g.Str("Foo", "foo", "Foo 2", "Foo 2 2", "foo-2", "foo.bar", "Foo Bar", "foo  bar", "*Foo* bar", "Foo _Bar_", "say {a}", "été 日", "Foo, Bar!", "Foo? ", "2", "FOO", "x² ½", "Part Ⅷ", "٣ ab", "Ωmega ①", "a–b", "«q» r")
		if many != "" && g.Weighted(1, 4) == 1 {
			t = many
		}
		if g.Weighted(3, 1) == 1 && len(tt) > 0 {
			t = tt[g.N(len(tt))]
		}
		tt = append(tt, t)
		ids = append(ids, strings.ToLower(secWant(t, pre, sep)))
		return t
	}
	explicit := func() string {
		id := g.Str("my", "MY", "foo", "_foo", "_foo_2", "id_foo-bar", "_Foo", "my_2")
		if g.Weighted(2, 1) == 1 && len(ids) > 0 {
			id = ids[g.N(len(ids))]
			if g.Weighted(2, 1) == 1 {
				id += "_2"
			}
		}
		ids = append(ids, strings.ToLower(id))
		if strings.ToLower(id) != id && g.Bool() {
			id = strings.ToLower(id)
		}
		return id
	}
	xref := func() string {
		n++
		if g.Weighted(2, 1) == 1 && len(tt) > 0 {
			t := secTitleText(tt[g.N(len(tt))])
			if strings.Contains(t, " ") && !strings.ContainsAny(t, ",!?") {
				return fmt.Sprintf("x%dx <<%s>>", n, t)
			}
		}
		id := g.Str("nowhere", "my")
		if len(ids) > 0 {
			id = ids[g.N(len(ids))]
		}
		return fmt.Sprintf("x%dx <<%s>>", n, id)
	}
	level := 1
	for i := g.Len(9) + more; i >= 0; i-- {
		if g.Weighted(3, 1) == 1 {
			id := explicit()
			if g.Bool() {
				d = append(d, "[#"+id+"]")
			} else {
				d = append(d, "[["+id+"]]")
			}
		}
		d = append(d, strings.Repeat("=", level+1)+" "+strings.TrimRight(title(), " "), "")
		switch g.Weighted(3, 2, 2, 1) {
		case 1:
			d = append(d, "text "+xref()+" and "+xref(), "")
		case 2:
			id := strings.ToLower(explicit())
			d = append(d, ".Title of block", "[#"+id+"]", "text "+xref(), "")
		case 3:
			d = append(d, ".Title of block", "====", "inside "+xref(), "====", "")
		}
		level = g.Int(1, level+1)
		if level > 4 {
			level = 4
		}
	}
	return d
}

//verif:bounded drive_sections props=C06 n=3000
func contract_drive_sections(doc []string, out string, err error) {
	ensures(secCheck(doc, out, err))
}
