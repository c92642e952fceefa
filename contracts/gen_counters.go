//go:build go1.21

package libasciidoc

// C10: bounded contract on whole conversions: each use of a counter yields the next value.

import (
	"fmt"
	"html"
	"regexp"
	"strconv"
	"strings"
)

func drive_counters(doc []string) (string, error) { return cvBody(doc) }

var (
	ctUse   = regexp.MustCompile(`k(\d+)-\{counter(2?):([a-z-]+)(?::([A-Za-z]|[0-9]+))?\}\.`)
	ctOut   = regexp.MustCompile(`k(\d+)-([^.]*)\.`)
	ctPlain = regexp.MustCompile(`v\d+-\{counter2?:[^}]*\}\.`)
)

func ctCheck(doc []string, out string, err error) bool {
	if err != nil {
		verifNote("rejected: %v", err)
		return false
	}
	src := strings.Join(doc, "\n")
	next := map[string]string{}
	want := map[string]string{}
	for _, m := range ctUse.FindAllStringSubmatch(src, -1) {
		v, used := next[m[3]]
		switch {
		case used:
			if n, err := strconv.Atoi(v); err == nil {
				v = strconv.Itoa(n + 1)
			} else {
				v = string(rune(v[0] + 1))
			}
		case m[4] != "":
			v = m[4]
			if n, err := strconv.Atoi(v); err == nil {
				v = strconv.Itoa(n)
			}
		default:
			v = "1"
		}
		next[m[3]] = v
		if m[2] == "" {
			want[m[1]] = v
		} else {
			want[m[1]] = ""
		}
	}
	// ids of sections with a counter in their title are not of interest here
	text := html.UnescapeString(regexp.MustCompile(` id="[^"]*"`).ReplaceAllString(out, ""))
	seen := map[string]bool{}
	for _, m := range ctOut.FindAllStringSubmatch(text, -1) {
		w, ok := want[m[1]]
		if !ok || w != m[2] {
			verifNote("use %s: expected %q, got %q in\n%s", m[1], w, m[2], out)
			return false
		}
		seen[m[1]] = true
	}
	for k := range want {
		if !seen[k] {
			verifNote("use %s is not rendered in\n%s", k, out)
			return false
		}
	}
	for _, p := range ctPlain.FindAllString(src, -1) {
		if !strings.Contains(text, p) {
			verifNote("verbatim text changed: %q", p)
			return false
		}
	}
	return true
}

func gen_drive_counters(g *verifGen) []string {
	n := 0
	use := func() string {
		n++
		name := g.Str("x", "y", "my-c")
		kind := "counter"
		if g.Weighted(4, 1) == 1 {
			kind = "counter2"
		}
		start := g.Str("", "", "", ":5", ":1", ":0", ":a", ":K", ":42", ":007")
		return fmt.Sprintf("k%d-{%s:%s%s}.", n, kind, name, start)
	}
	var d []string
	if g.Weighted(3, 1) == 1 {
		d = []string{"= Title", "", "preamble " + use(), ""}
	}
	var block func(depth int) []string
	block = func(depth int) []string {
		switch g.Weighted(8, 2, 2, 2, 2, 2, 1, 1, 2, 1, 2, 1, 2, 2, 1, 1, 1) {
		case 0:
			return []string{"text " + use() + " more " + g.Str("", use()), "next line" + g.Str("", " "+use()), ""}
		case 1:
			q := g.Str("*", "_", "`", "#")
			return []string{"text " + q + "q " + use() + " q" + q + " more " + use(), ""}
		case 2:
			return []string{"text \"`q " + use() + " q`\" footnote:[" + use() + "] more " + use(), ""}
		case 3:
			return []string{"* item " + use(), "** sub " + use(), "* item " + use(), ""}
		case 4:
			return []string{". item " + use(), "+", "attached " + use(), "", ". item *b " + use() + "*", ""}
		case 5:
			return []string{"term " + use() + ":: desc " + use(), ""}
		case 6:
			return []string{".Table " + use(), "|===", "|h " + use() + " |x", "", "|c " + use() + " |*d " + use() + "*", "|===", ""}
		case 7:
			return []string{"[options=\"header,footer\"]", "|===", "|h " + use(), "|c " + use(), "|f " + use(), "|===", ""}
		case 8:
			if depth > 0 {
				return []string{"NOTE: text " + use(), ""}
			}
			dl := g.Str("====", "****", "____", "--")
			out := []string{dl}
			if g.Bool() && dl != "--" {
				out = []string{".Title " + use(), dl}
			}
			out = append(out, block(1)...)
			out = append(out, block(1)...)
			return append(out, dl, "")
		case 9:
			return []string{"[verse]", "____", "line " + use(), "____", ""}
		case 10:
			return []string{".Block title " + use(), "text " + use(), ""}
		case 11:
			return []string{"[quote,someone " + use() + "]", "quoted " + use(), ""}
		case 12:
			return []string{"link https://foo.com[text " + use() + "] " + use(), ""}
		case 13:
			return []string{".Figure " + use(), "image::foo.png[]", ""}
		case 14:
			return []string{"image::foo.png[alt " + use() + "]", ""}
		case 15:
			n++
			dl := g.Str("----", "....")
			return []string{dl, fmt.Sprintf("v%d-{counter:x}.", n), dl, ""}
		}
		return []string{"[subs=\"attributes\"]", "----", "line " + use() + " " + use(), "----", ""}
	}
	for i := g.Len(6); i > 0; i-- {
		if g.Weighted(5, 1) == 1 {
			d = append(d, "== Section "+use(), "")
		}
		if g.Weighted(7, 1) == 1 {
			n++
			d = append(d, fmt.Sprintf(":at: %s", use()), "", "text {at} {at} "+use(), "")
		}
		if g.Weighted(30, 1) == 1 { // more than there are digits
			l := "many"
			for j := g.Int(9, 13); j > 0; j-- {
				l += " and " + use()
			}
			d = append(d, l, "")
		}
		d = append(d, block(0)...)
	}
	return d
}

//verif:bounded drive_counters props=C10 n=3000
func contract_drive_counters(doc []string, out string, err error) {
	ensures(ctCheck(doc, out, err))
}
