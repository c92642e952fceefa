//go:build go1.21

package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sirupsen/logrus"
)

func gen_parseAttributes(g *verifGen) []string {
	var flags []string
	for i := g.Len(4); i > 0; i-- {
		flags = append(flags, cliFlag(g))
	}
	return flags
}

// ---- the command line as a whole ----

var cliNames = []string{"x", "y", "long-name", "v2"}

func cliFlag(g *verifGen) string {
	n := g.Str(cliNames...)
	switch g.Weighted(6, 2, 1, 1) {
	case 1:
		return n
	case 2:
		return "!" + n
	case 3:
		return n + "!"
	}
	v := ""
	for i := g.Len(4); i > 0; i-- {
		v += g.Str("a", "B c", "=", "!", "1", ",", ":", "=d", "é", "/", "%")
	}
	return n + "=" + strings.TrimSpace(v)
}

type cliFile struct {
	name string
	decl map[string]string // attributes which the document itself declares
	dup  []string          // attributes which it resets
}

type cliRun struct {
	flags    []string
	files    []cliFile
	out      string // "-": standard output, "" beside the input, else the name of the file
	relative bool
	full     bool // with header and footer
}

type cliResult struct {
	stdout string
	files  map[string]string
	err    error
}

func (f cliFile) text() string {
	var b strings.Builder
	names := make([]string, 0, len(f.decl))
	for n := range f.decl {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, ":%s: %s\n", n, f.decl[n])
	}
	for _, n := range f.dup {
		fmt.Fprintf(&b, ":!%s:\n", n)
	}
	b.WriteString("\n")
	for _, n := range cliNames {
		fmt.Fprintf(&b, "[{%s}] in %s\nifdef::%s[on]\nifndef::%s[off]\n\n", n, filepath.Base(f.name), n, n)
	}
	return b.String()
}

// want: the body of the document which comes out, with given flags
func (f cliFile) want(flags []string) string {
	var b strings.Builder
	for _, n := range cliNames {
		v, set := f.decl[n]
		for _, d := range f.dup {
			if d == n {
				v, set = "", false
			}
		}
		for _, fl := range flags { // the last one counts
			eq := strings.IndexByte(fl, '=')
			switch {
			case eq >= 0 && fl[:eq] == n:
				v, set = fl[eq+1:], true
			case eq < 0 && fl == n:
				v, set = "", true
			case eq < 0 && (fl == "!"+n || fl == n+"!"):
				v, set = "", false
			}
		}
		onoff := "on"
		if !set {
			v, onoff = "{"+n+"}", "off"
		}
		fmt.Fprintf(&b, "<div class=\"paragraph\">\n<p>[%s] in %s\n%s</p>\n</div>\n", v, filepath.Base(f.name), onoff)
	}
	return b.String()
}

func drive_cli(r cliRun) cliResult {
	dir, err := os.MkdirTemp("", "verifcli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	args := []string{}
	if !r.full {
		args = append(args, "-s")
	}
	switch r.out {
	case "-":
		args = append(args, "-o", "-")
	case "":
	default:
		args = append(args, "-o", filepath.Join(dir, r.out))
	}
	for _, f := range r.flags {
		args = append(args, "-a", f)
	}
	cwd, _ := os.Getwd()
	for _, f := range r.files {
		p := filepath.Join(dir, f.name)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.WriteFile(p, []byte(f.text()), 0o644)
		if r.relative {
			if rel, err := filepath.Rel(cwd, p); err == nil {
				p = rel
			}
		}
		args = append(args, p)
	}
	stdout, _ := os.Create(filepath.Join(dir, ".stdout"))
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	o1, o2, lo := os.Stdout, os.Stderr, logrus.StandardLogger().Out
	res := cliResult{files: map[string]string{}}
	func() {
		defer func() {
			os.Stdout, os.Stderr = o1, o2
			logrus.SetOutput(lo)
		}()
		os.Stdout, os.Stderr = stdout, null
		root := NewRootCmd()
		root.SetArgs(args)
		res.err = root.Execute()
	}()
	_, _ = stdout.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(stdout)
	stdout.Close()
	null.Close()
	os.Remove(filepath.Join(dir, ".stdout"))
	res.stdout = string(b)
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			c, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			res.files[rel] = string(c)
		}
		return nil
	})
	return res
}

func cliBody(s string, full bool) string {
	if !full {
		return s
	}
	i := strings.Index(s, "<div id=\"content\">\n")
	j := strings.Index(s, "</div>\n<div id=\"footer\">")
	if i < 0 || j < i {
		return "not a full document: " + s
	}
	return s[i+len("<div id=\"content\">\n") : j]
}

func cliCheck(r cliRun, res cliResult) bool {
	if res.err != nil {
		verifNote("rejected: %v", res.err)
		return false
	}
	wantOut := ""
	want := map[string]string{}
	for _, f := range r.files {
		want[filepath.Clean(f.name)] = f.text()
		body := f.want(r.flags)
		switch r.out {
		case "-":
			wantOut += body
		case "":
			base := filepath.Base(f.name)
			if i := strings.LastIndex(base, "."); i >= 0 {
				base = base[:i]
			}
			if n := filepath.Join(filepath.Dir(f.name), base+".html"); n != filepath.Clean(f.name) { // else: input is kept
				want[n] = body
			}
		default:
			if r.out != f.name {
				want[r.out] = body
			}
		}
	}
	got := res.stdout
	if r.out == "-" {
		got = cliBody(got, r.full)
	}
	if got != wantOut {
		verifNote("standard output: expected %q, got %q", wantOut, got)
		return false
	}
	for n, w := range want {
		g, found := res.files[n]
		if !found {
			verifNote("no file %q", n)
			return false
		}
		input := false
		for _, f := range r.files {
			input = input || filepath.Clean(f.name) == n
		}
		if !input {
			g = cliBody(g, r.full)
		}
		if g != w {
			verifNote("file %q: expected %q, got %q", n, w, g)
			return false
		}
	}
	for n := range res.files {
		if _, found := want[n]; !found {
			verifNote("unexpected file %q", n)
			return false
		}
	}
	return true
}

func gen_drive_cli(g *verifGen) cliRun {
	r := cliRun{relative: g.Bool(), full: g.Weighted(3, 1) == 1}
	for i := g.Len(4); i > 0; i-- {
		r.flags = append(r.flags, cliFlag(g))
	}
	switch g.Weighted(3, 3, 2) {
	case 0:
		r.out = "-"
	case 2:
		r.out = g.Str("out.html", "o", "x.adoc.txt", "-.html", "--")
	}
	names := []string{"d.adoc", "doc", "page.html", "sub/e.asciidoc", "a.b.c", "sub.d/f", ".g.adoc", "d.adoc.adoc", "my doc.txt"}
	n := 1
	if (r.out == "" || r.out == "-" && !r.full) && g.Weighted(4, 1) == 1 {
		n = 2
	}
	for len(r.files) < n {
		f := cliFile{name: names[(g.N(len(names))+len(r.files))%len(names)], decl: map[string]string{}}
		if len(r.files) == 1 && f.name == r.files[0].name {
			f.name = "other/" + f.name
		}
		for _, n := range cliNames {
			switch g.Weighted(4, 2, 1) {
			case 1:
				f.decl[n] = "doc" + n
			case 2:
				f.dup = append(f.dup, n)
			}
		}
		r.files = append(r.files, f)
	}
	if r.out != "" && r.out != "-" && g.Weighted(5, 1) == 1 {
		r.out = r.files[0].name
	}
	return r
}

//verif:bounded drive_cli props=C20 n=3000
func contract_drive_cli(r cliRun, res cliResult) {
	ensures(cliCheck(r, res))
}
