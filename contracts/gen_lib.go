//go:build go1.21

package libasciidoc

// Helpers of the bounded contracts on whole conversions.  They run the real Convert and read the HTML
// it writes.

import (
	"fmt"
	"html"
	"reflect"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// cvConvert: the body produced for the source, with the given settings
func cvConvert(source string, c *configuration.Configuration) (string, types.Metadata, error) {
	var b strings.Builder
	m, err := Convert(strings.NewReader(source), &b, c)
	return b.String(), m, err
}

func cvBody(lines []string) (string, error) {
	out, _, err := cvConvert(strings.Join(lines, "\n")+"\n", configuration.NewConfiguration())
	return out, err
}

// ---- a small reader for the HTML the library writes ----

type htmlTok struct {
	Kind  byte // 't' text, '<' start tag, '/' end tag
	Name  string
	Attrs map[string]string
	Text  string // raw
}

var htmlTagRE = regexp.MustCompile(`<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[a-zA-Z_:\-]+(?:="[^"<]*")?)*)\s*(/?)>`)
var htmlAttrRE = regexp.MustCompile(`([a-zA-Z_:\-]+)(?:="([^"<]*)")?`)

func htmlTokens(s string) []htmlTok {
	var out []htmlTok
	pos := 0
	for _, m := range htmlTagRE.FindAllStringSubmatchIndex(s, -1) {
		if m[0] > pos {
			out = append(out, htmlTok{Kind: 't', Text: s[pos:m[0]]})
		}
		pos = m[1]
		t := htmlTok{Kind: '<', Name: s[m[4]:m[5]], Text: s[m[0]:m[1]]}
		if m[3] > m[2] {
			t.Kind = '/'
		} else {
			t.Attrs = map[string]string{}
			for _, a := range htmlAttrRE.FindAllStringSubmatch(s[m[6]:m[7]], -1) {
				t.Attrs[a[1]] = a[2]
			}
		}
		out = append(out, t)
	}
	if pos < len(s) {
		out = append(out, htmlTok{Kind: 't', Text: s[pos:]})
	}
	return out
}

// htmlText: the text without the tags, entities resolved
func htmlText(s string) string {
	var b strings.Builder
	for _, t := range htmlTokens(s) {
		if t.Kind == 't' {
			b.WriteString(t.Text)
		}
	}
	return html.UnescapeString(b.String())
}

// htmlBalanced: tags nest properly
func htmlBalanced(s string) error {
	void := map[string]bool{"br": true, "hr": true, "img": true, "col": true, "input": true, "link": true, "meta": true}
	var st []string
	for _, t := range htmlTokens(s) {
		switch {
		case t.Kind == '<' && !void[t.Name]:
			st = append(st, t.Name)
		case t.Kind == '/':
			if len(st) == 0 || st[len(st)-1] != t.Name {
				return fmt.Errorf("unexpected %s (open: %v)", t.Text, st)
			}
			st = st[:len(st)-1]
		}
	}
	if len(st) > 0 {
		return fmt.Errorf("left open: %v", st)
	}
	return nil
}

func cvSame(a, b interface{}) bool { return reflect.DeepEqual(a, b) }
