//go:build go1.21

package libasciidoc

// C16: bounded contract on whole conversions: every cell of a table comes out once, in its place

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

type tableDoc struct {
	lines   []string
	title   bool
	cells   []string // text of the cells, in order
	columns int
	widths  []float64 // expected widths, in percents (nil: no width)
	header  bool
	footer  bool
}

type tablesDoc struct {
	lines  []string
	tables []*tableDoc
}

func gen_drive_tables(g *verifGen) *tablesDoc {
	d := &tablesDoc{lines: []string{":foo: FOO", ""}}
	k := 0
	for i := g.Int(1, 2); i > 0; i-- {
		t := genTable(g, &k)
		d.tables = append(d.tables, t)
		switch g.Weighted(6, 1, 1, 1) {
		case 1: // in a block
			d.lines = append(d.lines, "====")
			d.lines = append(d.lines, t.lines...)
			d.lines = append(d.lines, "====")
		case 2: // attached to a list item
			d.lines = append(d.lines, "* item", "+")
			d.lines = append(d.lines, t.lines...)
		case 3: // in a section
			d.lines = append(d.lines, "== section", "")
			d.lines = append(d.lines, t.lines...)
		default:
			d.lines = append(d.lines, t.lines...)
		}
		d.lines = append(d.lines, "", "'''", "")
	}
	return d
}

func genTable(g *verifGen, k *int) *tableDoc {
	t := &tableDoc{}
	first := g.Weighted(0, 3, 4, 4, 3, 1, 1, 1, 1) // cells of the first line
	attrs, weights, auto := []string{}, []int{}, false
	cols := 0
	if g.Weighted(1, 1) == 1 { // explicit columns
		specs := []string{}
		sep := g.Str(",", ",", ", ", " ,")
		switch g.Weighted(1, 4) {
		case 0:
			n := g.Int(1, 7)
			specs = append(specs, strconv.Itoa(n))
			for ; n > 0; n-- {
				weights = append(weights, 1)
			}
		default:
			zero := g.Weighted(6, 1) == 1
			for i := g.Int(1, 4); i > 0; i-- {
				s, n, w := "", 1, 1
				if g.Weighted(3, 1) == 1 {
					n = g.Int(1, 4)
					s += strconv.Itoa(n) + "*"
				}
				s += g.Str("", "", "", "<", ">", "^")
				s += g.Str("", "", "", ".<", ".>", ".^")
				switch g.Weighted(3, 3, 1) {
				case 0:
					w = g.Int(1, 9)
					if g.Weighted(4, 1) == 1 {
						w = g.Int(10, 60)
					}
					s += strconv.Itoa(w)
				case 1:
					if zero {
						w = 0
						s += "0"
					}
				}
				s += g.Str("", "", "", "", "a", "d", "e", "h", "l", "m", "s")
				if s == "" {
					s = g.Str("1", "1*", "<")
				}
				specs = append(specs, s)
				for ; n > 0; n-- {
					weights = append(weights, w)
				}
			}
			if len(specs) == 1 { // not the number of columns
				if _, err := strconv.Atoi(specs[0]); err == nil {
					specs[0] = "1*" + specs[0]
				}
			}
		}
		cols = len(weights)
		attrs = append(attrs, `cols="`+strings.Join(specs, sep)+`"`)
	}
	rows := g.Int(1, 6)
	opts := []string{}
	if g.Weighted(2, 1) == 1 {
		opts = append(opts, "header")
	}
	if g.Weighted(2, 1) == 1 {
		opts = append(opts, "footer")
	}
	if g.Weighted(6, 1) == 1 {
		opts = append(opts, "autowidth")
		auto = true
	}
	if len(opts) > 0 {
		switch g.Int(0, 3) {
		case 0, 1:
			attrs = append([]string{"%" + strings.Join(opts, "%")}, attrs...)
		case 2:
			attrs = append(attrs, `options="`+strings.Join(opts, ",")+`"`)
		default:
			attrs = append(attrs, `opts="`+strings.Join(opts, ",")+`"`)
		}
	}
	if g.Weighted(3, 1) == 1 {
		t.title = true
		t.lines = append(t.lines, ".the title")
	}
	if len(attrs) > 0 {
		t.lines = append(t.lines, "["+strings.Join(attrs, ",")+"]")
	}
	if g.Weighted(4, 1) == 1 {
		t.lines = append(t.lines, "[#id"+strconv.Itoa(*k)+"]")
	}
	cell := func() string {
		*k++
		return fmt.Sprintf("C%dq%s", *k, g.Str("", "", " word", " *bold*", " é", " {foo}", " a, b", " <b>", " `m`", " 3*", " -"))
	}
	t.lines = append(t.lines, "|===")
	implicit := false
	for i := 0; i < rows; i++ {
		n := first
		if i > 0 && g.Weighted(2, 1) == 1 { // other number of cells on the line
			n = g.Int(1, 6)
		}
		switch {
		case i > 0 && g.Weighted(4, 1) == 1: // blocks in cells
			for j := 0; j < n; j++ {
				c := cell()
				t.lines = append(t.lines, "a|"+g.Str("", "\n")+g.Str(c, c, "* "+c, ". "+c, "----\n"+c+"\n----", "NOTE: "+c, "[.role]\n"+c))
				t.cells = append(t.cells, c)
			}
			// another line of cells without format would be part of the same row, on its own it makes no difference
		default:
			l := ""
			for j := 0; j < n; j++ {
				c := cell()
				l += "|" + g.Str("", " ", "  ") + c + g.Str("", " ", " ")
				t.cells = append(t.cells, c)
			}
			t.lines = append(t.lines, l)
			if g.Weighted(6, 1) == 1 {
				t.lines = append(t.lines, "// comment")
			}
		}
		if i == 0 && rows > 1 && g.Weighted(2, 1) == 1 && t.lines[len(t.lines)-1] != "// comment" {
			implicit = true
			t.lines = append(t.lines, "")
		} else if i > 0 && g.Weighted(4, 1) == 1 {
			t.lines = append(t.lines, "")
		}
	}
	t.lines = append(t.lines, "|==="+g.Str("", "", " "))
	t.columns = cols
	if cols == 0 {
		t.columns = first
		for i := 0; i < first; i++ {
			weights = append(weights, 1)
		}
	}
	count := (len(t.cells) + t.columns - 1) / t.columns
	if implicit || len(opts) > 0 && opts[0] == "header" {
		t.header = count > 0
		count--
	}
	if (len(opts) > 0 && opts[0] == "footer" || len(opts) > 1 && opts[1] == "footer") && count > 0 {
		t.footer = true
	}
	if !auto {
		sum := 0
		for _, w := range weights {
			sum += w
		}
		for _, w := range weights {
			if sum == 0 {
				t.widths = append(t.widths, 100/float64(len(weights)))
			} else {
				t.widths = append(t.widths, 100*float64(w)/float64(sum))
			}
		}
	}
	return t
}

var (
	tableRE       = regexp.MustCompile(`(?s)<table .*?</table>`)
	tableSplitRE  = regexp.MustCompile(`</?(?:thead|tbody|tfoot|tr|th|td)\b[^>]*>|<col\b[^>]*>|C[0-9]+q`)
	tableNameRE   = regexp.MustCompile(`^</?[a-z]+`)
	tableWidthRE  = regexp.MustCompile(`width: ([0-9.e+-]+)%`)
	tableMarkerRE = regexp.MustCompile(`C[0-9]+q`)
)

func (t *tableDoc) check(out string) bool {
	rows, part := 0, ""
	n, inRow, cells := 0, 0, 0 // number of cells, of cells in the row
	widths := []string{}
	headers, footers, bodies := 0, 0, 0
	total := (len(t.cells) + t.columns - 1) / t.columns
	for _, tok := range tableSplitRE.FindAllString(out, -1) {
		if tok[0] == 'C' {
			if inRow == 0 {
				verifNote("%s is out of a row", tok)
				return false
			}
			if n > len(t.cells) || cells == 0 || tok != tableMarkerRE.FindString(t.cells[n-1]) {
				verifNote("%s is not in its cell (%d)", tok, n)
				return false
			}
			cells = 0 // seen
			continue
		}
		switch tableNameRE.FindString(tok) {
		case "<col":
			w := tableWidthRE.FindStringSubmatch(tok)
			if w == nil {
				widths = append(widths, "")
			} else {
				widths = append(widths, w[1])
			}
		case "<thead", "<tbody", "<tfoot":
			part = tok[1:6]
		case "</thead", "</tbody", "</tfoot":
			part = ""
		case "<tr":
			rows++
			inRow, cells = 1, 0
			if n != (rows-1)*t.columns {
				verifNote("row %d begins after %d cells instead of %d", rows, n, (rows-1)*t.columns)
				return false
			}
			want := "tbody"
			if t.header && rows == 1 {
				want = "thead"
			} else if t.footer && rows == total {
				want = "tfoot"
			}
			if part != want {
				verifNote("row %d is in %q instead of %s", rows, part, want)
				return false
			}
			switch part {
			case "thead":
				headers++
			case "tfoot":
				footers++
			default:
				bodies++
			}
		case "</tr":
			inRow = 0
		case "<th", "<td":
			n++
			cells = 1
		case "</th", "</td":
			if cells == 1 {
				verifNote("cell %d is empty", n)
				return false
			}
		}
	}
	if rows != total && rows != len(t.cells)/t.columns || n != len(t.cells) && n != len(t.cells)/t.columns*t.columns {
		verifNote("%d rows and %d cells instead of %d and %d", rows, n, total, len(t.cells))
		return false
	}
	if len(widths) != t.columns {
		verifNote("%d columns instead of %d", len(widths), t.columns)
		return false
	}
	for i, w := range widths {
		if t.widths == nil {
			if w != "" {
				verifNote("width of column %d: %s", i, w)
				return false
			}
			continue
		}
		f, err := strconv.ParseFloat(w, 64)
		if w == "" {
			f, err = 0, nil
		}
		if err != nil || math.Abs(f-t.widths[i]) > 0.01 || f < 0 || f > 100 {
			verifNote("width of column %d: %q instead of %v", i, w, t.widths[i])
			return false
		}
	}
	text := htmlText(out)
	for _, c := range t.cells {
		want := strings.NewReplacer("*bold*", "bold", "{foo}", "FOO", "`m`", "m").Replace(c)
		if strings.Count(text, want) < 1 && strings.Count(text, c) < 1 {
			verifNote("%q is missing in %q", want, text)
			return false
		}
	}
	if t.title != strings.Contains(out, "the title</caption>") {
		verifNote("title: %v", t.title)
		return false
	}
	return true
}

func tablesCheck(d *tablesDoc, out string, err error) bool {
	if err != nil {
		verifNote("%v", err)
		return false
	}
	found := tableRE.FindAllString(out, -1)
	if len(found) != len(d.tables) {
		verifNote("%d tables instead of %d in\n%s", len(found), len(d.tables), out)
		return false
	}
	for i, t := range d.tables {
		if !t.check(found[i]) {
			verifNote("table %d in\n%s", i, out)
			return false
		}
	}
	for _, m := range tableMarkerRE.FindAllString(strings.Join(found, ""), -1) {
		if strings.Count(out, m) != 1 {
			verifNote("%s more than once in\n%s", m, out)
			return false
		}
	}
	return true
}

func drive_tables(d *tablesDoc) (string, error) {
	return cvBody(d.lines)
}

//verif:bounded drive_tables props=C16 n=4000
func contract_drive_tables(d *tablesDoc, out string, err error) {
	ensures(tablesCheck(d, out, err))
}
