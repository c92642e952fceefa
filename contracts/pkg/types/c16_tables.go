//go:build go1.21

package types

// ---- C16: layout of the cells of tables ----

// SpecRow: the row which is the value, if any
func SpecRow(e interface{}) *TableRow {
	r, ok := e.(*TableRow)
	if !ok {
		return nil
	}
	return r
}

// SpecCellCount: number of cells in the first n elements
func SpecCellCount(elements []interface{}, n int) int {
	decreases(n)
	if n <= 0 {
		return 0
	}
	if r := SpecRow(elements[n-1]); r != nil {
		return SpecCellCount(elements, n-1) + len(r.Cells)
	}
	return SpecCellCount(elements, n-1)
}

// SpecTimes: n times k
func SpecTimes(n int, k int) int {
	decreases(n)
	if n <= 0 {
		return 0
	}
	return SpecTimes(n-1, k) + k
}

// SpecCellAt: the k-th cell in the first n elements
func SpecCellAt(elements []interface{}, n int, k int) *TableCell {
	decreases(n)
	if n <= 0 {
		return nil
	}
	if r := SpecRow(elements[n-1]); r != nil && k >= SpecCellCount(elements, n-1) {
		return r.Cells[k-SpecCellCount(elements, n-1)]
	}
	return SpecCellAt(elements, n-1, k)
}

// SpecNotNilRow: not a nil row
func SpecNotNilRow(e interface{}) bool {
	r, ok := e.(*TableRow)
	return !ok || r != nil
}

//verif:contract organizeTableCells props=C16
func contract_organizeTableCells(elements []interface{}, rowLength int, result []*TableRow) {
	requires(valid(elements))
	requires(rowLength > 0)
	requires(forall(0, len(elements), func(i int) bool { return SpecNotNilRow(elements[i]) }))
	ensures(result != nil && fresh(result))
	// every row is complete but the last one, and no cell is lost
	ensures(forall(0, len(result), func(i int) bool { return result[i] != nil && fresh(result[i]) }))
	ensures(forall(0, len(result), func(i int) bool { return len(result[i].Cells) > 0 && len(result[i].Cells) <= rowLength }))
	ensures(forall(0, len(result)-1, func(i int) bool { return len(result[i].Cells) == rowLength }))
	ensures(len(result) > 0 || old(func() int { return SpecCellCount(elements, len(elements)) }) == 0)
	ensures(len(result) == 0 || SpecTimes(len(result)-1, rowLength)+len(result[len(result)-1].Cells) == old(func() int { return SpecCellCount(elements, len(elements)) }))
	// in the same order
	ensures(forall(0, len(result), func(i int) bool {
		return anyInt(1) < 0 || anyInt(1) >= len(result[i].Cells) ||
			result[i].Cells[anyInt(1)] == old(func() *TableCell { return SpecCellAt(elements, len(elements), SpecTimes(i, rowLength)+anyInt(1)) })
	}))
	invariant(func(rangeindex int, cells []*TableCell) bool {
		return fresh(cells) && cells != nil && rangeindex >= 0-1
	})
	invariant(func(rangeindex int, cells []*TableCell) bool {
		return len(cells) == old(func() int { return SpecCellCount(elements, rangeindex+1) })
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool { return rows != nil && fresh(rows) && fresh(cells) })
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return forall(0, len(rows), func(i int) bool { return rows[i] != nil && fresh(rows[i]) })
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return forall(0, len(rows), func(i int) bool { return len(rows[i].Cells) > 0 && len(rows[i].Cells) <= rowLength })
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return forall(0, len(rows)-1, func(i int) bool { return len(rows[i].Cells) == rowLength })
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return len(rows) == 0 || len(cells) == 0 || len(rows[len(rows)-1].Cells) == rowLength
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return len(rows) > 0 || len(cells) == old(func() int { return SpecCellCount(elements, len(elements)) })
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return len(rows) == 0 || SpecTimes(len(rows)-1, rowLength)+len(rows[len(rows)-1].Cells)+len(cells) == old(func() int { return SpecCellCount(elements, len(elements)) })
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return len(cells) == 0 || SpecTimes(len(rows), rowLength)+len(cells) == old(func() int { return SpecCellCount(elements, len(elements)) })
	})
	invariant(func(rangeindex int, cells []*TableCell) bool {
		return forall(0, len(cells), func(k int) bool {
			return cells[k] == old(func() *TableCell { return SpecCellAt(elements, rangeindex+1, k) })
		})
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return forall(0, len(cells), func(k int) bool {
			return cells[k] == old(func() *TableCell {
				return SpecCellAt(elements, len(elements), SpecCellCount(elements, len(elements))-len(cells)+k)
			})
		})
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return forall(0, len(rows), func(i int) bool { return fresh(rows[i].Cells) && valid(rows[i].Cells) })
	})
	invariant(func(rows []*TableRow, cells []*TableCell) bool {
		return forall(0, len(rows), func(i int) bool {
			return anyInt(1) < 0 || anyInt(1) >= len(rows[i].Cells) ||
				rows[i].Cells[anyInt(1)] == old(func() *TableCell { return SpecCellAt(elements, len(elements), SpecTimes(i, rowLength)+anyInt(1)) })
		})
	})
}

// SpecHasHeader: whether the attributes ask for a header
func SpecHasHeader(a Attributes) bool {
	return SpecHasOpt(SpecOptions(a), "header") || hasKey(a, "header")
}

// SpecHasFooter: whether the attributes ask for a footer
func SpecHasFooter(a Attributes) bool {
	return SpecHasOpt(SpecOptions(a), "footer") || hasKey(a, "footer")
}

// SpecOne: 1 if so, 0 if not
func SpecOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

//verif:contract (*Table).allRows props=C16
func contract_Table_allRows(t *Table, result []*TableRow) {
	requires(t != nil)
	ensures(result != nil && fresh(result))
	ensures(len(result) == len(t.Rows)+SpecOne(t.Header != nil)+SpecOne(t.Footer != nil))
	ensures(t.Header == nil || result[0] == t.Header)
	ensures(t.Footer == nil || result[len(result)-1] == t.Footer)
	ensures(forall(0, len(t.Rows), func(i int) bool { return result[i+SpecOne(t.Header != nil)] == t.Rows[i] }))
}

//verif:contract (*Table).rows props=C16
func contract_Table_rows(t *Table, result []interface{}, header bool, footer bool) {
	requires(t != nil && valid(t.Rows))
	ensures(result != nil && fresh(result))
	ensures(header == (t.Header != nil) && footer == (t.Footer != nil))
	ensures(len(result) == len(t.Rows)+SpecOne(header)+SpecOne(footer))
	ensures(!header || SpecRow(result[0]) == t.Header)
	ensures(!footer || SpecRow(result[len(result)-1]) == t.Footer)
	ensures(forall(0, len(t.Rows), func(i int) bool { return SpecRow(result[i+SpecOne(header)]) == t.Rows[i] }))
	ensures(forall(0, len(result), func(i int) bool { return SpecIsRow(result[i]) }))
	invariant(func(rangeindex int, rows []interface{}) bool { return rangeindex >= 0-1 && rows != nil && fresh(rows) })
	invariant(func(rangeindex int, rows []interface{}) bool {
		return len(rows) == rangeindex+1+SpecOne(t.Header != nil)
	})
	invariant(func(rangeindex int, rows []interface{}) bool { return t.Header == nil || SpecRow(rows[0]) == t.Header })
	invariant(func(rangeindex int, rows []interface{}) bool {
		return forall(0, rangeindex+1, func(i int) bool { return SpecRow(rows[i+SpecOne(t.Header != nil)]) == t.Rows[i] })
	})
	invariant(func(rangeindex int, rows []interface{}) bool {
		return forall(0, len(rows), func(i int) bool { return SpecIsRow(rows[i]) })
	})
}

// SpecIsRow: whether the value is a row
func SpecIsRow(e interface{}) bool {
	_, ok := e.(*TableRow)
	return ok
}

//verif:contract (*Table).reorganizeRows props=C16
func contract_Table_reorganizeRows(t *Table) {
	requires(t != nil)
	modifies(t)
	// the first row becomes the header, the last one the footer, and the other ones remain
	ensures(t.Header == old(func() *TableRow {
		if t.Header == nil && len(t.Rows) > 0 && SpecHasHeader(t.Attributes) {
			return t.Rows[0]
		}
		return t.Header
	}))
	ensures(same(t.Attributes, old(func() Attributes { return t.Attributes })))
	ensures(len(t.Rows)+SpecOne(t.Header != nil)+SpecOne(t.Footer != nil) == old(func() int {
		return len(t.Rows) + SpecOne(t.Header != nil) + SpecOne(t.Footer != nil)
	}) || exists(0, old(func() int { return len(t.Rows) }), func(i int) bool { return old(func() bool { return t.Rows[i] == nil }) }))
	ensures(t.Footer == old(func() *TableRow { return t.Footer }) || old(func() bool { return SpecHasFooter(t.Attributes) }))
	ensures(t.Footer == old(func() *TableRow { return t.Footer }) || t.Footer == old(func() *TableRow { return t.Rows[len(t.Rows)-1] }))
	ensures(!SpecHasFooter(t.Attributes) || t.Footer != nil || len(t.Rows) == 0 || exists(0, old(func() int { return len(t.Rows) }), func(i int) bool { return old(func() bool { return t.Rows[i] == nil }) }))
	ensures(forall(0, len(t.Rows), func(i int) bool {
		return t.Rows[i] == old(func() *TableRow {
			if t.Header == nil && len(t.Rows) > 0 && SpecHasHeader(t.Attributes) {
				return t.Rows[i+1]
			}
			return t.Rows[i]
		})
	}))
}

//verif:contract NewTableColumn props=C16
func contract_NewTableColumn(multiplier, halign, valign, weight, style interface{}, result *TableColumn, err error) {
	ensures(err == nil && result != nil && fresh(result))
	ensures(result.Multiplier >= 0 && result.Weight >= 0)
	ensures(result.Multiplier == SpecFactor(multiplier))
	ensures(result.Autowidth == (weight == "~"))
	ensures(result.Weight == ite(weight == "~", 0, SpecFactor(weight)))
	a, isH := halign.(HAlign)
	b, isV := valign.(VAlign)
	s, isS := style.(string)
	ensures(string(result.HAlign) == ite(isH, string(a), "<") && string(result.VAlign) == ite(isV, string(b), "<"))
	ensures(string(result.Style) == ite(isS, s, ""))
	ensures(result.Width == "")
}

// SpecFactor: number, 1 if there's none
func SpecFactor(v interface{}) int {
	if n, ok := v.(int); ok && n >= 0 {
		return n
	}
	return 1
}

// SpecCol: the column which is the value, if any
func SpecCol(e interface{}) *TableColumn {
	c, ok := e.(*TableColumn)
	if !ok {
		return nil
	}
	return c
}

// SpecColumnCount: number of columns in the first n definitions
func SpecColumnCount(cols []interface{}, n int) int {
	decreases(n)
	if n <= 0 {
		return 0
	}
	if c := SpecCol(cols[n-1]); c != nil {
		return SpecColumnCount(cols, n-1) + c.Multiplier
	}
	return SpecColumnCount(cols, n-1)
}

// SpecGoodCol: not a nil column nor a negative factor
func SpecGoodCol(e interface{}) bool {
	c, ok := e.(*TableColumn)
	return !ok || c != nil && c.Multiplier >= 0
}

//verif:contract scanTableElements props=C16
func contract_scanTableElements(rows []interface{}, header *TableRow, result []*TableRow) {
	requires(valid(rows))
	requires(forall(0, len(rows), func(i int) bool { return SpecNotNilRow(rows[i]) }))
	requires(forall(0, len(rows), func(i int) bool { return SpecRow(rows[i]) == nil || len(SpecRow(rows[i]).Cells) > 0 }))
	ensures(result != nil && fresh(result))
	ensures(header == nil || len(rows) > 2 && header == SpecRow(rows[0]))
	ensures(header != nil || len(rows) <= 2 || SpecRow(rows[0]) == nil || !SpecIsBlank(rows[1]))
	ensures(forall(0, len(result), func(i int) bool { return result[i] != nil && fresh(result[i]) && len(result[i].Cells) > 0 }))
	invariant(func(rangeindex int) bool { return rangeindex >= 0-1 })
	invariant(func(rangeindex int) bool {
		return forall(0, rangeindex+1, func(i int) bool { return SpecRow(rows[i]) == nil })
	})
	// rows are as long as the first one
	ensures(header == nil || forall(0, len(result)-1, func(i int) bool { return len(result[i].Cells) == len(header.Cells) }))
	ensures(header == nil || len(result) == 0 || len(result[len(result)-1].Cells) <= len(header.Cells))
	ensures(header != nil || anyInt(1) < 0 || anyInt(1) >= len(rows) || SpecRow(rows[anyInt(1)]) == nil ||
		!forall(0, anyInt(1), func(k int) bool { return SpecRow(rows[k]) == nil }) ||
		forall(0, len(result)-1, func(i int) bool { return len(result[i].Cells) == len(SpecRow(rows[anyInt(1)]).Cells) }))
}

// SpecIsBlank: whether the element is a blank line
func SpecIsBlank(e interface{}) bool {
	_, ok := e.(*BlankLine)
	return ok
}

//verif:contract (*Table).SetColumnDefinitions props=C16
func contract_Table_SetColumnDefinitions(t *Table, cols []interface{}) {
	requires(t != nil && valid(t.Rows) && valid(cols))
	requires(forall(0, len(cols), func(i int) bool { return SpecGoodCol(cols[i]) }))
	requires(forall(0, len(t.Rows), func(i int) bool { return t.Rows[i] != nil }))
	modifies(t)
	ensures(same(t.Attributes, old(func() Attributes { return t.Attributes })))
	// nothing changes without columns, otherwise rows have as many cells as columns, except the last one
	ensures(SpecColumnCount(cols, len(cols)) > 0 || t.Header == old(func() *TableRow { return t.Header }) && t.Footer == old(func() *TableRow { return t.Footer }))
	ensures(SpecColumnCount(cols, len(cols)) > 0 || same(t.Rows, old(func() []*TableRow { return t.Rows })))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || forall(0, len(t.Rows), func(i int) bool {
		return t.Rows[i] != nil && len(t.Rows[i].Cells) > 0 && len(t.Rows[i].Cells) <= SpecColumnCount(cols, len(cols))
	}))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || forall(0, len(t.Rows)-1, func(i int) bool { return len(t.Rows[i].Cells) == SpecColumnCount(cols, len(cols)) }))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Footer == nil || len(t.Rows) == 0 || len(t.Rows[len(t.Rows)-1].Cells) == SpecColumnCount(cols, len(cols)))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Header == nil || len(t.Rows) == 0 && t.Footer == nil || len(t.Header.Cells) == SpecColumnCount(cols, len(cols)))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Header == nil || len(t.Header.Cells) <= SpecColumnCount(cols, len(cols)))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Footer == nil || len(t.Footer.Cells) <= SpecColumnCount(cols, len(cols)))
	// a header and a footer remain, or come with the options
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Header == nil || old(func() bool { return t.Header != nil || SpecHasHeader(t.Attributes) }))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Footer == nil || old(func() bool { return t.Footer != nil || SpecHasFooter(t.Attributes) }))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Header != nil || len(t.Rows) == 0 && t.Footer == nil || !(old(func() bool { return t.Header != nil || SpecHasHeader(t.Attributes) })))
	ensures(SpecColumnCount(cols, len(cols)) == 0 || t.Footer != nil || len(t.Rows) == 0 || !(old(func() bool { return t.Footer != nil || SpecHasFooter(t.Attributes) })))
	invariant(func(rangeindex int, size int) bool { return rangeindex >= 0-1 && size >= 0 })
	invariant(func(rangeindex int, size int) bool { return size == SpecColumnCount(cols, rangeindex+1) })
}

// SpecColumns: the definitions of columns
func SpecColumns(t *Table) []interface{} {
	c, _ := t.Attributes[AttrCols].([]interface{})
	return c
}

//verif:contract (*Table).Columns props=C16
func contract_Table_Columns(t *Table, result []*TableColumn, err error) {
	requires(t != nil && valid(t.Rows) && valid(SpecColumns(t)))
	requires(forall(0, len(t.Rows), func(i int) bool { return t.Rows[i] != nil }))
	requires(forall(0, len(SpecColumns(t)), func(i int) bool { return SpecGoodCol(SpecColumns(t)[i]) }))
	ensures(err != nil || result != nil && fresh(result))
	ensures(err != nil || forall(0, len(result), func(i int) bool { return result[i] != nil && fresh(result[i]) }))
	ensures(err == nil || !forall(0, len(SpecColumns(t)), func(i int) bool { return SpecCol(SpecColumns(t)[i]) != nil }))
	invariant(func(rangeindex int) bool { return rangeindex >= 0-1 })
	invariant(func(result []*TableColumn) bool { return result != nil && fresh(result) })
	invariant(func(result []*TableColumn) bool {
		return forall(0, len(result), func(i int) bool { return result[i] != nil && fresh(result[i]) })
	})
}
