//go:build go1.21

package gotables

// Every history of operations acts on a table as on a plain matrix of named, typed columns.

// vzMat is the plain matrix.
type vzMat struct {
	cols, types []string
	rows        [][]interface{}
}

func (m *vzMat) clone() *vzMat {
	n := &vzMat{cols: append([]string{}, m.cols...), types: append([]string{}, m.types...)}
	for _, r := range m.rows {
		n.rows = append(n.rows, append([]interface{}{}, r...))
	}
	return n
}

func (m *vzMat) blankRow() []interface{} {
	var r []interface{}
	for _, t := range m.types {
		r = append(r, vzBlank(t))
	}
	return r
}

// vzBlank: the zero value of the column types used here.
func vzBlank(typ string) interface{} {
	switch typ {
	case "int":
		return int(0)
	case "string":
		return ""
	case "float64":
		return float64(0)
	case "[]byte":
		return []byte{}
	}
	panic("vzBlank " + typ)
}

// vzMatIs: the table is what the matrix says, by every way of looking at it.
func vzMatIs(t *Table, m *vzMat, where string) {
	vzAssert(t.ColCount() == len(m.cols), where+": number of columns")
	vzAssert(t.RowCount() == len(m.rows), where+": number of rows")
	if t.ColCount() != len(m.cols) || t.RowCount() != len(m.rows) {
		return
	}
	for c := range m.cols {
		name, err := t.ColName(c)
		vzAssert(err == nil && name == m.cols[c], where+": column name")
		typ, err := t.ColTypeByColIndex(c)
		vzAssert(err == nil && typ == m.types[c], where+": column type")
		ix, err := t.ColIndex(m.cols[c])
		vzAssert(err == nil && ix == c, where+": column found by its name")
		for r := range m.rows {
			v, err := t.GetValByColIndex(c, r)
			vzAssert(err == nil && vzSame(v, m.rows[r][c]), where+": cell")
			v, err = t.GetVal(m.cols[c], r)
			vzAssert(err == nil && vzSame(v, m.rows[r][c]), where+": cell by column name")
		}
	}
	valid, err := t.IsValidTable()
	vzAssert(valid && err == nil, where+": the table calls itself valid")
}

// a table and the matrix it should be; old ones are kept to see that nothing reaches them through a copy
type vzTM struct {
	t *Table
	m *vzMat
}

type vzHist struct {
	cur  vzTM
	kept []vzTM
	n    int // operations so far, for fresh column names
}

func vzC27fill(h *vzHist, from int) {
	for r := from; r < len(h.cur.m.rows); r++ {
		for c := range h.cur.m.cols {
			v := vzCellN(h.cur.m.types[c], "cell", 1)
			vzMust(h.cur.t.SetValByColIndex(c, r, v), "SetValByColIndex")
			h.cur.m.rows[r][c] = vzKeep(v)
		}
	}
}

// vzC27start: the same table made in different ways.
func vzC27start(how int) *vzHist {
	m := &vzMat{cols: []string{"a", "b"}, types: []string{"int", "string"}}
	var t *Table
	var err error
	rows := 2
	switch how {
	case 0: // row by row
		t, err = NewTableFromMetadata("T", m.cols, m.types)
		vzMust(err, "NewTableFromMetadata")
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.AppendRow(), "AppendRow")
	case 1: // rows first, columns later
		t, err = NewTable("T")
		vzMust(err, "NewTable")
		vzMust(t.AppendRows(2), "AppendRows")
		vzMust(t.AppendCol("a", "int"), "AppendCol")
		vzMust(t.AppendCol("b", "string"), "AppendCol")
	case 2: // by the parser
		t, err = NewTableFromString("[T]\na b\nint string\n1 \"x\"\n2 \"y\"\n")
		vzMust(err, "NewTableFromString")
	case 3: // all rows at once, three of them
		t, err = NewTableFromMetadata("T", m.cols, m.types)
		vzMust(err, "NewTableFromMetadata")
		vzMust(t.AppendRows(3), "AppendRows")
		rows = 3
	case 4: // many rows and columns
		m.cols, m.types, rows = nil, nil, 11
		for c := 0; c < 11; c++ {
			m.cols, m.types = append(m.cols, "c"+vzDec(c)), append(m.types, []string{"int", "string", "float64", "[]byte"}[c*3%4])
		}
		t, err = NewTableFromMetadata("T", m.cols, m.types)
		vzMust(err, "NewTableFromMetadata")
		for r := 0; r < rows; r++ {
			vzMust(t.AppendRow(), "AppendRow")
			var row []interface{}
			for c, typ := range m.types {
				v := vzBigCell(typ, r, c)
				vzMust(t.SetValByColIndex(c, r, v), "SetValByColIndex")
				row = append(row, vzKeep(v))
			}
			m.rows = append(m.rows, row)
		}
		return &vzHist{cur: vzTM{t, m}}
	}
	h := &vzHist{cur: vzTM{t, m}}
	for i := 0; i < rows; i++ {
		m.rows = append(m.rows, m.blankRow())
	}
	vzC27fill(h, 0)
	return h
}

// vzEnd: the first or the last of n things.
func vzEnd(name string, n int) int {
	if n < 2 {
		return 0
	}
	return []int{0, n - 1}[vzRange(name, 0, 1)]
}

// vzC27op does one operation on the table and on the matrix. Operations that do not apply (an empty table) are skipped.
func (h *vzHist) op(op int) {
	t, m := h.cur.t, h.cur.m
	nc, nr := len(m.cols), len(m.rows)
	h.n++
	fresh := []string{"n0", "n1", "n2", "n3", "n4", "n5"}[h.n]
	switch op {
	case 0:
		vzMust(t.AppendRow(), "AppendRow")
		m.rows = append(m.rows, m.blankRow())
	case 1:
		vzMust(t.AppendRows(2), "AppendRows")
		m.rows = append(m.rows, m.blankRow(), m.blankRow())
		if vzRange("fill", 0, 1) == 1 {
			vzC27fill(h, nr)
		}
	case 2:
		vzAssume(nr > 0)
		r := vzEnd("row", nr)
		vzMust(t.DeleteRow(r), "DeleteRow")
		m.rows = append(append([][]interface{}{}, m.rows[:r]...), m.rows[r+1:]...)
	case 3:
		vzAssume(nr > 1)
		vzMust(t.DeleteRows(nr-2, nr-1), "DeleteRows")
		m.rows = append([][]interface{}{}, m.rows[:nr-2]...)
	case 4:
		typ := []string{"int", "[]byte"}[vzRange("type", 0, 1)]
		vzMust(t.AppendCol(fresh, typ), "AppendCol")
		m.cols, m.types = append(append([]string{}, m.cols...), fresh), append(append([]string{}, m.types...), typ)
		for r := range m.rows {
			m.rows[r] = append(append([]interface{}{}, m.rows[r]...), vzBlank(typ))
		}
	case 5:
		vzAssume(nc > 1)
		c := vzEnd("col", nc)
		vzMust(t.DeleteColByColIndex(c), "DeleteColByColIndex")
		m.cols = append(append([]string{}, m.cols[:c]...), m.cols[c+1:]...)
		m.types = append(append([]string{}, m.types[:c]...), m.types[c+1:]...)
		for r := range m.rows {
			m.rows[r] = append(append([]interface{}{}, m.rows[r][:c]...), m.rows[r][c+1:]...)
		}
	case 6:
		vzAssume(nc > 1)
		vzMust(t.SwapColsByColIndex(0, nc-1), "SwapColsByColIndex")
		m.cols[0], m.cols[nc-1] = m.cols[nc-1], m.cols[0]
		m.types[0], m.types[nc-1] = m.types[nc-1], m.types[0]
		for r := range m.rows {
			m.rows[r][0], m.rows[r][nc-1] = m.rows[r][nc-1], m.rows[r][0]
		}
	case 7:
		vzAssume(nc > 1)
		var order []int
		for c := 0; c < nc; c++ {
			order = append(order, (c+1)%nc)
		}
		vzMust(t.ReorderColsByColIndex(order...), "ReorderColsByColIndex")
		o := m.clone()
		for c := 0; c < nc; c++ {
			m.cols[c], m.types[c] = o.cols[order[c]], o.types[order[c]]
			for r := range m.rows {
				m.rows[r][c] = o.rows[r][order[c]]
			}
		}
	case 8:
		vzAssume(nr > 0 && nc > 0)
		c, r := vzEnd("col", nc), vzEnd("row", nr)
		v := vzCellN(m.types[c], "cell", 1)
		vzMust(t.SetVal(m.cols[c], r, v), "SetVal")
		m.rows[r][c] = vzKeep(v)
	case 9:
		vzMust(t.Reverse(), "Reverse")
		for i, j := 0, nr-1; i < j; i, j = i+1, j-1 {
			m.rows[i], m.rows[j] = m.rows[j], m.rows[i]
		}
	case 10:
		vzAssume(nc > 0)
		c := vzEnd("col", nc)
		vzMust(t.RenameColByColIndex(c, fresh), "RenameColByColIndex")
		m.cols[c] = fresh
	case 11: // go on with a copy, or with the original
		k, err := t.Copy()
		vzMust(err, "Copy")
		h.fork(k, m.clone())
	case 12:
		vzAssume(nr > 0)
		k, err := t.NewTableFromRows("T", 0, nr-1)
		vzMust(err, "NewTableFromRows")
		h.fork(k, m.clone())
	case 13:
		vzAssume(nc > 1)
		var order []int
		for c := 0; c < nc; c++ {
			order = append(order, nc-1-c)
		}
		k, err := t.NewTableReorderColsByColIndex(order...)
		vzMust(err, "NewTableReorderColsByColIndex")
		o := m.clone()
		for c := 0; c < nc; c++ {
			o.cols[c], o.types[c] = m.cols[order[c]], m.types[order[c]]
			for r := range m.rows {
				o.rows[r][c] = m.rows[r][order[c]]
			}
		}
		h.fork(k, o)
	case 14: // take rows from a table with the same columns
		vzAssume(nr > 0)
		k, err := t.CopyCols()
		vzMust(err, "CopyCols")
		vzMust(k.AppendRowsFromTable(t, nr-1, nr-1), "AppendRowsFromTable")
		vzMust(k.AppendRowsFromTable(t, 0, nr-1), "AppendRowsFromTable")
		o := m.clone()
		o.rows = append([][]interface{}{append([]interface{}{}, m.rows[nr-1]...)}, o.rows...)
		h.fork(k, o)
	case 15: // rows from the table itself
		vzAssume(nr > 0)
		vzMust(t.AppendRowsFromTable(t, 0, 0), "AppendRowsFromTable")
		m.rows = append(m.rows, append([]interface{}{}, m.rows[0]...))
	case 16: // columns from another table
		k, err := NewTableFromMetadata("K", []string{m.cols[0], fresh}, []string{m.types[0], "string"})
		vzMust(err, "NewTableFromMetadata")
		vzMust(k.AppendRow(), "AppendRow")
		vzMust(t.AppendColsFromTable(k), "AppendColsFromTable")
		m.cols, m.types = append(append([]string{}, m.cols...), fresh), append(append([]string{}, m.types...), "string")
		for r := range m.rows {
			m.rows[r] = append(append([]interface{}{}, m.rows[r]...), "")
		}
	case 17:
		vzAssume(nc > 0)
		c := vzEnd("col", nc)
		vzMust(t.SetColCellsToZeroValueByColIndex(c), "SetColCellsToZeroValueByColIndex")
		for r := range m.rows {
			m.rows[r][c] = vzBlank(m.types[c])
		}
	case 18:
		vzMust(t.DeleteRowsAll(), "DeleteRowsAll")
		m.rows = nil
	case 19: // failed operations change nothing
		vzAssert(t.AppendCol(m.cols[nc-1], "int") != nil, "a second column of one name is refused")
		vzAssert(t.DeleteRow(nr) != nil, "deleting a row outside the table is refused")
		vzAssert(t.SetVal(m.cols[0], nr, vzBlank(m.types[0])) != nil, "setting a cell outside the table is refused")
		vzAssert(t.AppendRowsFromTable(t, 0, nr) != nil, "appending rows outside the table is refused")
	case 20: // out through a table set and back
		s, err := NewTableSet("S")
		vzMust(err, "NewTableSet")
		vzMust(s.Append(t), "Append")
		k, err := s.Copy()
		vzMust(err, "TableSet.Copy")
		kt, err := k.GetTable("T")
		vzMust(err, "GetTable")
		h.fork(kt, m.clone())
	}
}

// fork: the history goes on with either of two tables, the other one is kept.
func (h *vzHist) fork(k *Table, m *vzMat) {
	o := vzTM{k, m}
	if vzRange("continue", 0, 1) == 0 {
		h.kept = append(h.kept, o)
	} else {
		h.kept = append(h.kept, h.cur)
		h.cur = o
	}
}

func (h *vzHist) check() {
	vzMatIs(h.cur.t, h.cur.m, "after a history")
	for _, k := range h.kept {
		vzMatIs(k.t, k.m, "a table copied from or to, after a history")
	}
}

const vzC27ops = 20

func vzC27hist(how int, ops [][]int) {
	h := vzC27start(how)
	for _, set := range ops {
		h.op(set[vzRange("op", 0, len(set)-1)])
	}
	h.check()
	vzReach("end")
}

func vzC27all() []int {
	var a []int
	for i := 0; i <= vzC27ops; i++ {
		a = append(a, i)
	}
	return a
}

// one symbolic choice of operation per step; quick: two steps from the row-by-row and the rows-first table, three from the
// others; thorough: one step more, the last steps over the operations that move storage around.
func vzC27_hist0() { a := vzC27all(); vzC27hist(0, vzC27steps(2, a)) }
func vzC27_hist1() { a := vzC27all(); vzC27hist(1, vzC27steps(2, a)) }
func vzC27_hist2() { a := vzC27all(); vzC27hist(2, vzC27steps(3, a)) }
func vzC27_big()   { a := vzC27all(); vzC27hist(4, [][]int{a, a}) }
func vzC27_hist3() { a := vzC27all(); vzC27hist(3, vzC27steps(3, a)) }

// storage: longer histories of the operations that grow, shrink and share the storage of rows
func vzC27_storage() {
	a := []int{0, 1, 2, 3, 4, 5, 11, 15}
	if vzTier() == 0 {
		a = []int{0, 1, 2, 4, 5}
	}
	vzC27hist(3, [][]int{a, a, a, a})
}

func vzC27steps(n int, a []int) [][]int {
	var s [][]int
	for i := 0; i < n; i++ {
		s = append(s, a)
	}
	if vzTier() == 1 && n < 3 {
		s = append(s, a)
	}
	return s
}
