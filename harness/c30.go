//go:build go1.21

package gotables

import "errors"

// Walking a table or table set visits everything exactly once, in order.

type vzEv struct {
	kind string
	s    *TableSet
	t    *Table
	row  int
	col  int
}

// vzWalkExpect: the visits of a walk of t, in order.
func vzWalkExpect(t *Table, nested bool, out []vzEv) []vzEv {
	out = append(out, vzEv{kind: "table", t: t})
	for r := 0; r < t.RowCount(); r++ {
		out = append(out, vzEv{kind: "row", t: t, row: r})
		for c := 0; c < t.ColCount(); c++ {
			out = append(out, vzEv{kind: "cell", t: t, row: r, col: c})
			v, err := t.GetValByColIndex(c, r)
			vzMust(err, "GetValByColIndex")
			if n, ok := v.(*Table); ok && nested {
				out = vzWalkExpect(n, nested, out)
			}
		}
	}
	return out
}

var vzErrStop = errors.New("stop")

type vzWalker struct {
	log    []vzEv
	failAt int
	nested bool
}

func (w *vzWalker) visit(e vzEv) error {
	w.log = append(w.log, e)
	if len(w.log)-1 == w.failAt {
		return vzErrStop
	}
	return nil
}
func (w *vzWalker) set(s *TableSet) error { return w.visit(vzEv{kind: "set", s: s}) }
func (w *vzWalker) table(t *Table) error  { return w.visit(vzEv{kind: "table", t: t}) }
func (w *vzWalker) row(r Row) error       { return w.visit(vzEv{kind: "row", t: r.Table, row: r.RowIndex}) }
func (w *vzWalker) cell(nested bool, c CellInfo) error {
	vzAssert(nested == w.nested, "the cell callback is told whether nested tables are walked")
	n, err := c.Table.ColName(c.ColIndex)
	vzMust(err, "ColName of a visited cell")
	ty, err := c.Table.ColTypeByColIndex(c.ColIndex)
	vzMust(err, "ColTypeByColIndex of a visited cell")
	vzAssert(c.ColName == n && c.ColType == ty, "a visited cell has its column's name and type")
	return w.visit(vzEv{kind: "cell", t: c.Table, row: c.RowIndex, col: c.ColIndex})
}

func vzEvSame(a, b []vzEv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// vzC30table: a table with rows; its nested cells hold tables, empty tables or NilTables, to the given depth.
func vzC30table(name string, depth int) *Table {
	t, err := NewTableFromMetadata(name, []string{"i", "n", "s"}, []string{"int", "*Table", "string"})
	vzMust(err, "NewTableFromMetadata")
	rows := vzRange(name+".rows", 0, 2)
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		k := 0
		if r == 0 || depth > 1 {
			k = vzRange(name+".nest", 0, 2)
		}
		switch {
		case k == 1:
			n, err := NewTable("Empty")
			vzMust(err, "NewTable")
			vzMust(t.SetTable("n", r, n), "SetTable")
		case k == 2 && depth > 0:
			vzMust(t.SetTable("n", r, vzC30table(name+"N", depth-1)), "SetTable")
		}
	}
	return t
}

func vzC30_tableWalk() {
	t := vzC30table("T", 1)
	nested := vzBool("nested")
	use := vzRange("callbacks", 0, 3)
	exp := vzWalkExpect(t, nested, nil)
	w := &vzWalker{failAt: vzRange("failAt", -1, 5+4*vzTier()), nested: nested}
	ft, fr, fc := w.table, w.row, w.cell
	drop := ""
	switch use {
	case 1:
		ft, drop = nil, "table"
	case 2:
		fr, drop = nil, "row"
	case 3:
		fc, drop = nil, "cell"
	}
	var want []vzEv
	for _, e := range exp {
		if e.kind != drop {
			want = append(want, e)
		}
	}
	before := vzSnap(t)
	err := t.Walk(nested, WalkSafe{}, ft, fr, fc)
	vzAssert(vzSnapSame(vzSnap(t), before), "walking changes nothing")
	if w.failAt >= 0 && w.failAt < len(want) {
		vzAssert(err == vzErrStop || errors.Is(err, vzErrStop), "the first error of a callback is returned")
		vzAssert(vzEvSame(w.log, want[:w.failAt+1]), "the first error of a callback stops the walk")
		vzReach("stopped")
		return
	}
	vzMust(err, "Walk without callback errors")
	vzAssert(vzEvSame(w.log, want), "each table, row and cell is visited exactly once, in order")
	vzReach("end")
}

func vzC30_setWalk() {
	s, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	exp := []vzEv{{kind: "set", s: s}}
	nested := vzBool("nested")
	n := vzRange("tables", 0, 2)
	for i := 0; i < n; i++ {
		t := vzC30table([]string{"A", "B"}[i], vzTier()*(1-i))
		vzMust(s.AppendTable(t), "AppendTable")
		exp = vzWalkExpect(t, nested, exp)
	}
	w := &vzWalker{failAt: vzRange("failAt", -1, 4+8*vzTier()), nested: nested}
	err = s.Walk(nested, w.set, w.table, w.row, w.cell)
	if w.failAt >= 0 && w.failAt < len(exp) {
		vzAssert(err == vzErrStop || errors.Is(err, vzErrStop), "the first error of a callback is returned")
		vzAssert(vzEvSame(w.log, exp[:w.failAt+1]), "the first error of a callback stops the walk")
		return
	}
	vzMust(err, "Walk without callback errors")
	vzAssert(vzEvSame(w.log, exp), "each table, row and cell of the set is visited exactly once, in order")
	vzMust(s.Walk(nested, nil, nil, nil, nil), "Walk without callbacks")
	vzReach("end")
}

// up to twelve rows and none to four columns, with a nested table in any row; a callback fails at any of its calls
func vzC30_wide() {
	rows := []int{1, 3, 4, 12}[vzRange("rows", 0, 3)]
	cols := vzRange("cols", 0, 4)
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	for c := 0; c < cols; c++ {
		vzMust(t.AppendCol([]string{"n", "i", "m", "s"}[c], []string{"*Table", "int", "*Table", "string"}[c]), "AppendCol")
	}
	vzMust(t.AppendRows(rows), "AppendRows")
	if cols > 0 {
		in, err := NewTableFromMetadata("In", []string{"i"}, []string{"int"})
		vzMust(err, "NewTableFromMetadata")
		vzMust(in.AppendRow(), "AppendRow")
		col := 0
		if cols > 2 && vzBool("second") {
			col = 2
		}
		vzMust(t.SetTableByColIndex(col, vzRange("at", 0, rows-1), in), "SetTableByColIndex")
	}
	nested := vzBool("nested")
	want := vzWalkExpect(t, nested, nil)
	fail := vzInt("failAt")
	vzAssume(vzAnd(fail >= -1, fail < len(want)))
	w := &vzWalker{failAt: fail, nested: nested}
	err = t.Walk(nested, WalkSafe{}, w.table, w.row, w.cell)
	if fail >= 0 {
		vzAssert(err == vzErrStop || errors.Is(err, vzErrStop), "the first error of a callback is returned")
		vzAssert(len(w.log) == fail+1 && vzEvSame(w.log, want[:len(w.log)]), "the first error of a callback stops the walk")
		vzReach("stopped")
		return
	}
	vzMust(err, "Walk without callback errors")
	vzAssert(vzEvSame(w.log, want), "each table, row and cell is visited exactly once, in order")
	vzReach("end")
}

// nested to three levels; the same walk twice
func vzC30_deep() {
	leaf := vzC30table("L", 0)
	mid, err := NewTableFromMetadata("M", []string{"n", "m"}, []string{"*Table", "*Table"})
	vzMust(err, "NewTableFromMetadata")
	vzMust(mid.AppendRow(), "AppendRow")
	vzMust(mid.SetTable([]string{"n", "m"}[vzRange("at", 0, 1)], 0, leaf), "SetTable")
	t, err := NewTableFromMetadata("T", []string{"n", "m"}, []string{"*Table", "*Table"})
	vzMust(err, "NewTableFromMetadata")
	vzMust(t.AppendRows(2), "AppendRows")
	vzMust(t.SetTable([]string{"n", "m"}[vzRange("at2", 0, 1)], vzRange("row", 0, 1), mid), "SetTable")
	for k := 0; k < 2; k++ {
		nested := vzBool("nested")
		w := &vzWalker{failAt: -1, nested: nested}
		vzMust(t.Walk(nested, WalkSafe{}, w.table, w.row, w.cell), "Walk")
		vzAssert(vzEvSame(w.log, vzWalkExpect(t, nested, nil)), "nested tables of any depth are visited in order when asked")
	}
	valid, err := t.IsValidTableNesting()
	vzAssert(valid && err == nil, "nesting without a cycle is valid")
	vzReach("end")
}

// cell information at every position
func vzC30_cellInfo() {
	t := vzBuild("T", []string{"a", "s", "f"}, []string{"int", "string", "float64"}, 2, 1)
	ci, ri := vzInt("ci"), vzInt("ri")
	info, err := t.GetCellInfoByColIndex(ci, ri)
	in := vzAnd(vzAnd(0 <= ci, ci < 3), vzAnd(0 <= ri, ri < 2))
	vzAssert((err == nil) == in, "cell information exactly of the table's cells")
	if !in {
		return
	}
	names, types := []string{"a", "s", "f"}, []string{"int", "string", "float64"}
	vzAssert(info.Table == t && info.ColIndex == ci && info.RowIndex == ri && info.ColName == names[ci] && info.ColType == types[ci], "cell information names the cell")
	byName, err := t.GetCellInfo(names[ci], ri)
	vzAssert(err == nil && byName == info, "the same information by name and by index")
	_, err = t.GetCellInfo("zz", ri)
	vzAssert(err != nil, "unknown column refused")
	row, err := t.RowByRowIndex(ri)
	vzAssert(err == nil && row.Table == t && row.RowIndex == ri, "row information names the row")
	vzReach("end")
}
