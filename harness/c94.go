//go:build go1.21

package gotables

import (
	"fmt"
	"strings"
)

// A NilTable is an empty placeholder: nothing but a name makes it a table, and no two placeholders are one.

// vzC94nil: t is a NilTable with nothing in it.
func vzC94nil(t *Table, where string) {
	is, err := t.IsNilTable()
	vzMust(err, "IsNilTable")
	vzAssert(is, where+": still a NilTable")
	vzAssert(t.Name() == "", where+": a NilTable has no name")
	vzAssert(t.ColCount() == 0 && t.RowCount() == 0, where+": a NilTable has no columns and no rows")
	names, _ := vzKeys(t)
	vzAssert(len(names) == 0, where+": a NilTable has no sort keys")
	ok, err := t.IsValidTable()
	vzAssert(!ok && err != nil, where+": a NilTable is not a valid table")
}

// vzC94name names a NilTable, which makes it an empty table like a new one, and fills it.
func vzC94name(t *Table, name string) {
	vzMust(t.SetName(name), "SetName")
	vzC94plain(t, name)
	vzMust(t.AppendCol("x", "int"), "AppendCol")
	vzMust(t.AppendRow(), "AppendRow")
	v := vzInt("fill")
	vzMust(t.SetInt("x", 0, v), "SetInt")
	got, err := t.GetInt("x", 0)
	vzMust(err, "GetInt")
	vzAssert(got == v, "a named NilTable holds what is put in it")
	vzInv(t, "named NilTable")
}

// vzC94plain: t is like a new table called name.
func vzC94plain(t *Table, name string) {
	is, err := t.IsNilTable()
	vzMust(err, "IsNilTable")
	vzAssert(!is, "a named table is no NilTable")
	ok, err := t.IsValidTable()
	vzAssert(ok && err == nil, "a named NilTable is a valid table")
	n, err := NewTable(name)
	vzMust(err, "NewTable")
	eq, err := t.Equals(n)
	vzAssert(eq && err == nil, "a named NilTable equals a new table of that name")
	shape, err := t.IsStructShape()
	vzMust(err, "IsStructShape")
	if !shape {
		vzAssert(t.String() == n.String(), "a named NilTable reads like a new table of that name")
	}
}

// what the menu of operations on any table does not have: what needs a table with something in it must fail
var vzC94bad = []struct {
	name string
	f    func(t *Table) error
}{
	{"AppendRows", func(t *Table) error { return t.AppendRows(vzRange("n", 0, 2)) }},
	{"AppendRow", func(t *Table) error { return t.AppendRow() }},
	{"AppendCol", func(t *Table) error { return t.AppendCol(vzStr("col", 1), "int") }},
	{"AppendColsFromTable", func(t *Table) error { return t.AppendColsFromTable(vzOpOther(vzRange("other", 0, 4))) }},
	{"AppendRowsFromTable", func(t *Table) error { return t.AppendRowsFromTable(vzOpOther(vzRange("other", 0, 4)), 0, 0) }},
	{"AppendRowsFromTable of it", func(t *Table) error { return vzOpOther(0).AppendRowsFromTable(t, 0, 0) }},
	{"GetVal", func(t *Table) error { _, err := t.GetVal("a", vzInt("ri")); return err }},
	{"GetValByColIndex", func(t *Table) error { _, err := t.GetValByColIndex(vzInt("ci"), vzInt("ri")); return err }},
	{"GetValAsString", func(t *Table) error { _, err := t.GetValAsString("a", vzInt("ri")); return err }},
	{"GetValAsStringByColIndex", func(t *Table) error { _, err := t.GetValAsStringByColIndex(vzInt("ci"), vzInt("ri")); return err }},
	{"SetVal", func(t *Table) error { return t.SetVal("a", vzInt("ri"), vzOpVal("v")) }},
	{"SetValByColIndex", func(t *Table) error { return t.SetValByColIndex(vzInt("ci"), vzInt("ri"), vzOpVal("v")) }},
	{"SetBool", func(t *Table) error { return t.SetBool("a", vzInt("ri"), true) }},
	{"SetBoolByColIndex", func(t *Table) error { return t.SetBoolByColIndex(vzInt("ci"), vzInt("ri"), true) }},
	{"GetBool", func(t *Table) error { _, err := t.GetBool("a", vzInt("ri")); return err }},
	{"GetBoolByColIndex", func(t *Table) error { _, err := t.GetBoolByColIndex(vzInt("ci"), vzInt("ri")); return err }},
	{"ColIndex", func(t *Table) error { _, err := t.ColIndex(vzStr("col", 1)); return err }},
	{"ColName", func(t *Table) error { _, err := t.ColName(vzInt("ci")); return err }},
	{"ColType", func(t *Table) error { _, err := t.ColType(vzStr("col", 1)); return err }},
	{"ColTypeByColIndex", func(t *Table) error { _, err := t.ColTypeByColIndex(vzInt("ci")); return err }},
	{"GetColInfoAsTable", func(t *Table) error { _, err := t.GetColInfoAsTable(); return err }},
	{"GetColInfoAsSlices", func(t *Table) error { _, _, err := t.GetColInfoAsSlices(); return err }},
	{"HasCol", func(t *Table) error { has, err := t.HasCol(vzStr("col", 1)); vzAssert(!has, "a NilTable has no column"); return err }},
	{"HasRow", func(t *Table) error { has, err := t.HasRow(vzInt("ri")); vzAssert(!has, "a NilTable has no row"); return err }},
	{"HasCell", func(t *Table) error {
		has, err := t.HasCell(vzStr("col", 1), vzInt("ri"))
		vzAssert(!has, "a NilTable has no cell")
		return err
	}},
	{"JoinColVals", func(t *Table) error { _, err := t.JoinColVals("a", ","); return err }},
	{"JoinColValsByColIndex", func(t *Table) error { _, err := t.JoinColValsByColIndex(vzInt("ci"), ","); return err }},
	{"RowByRowIndex", func(t *Table) error { _, err := t.RowByRowIndex(vzInt("ri")); return err }},
	{"DeleteRow", func(t *Table) error { return t.DeleteRow(vzInt("ri")) }},
	{"DeleteRows", func(t *Table) error { return t.DeleteRows(vzInt("ri"), vzInt("rj")) }},
	{"DeleteCol", func(t *Table) error { return t.DeleteCol(vzStr("col", 1)) }},
	{"RenameCol", func(t *Table) error { return t.RenameCol(vzStr("col", 1), "n") }},
	{"AppendSortKey", func(t *Table) error { return t.AppendSortKey(vzStr("col", 1)) }},
	{"NewTableFromRows", func(t *Table) error { _, err := t.NewTableFromRows("N", vzInt("ri"), vzInt("rj")); return err }},
	{"SetCellToZeroValue", func(t *Table) error { return t.SetCellToZeroValue("a", vzInt("ri")) }},
	{"SetRowCellsToZeroValue", func(t *Table) error { return t.SetRowCellsToZeroValue(vzInt("ri")) }},
	{"SetRowFloatCellsToNaN", func(t *Table) error { return t.SetRowFloatCellsToNaN(vzInt("ri")) }},
	{"Merge", func(t *Table) error { _, err := t.Merge(vzOpOther(vzRange("other", 0, 3))); return err }},
	{"SortUnique", func(t *Table) error { _, err := t.SortUnique(); return err }},
	{"Nest", func(t *Table) error { return t.Nest(vzOpOther(0), "n") }},
	{"SetSortKeys", func(t *Table) error { return t.SetSortKeys(vzStr("col", 1)) }},
	{"SetName", func(t *Table) error { return t.SetName([]string{"", "int", "9x", "a b", "*", "é"}[vzRange("name", 0, 5)]) }},
	{"RenameTable", func(t *Table) error { return t.RenameTable([]string{"", "int", "9x", "a b", "*", "é"}[vzRange("name", 0, 5)]) }},
}

// and what only looks
var vzC94look = []func(t *Table){
	func(t *Table) { vzAssert(t.String() == t.String(), "the same text twice") },
	func(t *Table) { s, err := NewTableSet(""); vzMust(err, "NewTableSet"); _ = s.AppendTable(t); _ = s.String() },
	func(t *Table) { _ = t.StringPadded() },
	func(t *Table) { _ = t.StringUnpadded() },
	func(t *Table) { _ = t.StringNested() },
	func(t *Table) { _, _ = t.GetTableAsJSON() },
	func(t *Table) { _, _ = t.GetTableAsCSV() },
	func(t *Table) { _, _ = t.GobEncode() },
	func(t *Table) { _, _ = t.IsValidTableNesting() },
	func(t *Table) { _, _ = t.HasCircularReference() },
	func(t *Table) { _ = t.ShuffleRandom() },
	func(t *Table) { _ = t.ShufflePseudorandom() },
	func(t *Table) { _ = t.SetAllFloatCellsToNaN() },
	func(t *Table) { _ = t.Walk(true, WalkSafe{}, nil, nil, nil) },
	func(t *Table) { _, _ = t.Copy() },
	func(t *Table) { _, _ = t.CopyDeep() },
	func(t *Table) { _, _ = t.CopyCols() },
	func(t *Table) { _ = t.SetColFloatCellsToNaN("a") },
	func(t *Table) { _, _ = t.GetSortKeysAsTable() },
	func(t *Table) { eq, _ := t.Equals(vzOpOther(vzRange("other", 0, 4))); vzAssert(!eq, "a NilTable equals no named table") },
	func(t *Table) { eq, _ := vzOpOther(vzRange("other", 0, 3)).Equals(t); vzAssert(!eq, "no named table equals a NilTable") },
	func(t *Table) { eq, err := t.Equals(NewNilTable()); vzAssert(eq && err == nil, "NilTables are equal") },
}

// vzC94_stays: no operation but naming makes anything of a NilTable.
func vzC94_stays() {
	t := NewNilTable()
	vzC94nil(t, "new")
	bad := len(vzC94bad)
	for i, n := 0, vzRange("ops", 1, 1+vzTier()); i < n; i++ {
		k := vzRange("op", 0, bad+len(vzC94look)-1)
		if k < bad {
			p := vzTry(func() {
				vzAssert(vzC94bad[k].f(t) != nil, vzC94bad[k].name+" of a NilTable is refused")
			})
			vzAssert(!p, vzC94bad[k].name+" of a NilTable does not panic")
		} else {
			p := vzTry(func() { vzC94look[k-bad](t) })
			vzAssert(!p, "looking at a NilTable does not panic")
		}
		vzC94nil(t, "after an operation")
	}
	vzC94name(t, "N")
	vzReach("end")
}

// vzC94_menu: the same for any operation of the menu; it may rename.
func vzC94_menu() {
	t := NewNilTable()
	for i := 0; i < 1+vzTier(); i++ {
		op := vzOpDraw(vzRange("op", 0, vzOpsN-1))
		var err error
		p := vzTry(func() { err = op(t) })
		vzAssert(!p, "an operation on a NilTable does not panic")
		if t.Name() == "" {
			vzC94nil(t, "after an operation")
		} else {
			vzAssert(t.Name() == "N" && err == nil, "a NilTable is named by naming it")
			if i == 0 {
				vzC94plain(t, "N")
			}
			return
		}
	}
	vzReach("end")
}

// vzC94_name: any valid name, and only a valid name, makes a NilTable a table; names do not spread.
func vzC94_name() {
	t, other := NewNilTable(), NewNilTable()
	name := vzStr("name", vzRange("len", 0, 2))
	ok, _ := IsValidTableName(name)
	var err error
	if vzRange("how", 0, 1) == 0 {
		err = t.SetName(name)
	} else {
		err = t.RenameTable(name)
	}
	vzAssert((err == nil) == ok, "a NilTable takes valid names only")
	if ok {
		vzAssert(t.Name() == name, "the NilTable has the name given")
		vzC94plain(t, name)
	} else {
		vzC94nil(t, "after a refused name")
	}
	vzC94nil(other, "another NilTable")
	vzReach("end")
}

// ways for cells of a *Table column to come to hold nothing
func vzC94cells(how int, cols []string) *Table {
	var types []string
	for _, c := range cols {
		types = append(types, map[string]string{"n": "*Table", "m": "*Table", "v": "int8"}[c])
	}
	last := 0
	for cols[last] != "m" {
		last++
	}
	t := vzBuild("T", cols, types, 0, 1)
	switch how {
	case 0:
		vzMust(t.AppendRows(2), "AppendRows")
	case 1:
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.AppendRow(), "AppendRow")
	case 2: // columns after rows
		t = vzBuild("T", []string{"v"}, []string{"int8"}, 2, 1)
		vzMust(t.AppendCol("n", "*Table"), "AppendCol")
		vzMust(t.AppendCol("m", "*Table"), "AppendCol")
		vzMust(t.ReorderCols(cols...), "ReorderCols")
	case 3: // emptied cell by cell
		vzMust(t.AppendRows(2), "AppendRows")
		vzC94full(t)
		for r := 0; r < 2; r++ {
			vzMust(t.SetCellToZeroValue("n", r), "SetCellToZeroValue")
			vzMust(t.SetCellToZeroValueByColIndex(last, r), "SetCellToZeroValueByColIndex")
		}
	case 4:
		vzMust(t.AppendRows(2), "AppendRows")
		vzC94full(t)
		vzMust(t.SetColCellsToZeroValue("n"), "SetColCellsToZeroValue")
		vzMust(t.SetColCellsToZeroValueByColIndex(last), "SetColCellsToZeroValueByColIndex")
	case 5:
		vzMust(t.AppendRows(2), "AppendRows")
		vzC94full(t)
		vzMust(t.SetRowCellsToZeroValue(0), "SetRowCellsToZeroValue")
		vzMust(t.SetRowCellsToZeroValue(1), "SetRowCellsToZeroValue")
	case 6:
		var err error
		t, err = vzC94cells(0, cols).Copy()
		vzMust(err, "Copy")
	case 7:
		var err error
		t, err = vzC94cells(0, cols).CopyDeep()
		vzMust(err, "CopyDeep")
	case 8: // from another table's columns
		o := vzC94cells(0, cols)
		t = vzBuild("T", []string{"v"}, []string{"int8"}, 2, 1)
		vzMust(t.AppendColsFromTable(o), "AppendColsFromTable")
		vzMust(t.ReorderCols(cols...), "ReorderCols")
	case 9: // rows of a table that lacks the columns
		o := vzBuild("O", []string{"v"}, []string{"int8"}, 2, 1)
		vzMust(t.AppendRowsFromTable(o, 0, 1), "AppendRowsFromTable")
	case 10: // rows of a table that has them
		vzMust(t.AppendRowsFromTable(vzC94cells(0, cols), 0, 1), "AppendRowsFromTable")
	case 11:
		var err error
		t, err = vzC94cells(0, cols).NewTableFromRows("T", 0, 1)
		vzMust(err, "NewTableFromRows")
	case 12: // struct shape, and read from text
		row := map[string]string{"n": "[]", "m": "[]", "v": "1"}
		line := row[cols[0]] + " " + row[cols[1]] + " " + row[cols[2]] + "\n"
		var err error
		t, err = NewTableFromString("[T]\n" + strings.Join(cols, " ") + "\n" + strings.Join(types, " ") + "\n" + line + line)
		vzMust(err, "NewTableFromString")
	case 13: // given
		vzMust(t.AppendRows(2), "AppendRows")
		for r := 0; r < 2; r++ {
			vzMust(t.SetTable("n", r, NewNilTable()), "SetTable")
			vzMust(t.SetTableByColIndex(last, r, NewNilTable()), "SetTableByColIndex")
		}
	case 14:
		var err error
		t, err = NewTableFromStringByTableName(vzC94cells(0, cols).String(), "T")
		vzMust(err, "NewTableFromStringByTableName")
	case 15:
		var err error
		t, err = vzC94cells(0, cols).NewTableReorderCols(cols...)
		vzMust(err, "NewTableReorderCols")
		vzMust(t.SetName("T"), "SetName")
	case 16: // renamed column, reversed rows, sorted
		vzMust(t.RenameCol("m", "k"), "RenameCol")
		vzMust(t.AppendRows(2), "AppendRows")
		vzMust(t.RenameCol("k", "m"), "RenameCol")
		vzMust(t.Reverse(), "Reverse")
		vzMust(t.Sort("v"), "Sort")
	case 17: // merged with a table that lacks the columns
		a, b := vzBuild("A", []string{"v"}, []string{"int8"}, 2, 1), vzBuild("B", cols, types, 0, 1)
		for r := 0; r < 2; r++ {
			vzMust(a.SetInt8("v", r, int8(r)), "SetInt8")
		}
		vzMust(a.SetSortKeys("v"), "SetSortKeys")
		vzMust(b.SetSortKeys("v"), "SetSortKeys")
		var err error
		if vzRange("side", 0, 1) == 1 {
			a, b = b, a
		}
		t, err = a.Merge(b)
		vzMust(err, "Merge")
	case 18:
		a := vzC94cells(0, cols)
		vzMust(a.SetInt8("v", 1, 1), "SetInt8")
		vzMust(a.SetSortKeys("v"), "SetSortKeys")
		var err error
		t, err = a.SortUnique()
		vzMust(err, "SortUnique")
	default:
		s, err := NewTableSet("S")
		vzMust(err, "NewTableSet")
		vzMust(s.AppendTable(vzC94cells(0, cols)), "AppendTable")
		s, err = s.Copy()
		vzMust(err, "TableSet.Copy")
		t, err = s.GetTable("T")
		vzMust(err, "GetTable")
	}
	return t
}

func vzC94full(t *Table) {
	for r := 0; r < t.RowCount(); r++ {
		for _, c := range []string{"n", "m"} {
			vzMust(t.SetTable(c, r, vzBuild(fmt.Sprintf("%s%d", c, r), []string{"x"}, []string{"bool"}, 1, 1)), "SetTable")
		}
	}
}

// vzC94_cells: every empty cell of a *Table column is a NilTable of its own.
func vzC94_cells() {
	layout := [][]string{{"n", "v", "m"}, {"v", "n", "m"}, {"m", "n", "v"}}[vzRange("layout", 0, 2)]
	t := vzC94cells(vzRange("how", 0, 19), layout)
	vzAssert(t.RowCount() == 2, "two rows")
	vzInv(t, "table with empty *Table cells")
	var cells []*Table
	for _, c := range []string{"n", "m"} {
		for r := 0; r < 2; r++ {
			n, err := t.GetTable(c, r)
			vzMust(err, "GetTable")
			vzC94nil(n, "an empty *Table cell")
			cells = append(cells, n)
		}
	}
	k := vzRange("cell", 0, 3)
	vzC94name(cells[k], "N")
	for i := range cells {
		n, err := t.GetTable([]string{"n", "m"}[i/2], i%2)
		vzMust(err, "GetTable")
		if i == k {
			vzAssert(n.Name() == "N" && n.RowCount() == 1, "the cell holds the table that was named")
		} else {
			vzC94nil(n, "another cell")
		}
	}
	vzInv(t, "table with a named cell")
	vzReach("end")
}

// vzC94_wide: the same with many cells.
func vzC94_wide() {
	cols, rows := vzRange("cols", 2, 9), vzRange("rows", 1, 3)
	var names, types []string
	for c := 0; c < cols; c++ {
		names, types = append(names, "c"+vzDec(c)), append(types, "*Table")
	}
	t, err := NewTableFromMetadata("T", names, types)
	vzMust(err, "NewTableFromMetadata")
	how := vzRange("how", 0, 3)
	switch how {
	case 0:
		vzMust(t.AppendRows(rows), "AppendRows")
	case 1:
		for r := 0; r < rows; r++ {
			vzMust(t.AppendRow(), "AppendRow")
		}
	case 2:
		t, err = NewTableFromString("[T]\n" + strings.Join(names, " ") + "\n" + strings.Join(types, " ") + "\n" + strings.Repeat(strings.Repeat("[] ", cols)+"\n", rows))
		vzMust(err, "NewTableFromString")
	case 3:
		o := t
		t, err = NewTable("T")
		vzMust(err, "NewTable")
		vzMust(t.AppendRows(rows), "AppendRows")
		vzMust(t.AppendColsFromTable(o), "AppendColsFromTable")
	}
	col, row := vzRange("col", 0, cols-1), vzRange("row", 0, rows-1)
	n, err := t.GetTableByColIndex(col, row)
	vzMust(err, "GetTableByColIndex")
	vzC94name(n, "N")
	for c := 0; c < cols; c++ {
		for r := 0; r < rows; r++ {
			n, err := t.GetTableByColIndex(c, r)
			vzMust(err, "GetTableByColIndex")
			if c == col && r == row {
				vzAssert(n.Name() == "N" && n.RowCount() == 1, "the cell holds the table that was named")
			} else {
				vzC94nil(n, "another cell")
			}
		}
	}
	vzReach("end")
}
