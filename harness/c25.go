//go:build go1.21

package gotables

// Bad receivers and out-of-range arguments give errors, not panics.

type vzC25f struct {
	name string
	f    func(t *Table, ci, ri int, n string) error
}

// needs: which argument decides: "c" column index, "n" column name, "r" row, "" none
type vzC25m struct {
	name  string
	needs string
	f     func(t *Table, ci, ri int, n string) error
}

func vzE1(_ interface{}, err error) error { return err }

var vzC25methods = []vzC25m{
	{"AppendCol", "", func(t *Table, ci, ri int, n string) error { return t.AppendCol("new", "int") }},
	{"AppendRow", "", func(t *Table, ci, ri int, n string) error { return t.AppendRow() }},
	{"AppendRows", "", func(t *Table, ci, ri int, n string) error { return t.AppendRows(1) }},
	{"AppendColsFromTable", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); return t.AppendColsFromTable(o) }},
	{"AppendRowsFromTable", "", func(t *Table, ci, ri int, n string) error {
		o, _ := NewTable("O")
		return t.AppendRowsFromTable(o, 0, -1)
	}},
	{"AppendSortKey", "n", func(t *Table, ci, ri int, n string) error { return t.AppendSortKey(n) }},
	{"ColIndex", "n", func(t *Table, ci, ri int, n string) error { _, err := t.ColIndex(n); return err }},
	{"ColName", "c", func(t *Table, ci, ri int, n string) error { _, err := t.ColName(ci); return err }},
	{"ColNameByColIndex", "c", func(t *Table, ci, ri int, n string) error { _, err := t.ColNameByColIndex(ci); return err }},
	{"ColType", "n", func(t *Table, ci, ri int, n string) error { _, err := t.ColType(n); return err }},
	{"ColTypeByColIndex", "c", func(t *Table, ci, ri int, n string) error { _, err := t.ColTypeByColIndex(ci); return err }},
	{"Copy", "", func(t *Table, ci, ri int, n string) error { _, err := t.Copy(); return err }},
	{"CopyCols", "", func(t *Table, ci, ri int, n string) error { _, err := t.CopyCols(); return err }},
	{"CopyDeep", "", func(t *Table, ci, ri int, n string) error { _, err := t.CopyDeep(); return err }},
	{"DeleteCol", "n", func(t *Table, ci, ri int, n string) error { return t.DeleteCol(n) }},
	{"DeleteColByColIndex", "c", func(t *Table, ci, ri int, n string) error { return t.DeleteColByColIndex(ci) }},
	{"DeleteRow", "r", func(t *Table, ci, ri int, n string) error { return t.DeleteRow(ri) }},
	{"DeleteRows", "r", func(t *Table, ci, ri int, n string) error { return t.DeleteRows(ri, ri) }},
	{"DeleteRowsAll", "", func(t *Table, ci, ri int, n string) error { return t.DeleteRowsAll() }},
	{"DeleteSortKey", "x", func(t *Table, ci, ri int, n string) error { return t.DeleteSortKey("zz") }},
	{"Equals", "", func(t *Table, ci, ri int, n string) error { _, err := t.Equals(t); return err }},
	{"GetCellInfo", "nr", func(t *Table, ci, ri int, n string) error { _, err := t.GetCellInfo(n, ri); return err }},
	{"GetCellInfoByColIndex", "cr", func(t *Table, ci, ri int, n string) error { _, err := t.GetCellInfoByColIndex(ci, ri); return err }},
	{"GetColInfoAsSlices", "", func(t *Table, ci, ri int, n string) error { _, _, err := t.GetColInfoAsSlices(); return err }},
	{"GetColInfoAsTable", "", func(t *Table, ci, ri int, n string) error { _, err := t.GetColInfoAsTable(); return err }},
	{"GetColValsAsStrings", "n", func(t *Table, ci, ri int, n string) error { _, err := t.GetColValsAsStrings(n); return err }},
	{"GetSortKeysAsTable", "", func(t *Table, ci, ri int, n string) error { _, err := t.GetSortKeysAsTable(); return err }},
	{"GetTableAsCSV", "", func(t *Table, ci, ri int, n string) error { _, err := t.GetTableAsCSV(); return err }},
	{"GetVal", "nr", func(t *Table, ci, ri int, n string) error { _, err := t.GetVal(n, ri); return err }},
	{"GetValByColIndex", "cr", func(t *Table, ci, ri int, n string) error { _, err := t.GetValByColIndex(ci, ri); return err }},
	{"GetValAsString", "nr", func(t *Table, ci, ri int, n string) error { _, err := t.GetValAsString(n, ri); return err }},
	{"GetValAsStringByColIndex", "cr", func(t *Table, ci, ri int, n string) error { _, err := t.GetValAsStringByColIndex(ci, ri); return err }},
	{"HasCell", "nr", func(t *Table, ci, ri int, n string) error { _, err := t.HasCell(n, ri); return err }},
	{"HasCellByColIndex", "cr", func(t *Table, ci, ri int, n string) error { _, err := t.HasCellByColIndex(ci, ri); return err }},
	{"HasCol", "n", func(t *Table, ci, ri int, n string) error { _, err := t.HasCol(n); return err }},
	{"HasColByColIndex", "c", func(t *Table, ci, ri int, n string) error { _, err := t.HasColByColIndex(ci); return err }},
	{"HasCircularReference", "", func(t *Table, ci, ri int, n string) error { _, err := t.HasCircularReference(); return err }},
	{"HasRow", "r", func(t *Table, ci, ri int, n string) error { _, err := t.HasRow(ri); return err }},
	{"IsColType", "n", func(t *Table, ci, ri int, n string) error { _, err := t.IsColType(n, "int"); return err }},
	{"IsColTypeByColIndex", "c", func(t *Table, ci, ri int, n string) error { _, err := t.IsColTypeByColIndex(ci, "int"); return err }},
	{"IsSortKey", "n", func(t *Table, ci, ri int, n string) error { _, err := t.IsSortKey(n); return err }},
	{"IsStructShape", "", func(t *Table, ci, ri int, n string) error { _, err := t.IsStructShape(); return err }},
	{"IsTableCol", "n", func(t *Table, ci, ri int, n string) error { _, err := t.IsTableCol(n); return err }},
	{"IsTableColByColIndex", "c", func(t *Table, ci, ri int, n string) error { _, err := t.IsTableColByColIndex(ci); return err }},
	{"IsValidCellValue", "n", func(t *Table, ci, ri int, n string) error {
		v, err := t.GetVal(n, 0)
		if err != nil {
			v = 0
		}
		_, err = t.IsValidCellValue(n, v)
		return err
	}},
	{"IsValidColValue", "n", func(t *Table, ci, ri int, n string) error {
		v, err := t.GetVal(n, 0)
		if err != nil {
			v = 0
		}
		_, err = t.IsValidColValue(n, v)
		return err
	}},
	{"IsValidRow", "r", func(t *Table, ci, ri int, n string) error { _, err := t.IsValidRow(ri); return err }},
	{"IsValidTable", "", func(t *Table, ci, ri int, n string) error { _, err := t.IsValidTable(); return err }},
	{"IsValidTableNesting", "", func(t *Table, ci, ri int, n string) error { _, err := t.IsValidTableNesting(); return err }},
	{"JoinColVals", "n", func(t *Table, ci, ri int, n string) error { _, err := t.JoinColVals(n, ","); return err }},
	{"JoinColValsByColIndex", "c", func(t *Table, ci, ri int, n string) error { _, err := t.JoinColValsByColIndex(ci, ","); return err }},
	{"NewTableFromRows", "r", func(t *Table, ci, ri int, n string) error { _, err := t.NewTableFromRows("N", ri, ri); return err }},
	{"NewTableReorderCols", "n", func(t *Table, ci, ri int, n string) error {
		_, err := t.NewTableReorderCols(vzC25others(t, n)...)
		return err
	}},
	{"NewTableReorderColsByColIndex", "c", func(t *Table, ci, ri int, n string) error {
		_, err := t.NewTableReorderColsByColIndex(ci, vzC25o(ci, 0), vzC25o(ci, 1))
		return err
	}},
	{"ReorderCols", "n", func(t *Table, ci, ri int, n string) error { return t.ReorderCols(vzC25others(t, n)...) }},
	{"ReorderColsByColIndex", "c", func(t *Table, ci, ri int, n string) error {
		return t.ReorderColsByColIndex(ci, vzC25o(ci, 0), vzC25o(ci, 1))
	}},
	{"OrderColsBySortKeys", "", func(t *Table, ci, ri int, n string) error {
		_ = t.SetSortKeys("a")
		return t.OrderColsBySortKeys()
	}},
	{"RenameCol", "n", func(t *Table, ci, ri int, n string) error { return t.RenameCol(n, "new") }},
	{"RenameColByColIndex", "c", func(t *Table, ci, ri int, n string) error { return t.RenameColByColIndex(ci, "new") }},
	{"RenameTable", "", func(t *Table, ci, ri int, n string) error { return t.RenameTable("N") }},
	{"SetName", "", func(t *Table, ci, ri int, n string) error { return t.SetName("N") }},
	{"Reverse", "", func(t *Table, ci, ri int, n string) error { return t.Reverse() }},
	{"RowByRowIndex", "r", func(t *Table, ci, ri int, n string) error { _, err := t.RowByRowIndex(ri); return err }},
	{"SetAllFloatCellsToNaN", "", func(t *Table, ci, ri int, n string) error { return t.SetAllFloatCellsToNaN() }},
	{"SetCellToZeroValue", "nr", func(t *Table, ci, ri int, n string) error { return t.SetCellToZeroValue(n, ri) }},
	{"SetCellToZeroValueByColIndex", "cr", func(t *Table, ci, ri int, n string) error { return t.SetCellToZeroValueByColIndex(ci, ri) }},
	{"SetColCellsToZeroValue", "n", func(t *Table, ci, ri int, n string) error { return t.SetColCellsToZeroValue(n) }},
	{"SetColCellsToZeroValueByColIndex", "c", func(t *Table, ci, ri int, n string) error { return t.SetColCellsToZeroValueByColIndex(ci) }},
	{"SetRowCellsToZeroValue", "r", func(t *Table, ci, ri int, n string) error { return t.SetRowCellsToZeroValue(ri) }},
	{"SetRowFloatCellsToNaN", "r", func(t *Table, ci, ri int, n string) error { return t.SetRowFloatCellsToNaN(ri) }},
	{"SetSortKeys", "n", func(t *Table, ci, ri int, n string) error { return t.SetSortKeys(n) }},
	{"SetSortKeysFromTable", "", func(t *Table, ci, ri int, n string) error {
		_ = t.SetSortKeys("s")
		return t.SetSortKeysFromTable(t)
	}},
	{"SetStructShape", "", func(t *Table, ci, ri int, n string) error { return t.SetStructShape(true) }},
	{"SetVal", "nr", func(t *Table, ci, ri int, n string) error {
		v, err := t.GetVal(n, 0)
		if err != nil {
			v = 0
		}
		return t.SetVal(n, ri, v)
	}},
	{"SetValByColIndex", "cr", func(t *Table, ci, ri int, n string) error {
		v, err := t.GetValByColIndex(ci, 0)
		if err != nil {
			v = 0
		}
		return t.SetValByColIndex(ci, ri, v)
	}},
	{"Sort", "n", func(t *Table, ci, ri int, n string) error { return t.Sort(n) }},
	{"SortSimple", "n", func(t *Table, ci, ri int, n string) error { return t.SortSimple(n) }},
	{"SortUnique", "n", func(t *Table, ci, ri int, n string) error {
		if err := t.SetSortKeys(n); err != nil {
			return err
		}
		_, err := t.SortUnique()
		return err
	}},
	{"CompareRows", "r", func(t *Table, ci, ri int, n string) error {
		if err := t.SetSortKeys("a"); err != nil {
			return err
		}
		if _, err := t.CompareRows(0, ri); err != nil {
			return err
		}
		_, err := t.CompareRows(ri, 0)
		return err
	}},
	{"SwapCols", "n", func(t *Table, ci, ri int, n string) error {
		m := "a"
		if n == "a" {
			m = "s"
		}
		return t.SwapCols(m, n)
	}},
	{"SwapColsByColIndex", "c", func(t *Table, ci, ri int, n string) error { return t.SwapColsByColIndex(vzC25o(ci, 0), ci) }},
	{"ShufflePseudorandom", "", func(t *Table, ci, ri int, n string) error { return t.ShufflePseudorandom() }},
	{"ShuffleRandom", "", func(t *Table, ci, ri int, n string) error { return t.ShuffleRandom() }},
	{"Walk", "", func(t *Table, ci, ri int, n string) error { return t.Walk(true, WalkSafe{}, nil, nil, nil) }},
	{"IsNilTable", "", func(t *Table, ci, ri int, n string) error { _, err := t.IsNilTable(); return err }},
	{"GetTableAsJSON", "", func(t *Table, ci, ri int, n string) error { _, err := t.GetTableAsJSON(); return err }},
	{"GobEncode", "g", func(t *Table, ci, ri int, n string) error { _, err := t.GobEncode(); return err }},
}

// methods that need more than a nil receiver to be called at all
var vzC25nilOnly = []vzC25m{
	{"Search", "", func(t *Table, ci, ri int, n string) error { _, err := t.Search(1); return err }},
	{"SearchFirst", "", func(t *Table, ci, ri int, n string) error { _, err := t.SearchFirst(1); return err }},
	{"SearchLast", "", func(t *Table, ci, ri int, n string) error { _, err := t.SearchLast(1); return err }},
	{"SearchRange", "", func(t *Table, ci, ri int, n string) error { _, _, err := t.SearchRange(1); return err }},
	{"NewTableFromRowsBySearchRange", "", func(t *Table, ci, ri int, n string) error {
		_, err := t.NewTableFromRowsBySearchRange("N", 1)
		return err
	}},
	{"SetSortKeysReverse", "", func(t *Table, ci, ri int, n string) error { return t.SetSortKeysReverse("a") }},
	{"Merge", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); _, err := t.Merge(o); return err }},
	{"Merge2", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); _, err := o.Merge(t); return err }},
	{"Equals2", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); _, err := o.Equals(t); return err }},
	{"SetSortKeysFromTable2", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); return o.SetSortKeysFromTable(t) }},
	{"AppendColsFromTable2", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); return o.AppendColsFromTable(t) }},
	{"AppendRowsFromTable2", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); return o.AppendRowsFromTable(t, 0, 0) }},
	{"Nest", "", func(t *Table, ci, ri int, n string) error { o, _ := NewTable("O"); return t.Nest(o, "n") }},
	{"GetTableAsJSONIndent", "", func(t *Table, ci, ri int, n string) error { _, err := t.GetTableAsJSONIndent(); return err }},
	{"WriteFile", "", func(t *Table, ci, ri int, n string) error { return t.WriteFile("", 0) }},
	{"NewTreeTable", "", func(t *Table, ci, ri int, n string) error { _, err := t.NewTreeTable(1); return err }},
	{"SetTable", "", func(t *Table, ci, ri int, n string) error {
		o := vzBuild("O", []string{"c"}, []string{"*Table"}, 1, 1)
		return o.SetTable("c", 0, t)
	}},
	{"SetTableByColIndex", "", func(t *Table, ci, ri int, n string) error {
		o := vzBuild("O", []string{"c"}, []string{"*Table"}, 1, 1)
		return o.SetTableByColIndex(0, 0, t)
	}},
	{"SetVal nil table", "", func(t *Table, ci, ri int, n string) error {
		o := vzBuild("O", []string{"c"}, []string{"*Table"}, 1, 1)
		return o.SetVal("c", 0, t)
	}},
	{"SetValByColIndex nil table", "", func(t *Table, ci, ri int, n string) error {
		o := vzBuild("O", []string{"c"}, []string{"*Table"}, 1, 1)
		return o.SetValByColIndex(0, 0, t)
	}},
	{"AppendTable nil", "", func(t *Table, ci, ri int, n string) error { s, _ := NewTableSet("S"); return s.AppendTable(t) }},
	{"GenerateTypeStruct", "", func(t *Table, ci, ri int, n string) error { _, err := t.GenerateTypeStruct(); return err }},
	{"GenerateTypeStructSliceToTable", "", func(t *Table, ci, ri int, n string) error {
		_, err := t.GenerateTypeStructSliceToTable()
		return err
	}},
	{"GenerateTypeStructSliceFromTable", "", func(t *Table, ci, ri int, n string) error {
		_, err := t.GenerateTypeStructSliceFromTable()
		return err
	}},
}

var vzC25sets = []struct {
	name string
	f    func(s *TableSet, i int, n string) error
}{
	{"AppendTable", func(s *TableSet, i int, n string) error { t, _ := NewTable("T"); return s.AppendTable(t) }},
	{"Append", func(s *TableSet, i int, n string) error { t, _ := NewTable("T"); return s.Append(t) }},
	{"Copy", func(s *TableSet, i int, n string) error { _, err := s.Copy(); return err }},
	{"DeleteTable", func(s *TableSet, i int, n string) error { return s.DeleteTable(n) }},
	{"DeleteTableByTableIndex", func(s *TableSet, i int, n string) error { return s.DeleteTableByTableIndex(i) }},
	{"Equals", func(s *TableSet, i int, n string) error { _, err := s.Equals(s); return err }},
	{"Equals2", func(s *TableSet, i int, n string) error { o, _ := NewTableSet("O"); if s != nil { o = s }; _, err := o.Equals(s); return err }},
	{"GetTable", func(s *TableSet, i int, n string) error { _, err := s.GetTable(n); return err }},
	{"GetTableByTableIndex", func(s *TableSet, i int, n string) error { _, err := s.GetTableByTableIndex(i); return err }},
	{"HasTable", func(s *TableSet, i int, n string) error { _, err := s.HasTable(n); return err }},
	{"IsValidTableSet", func(s *TableSet, i int, n string) error { _, err := s.IsValidTableSet(); return err }},
	{"RenameTable", func(s *TableSet, i int, n string) error { return s.RenameTable(n, "N") }},
	{"SetName", func(s *TableSet, i int, n string) error { return s.SetName("S") }},
	{"TableIndex", func(s *TableSet, i int, n string) error { _, err := s.TableIndex(n); return err }},
	{"Walk", func(s *TableSet, i int, n string) error { return s.Walk(true, nil, nil, nil, nil) }},
	{"GetTableSetAsJSON", func(s *TableSet, i int, n string) error { _, err := s.GetTableSetAsJSON(); return err }},
	{"GetTableSetAsJSONIndent", func(s *TableSet, i int, n string) error { _, err := s.GetTableSetAsJSONIndent(); return err }},
	{"GetTableSetAsYAML", func(s *TableSet, i int, n string) error { _, err := s.GetTableSetAsYAML(); return err }},
	{"GetTableSetAsMap", func(s *TableSet, i int, n string) error { _, err := s.GetTableSetAsMap(); return err }},
	{"GobEncode", func(s *TableSet, i int, n string) error { _, err := s.GobEncode(); return err }},
	{"WriteFile", func(s *TableSet, i int, n string) error { return s.WriteFile("", 0) }},
}

// vzC25others: all columns of t with the one called n (or the first) replaced by n.
func vzC25others(t *Table, n string) []string {
	r := []string{n}
	for i := 0; i < t.ColCount(); i++ {
		c, _ := t.ColName(i)
		if c != n && len(r) < t.ColCount() {
			r = append(r, c)
		}
	}
	return r
}

// vzC25o: the k-th of the column indices 0..2 that are not ci.
func vzC25o(ci, k int) int {
	for i := 0; i < 3; i++ {
		if i != ci {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return 2
}

var vzC25cols = []string{"a", "s", "f"}
var vzC25types = []string{"int", "string", "float64"}

// nil receivers
func vzC25_nilTable() {
	k := vzRange("method", 0, len(vzC25methods)+len(vzC25nilOnly)-1)
	var m vzC25m
	if k < len(vzC25methods) {
		m = vzC25methods[k]
	} else {
		m = vzC25nilOnly[k-len(vzC25methods)]
	}
	var err error
	p := vzTry(func() { err = m.f(nil, vzInt("ci"), vzInt("ri"), vzStr("n", 1)) })
	vzAssert(!p, m.name+" of a nil table does not panic")
	vzAssert(p || err != nil, m.name+" of a nil table is an error")
	vzReach("end")
}

func vzC25_nilSet() {
	m := vzC25sets[vzRange("method", 0, len(vzC25sets)-1)]
	var err error
	p := vzTry(func() { err = m.f(nil, vzInt("i"), vzStr("n", 1)) })
	vzAssert(!p, m.name+" of a nil table set does not panic")
	vzAssert(p || err != nil, m.name+" of a nil table set is an error")
	vzReach("end")
}

func vzC25_nilAccessors() {
	a := vzAccs[vzRange("type", 0, len(vzAccs)-1)]
	v := vzCellN(a.typ, "v", 1)
	for k := 0; k < 2; k++ {
		var err error
		p := vzTry(func() { err = a.set[k](nil, vzStr("n", 1), vzInt("ci"), vzInt("ri"), v) })
		vzAssert(!p && err != nil, "a typed setter of a nil table is an error and no panic")
		p = vzTry(func() { _, err = a.get[k](nil, vzStr("n", 1), vzInt("ci"), vzInt("ri")) })
		vzAssert(!p && err != nil, "a typed getter of a nil table is an error and no panic")
	}
	vzReach("end")
}

// out-of-range and unknown arguments of every method, on tables with and without rows
func vzC25args(lo, hi int) {
	rows := vzRange("rows", 0, 2)
	m := vzC25methods[vzRange("method", lo, hi)]
	if m.name == "ShuffleRandom" || m.name == "ShufflePseudorandom" {
		vzFlag("rand", 1)
	}
	t := vzBuild("T", vzC25cols, vzC25types, rows, 1)
	ci, ri, n := 0, 0, "a"
	ok := true
	if m.needs == "g" {
		return
	}
	for i := 0; i < len(m.needs); i++ {
		switch m.needs[i] {
		case 'c':
			ci = vzInt("ci")
			ok = vzAnd(ok, vzAnd(0 <= ci, ci < 3))
		case 'r':
			ri = vzInt("ri")
			ok = vzAnd(ok, vzAnd(0 <= ri, ri < rows))
		case 'n':
			n = vzStr("n", vzRange("len", 0, 2))
			ok = vzAnd(ok, vzOr(vzOr(n == "a", n == "s"), n == "f"))
		case 'x':
			ok = false
		}
	}
	if m.name == "SetVal" || m.name == "SetValByColIndex" {
		vzAssume(rows > 0)
	}
	if (m.name == "IsValidColValue" || m.name == "IsValidCellValue") && rows == 0 {
		vzAssume(n == "a")
	}
	for r := 0; r < rows; r++ {
		// cell values do not matter here
		vzMust(t.SetFloat64("f", r, float64(r)), "SetFloat64")
		vzMust(t.SetInt("a", r, 7-r), "SetInt")
		vzMust(t.SetString("s", r, []string{"x", "y"}[r%2]), "SetString")
	}
	if ok {
		vzC22num(t)
	}
	want := vzSnap(t)
	var err error
	p := vzTry(func() { err = m.f(t, ci, ri, n) })
	vzAssert(!p, m.name+" does not panic for any argument")
	if !ok {
		vzAssert(p || err != nil, m.name+" of an unknown or out-of-range argument is an error")
		got := vzSnap(t)
		vzAssert(vzSnapData(got, want), m.name+" of an unknown or out-of-range argument changes nothing")
		vzReach("refused")
		return
	}
	vzAssert(p || err == nil, m.name+" of existing arguments succeeds")
	vzReach("ok")
}

func vzC25_args1() { vzC25args(0, 21) }
func vzC25_args2() { vzC25args(22, 43) }
func vzC25_args3() { vzC25args(44, 65) }
func vzC25_args4() { vzC25args(66, len(vzC25methods)-1) }

// sets: index and name
func vzC25_setArgs() {
	s, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	n := vzRange("tables", 0, 2)
	for i := 0; i < n; i++ {
		t, err := NewTable([]string{"a", "b"}[i])
		vzMust(err, "NewTable")
		vzMust(s.AppendTable(t), "AppendTable")
	}
	m := vzC25sets[vzRange("method", 0, 14)]
	ix, name := vzInt("i"), vzStr("n", vzRange("len", 0, 2))
	ok := true
	switch m.name {
	case "DeleteTable", "GetTable", "HasTable", "RenameTable", "TableIndex":
		ok = vzOr(vzAnd(n > 0, name == "a"), vzAnd(n > 1, name == "b"))
	case "DeleteTableByTableIndex", "GetTableByTableIndex":
		ok = vzAnd(0 <= ix, ix < n)
	}
	p := vzTry(func() { err = m.f(s, ix, name) })
	vzAssert(!p, m.name+" of a set does not panic for any argument")
	if p {
		return
	}
	vzAssert((err == nil) == ok, m.name+" of a set succeeds exactly for existing arguments")
	vzReach("end")
}

// absence is reported the same way by name and by index
func vzC25_lookup() {
	rows := vzRange("rows", 0, 2)
	t := vzBuild("T", vzC25cols, vzC25types, rows, 1)
	ci, ri := vzInt("ci"), vzInt("ri")
	n := "zz"
	if vzAnd(0 <= ci, ci < 3) {
		n = vzC25cols[ci]
	}
	h1, e1 := t.HasCol(n)
	h2, e2 := t.HasColByColIndex(ci)
	vzAssert(h1 == h2 && (e1 == nil) == (e2 == nil) && h1 == (e1 == nil), "HasCol agrees by name and by index")
	c1, e1 := t.HasCell(n, ri)
	c2, e2 := t.HasCellByColIndex(ci, ri)
	vzAssert(c1 == c2 && (e1 == nil) == (e2 == nil) && c1 == (e1 == nil), "HasCell agrees by name and by index")
	hr, e3 := t.HasRow(ri)
	vzAssert(hr == (e3 == nil), "HasRow reports absence as an error")
	vzAssert(c1 == (h1 && hr), "a cell exists exactly where its column and its row do")
	_, e4 := t.GetVal(n, ri)
	_, e5 := t.GetValByColIndex(ci, ri)
	vzAssert((e4 == nil) == c1 && (e5 == nil) == c1, "a value can be read exactly where the cell exists")
	vzReach("end")
}
