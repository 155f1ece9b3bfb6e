//go:build go1.21

package gotables

import "bytes"

// Goroutines working on separate tables, or reading the same one, do not touch the same memory: every schedule gives what
// each of them gives alone.

func vzC90table(name string) *Table {
	t := vzBuild(name, []string{"a", "b", "f"}, []string{"int", "string", "float64"}, 2, 0)
	vzMust(t.SetInt("a", 0, 2), "SetInt")
	vzMust(t.SetInt("a", 1, 1), "SetInt")
	vzMust(t.SetString("b", 0, "y"), "SetString")
	vzMust(t.SetString("b", 1, "x"), "SetString")
	vzMust(t.SetFloat64("f", 0, 1.5), "SetFloat64")
	vzMust(t.SetFloat64("f", 1, 0.5), "SetFloat64")
	if vzRange("keys", 0, 1) == 1 {
		vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
		vzMust(t.SetSortKeysReverse("a"), "SetSortKeysReverse")
	}
	return t
}

const vzC90ways = 12

// vzC90two: two tables, the second made from the first or with it.
func vzC90two(way int) (a, b *Table) {
	var err error
	if way == 1 {
		s, err := NewTableSetFromString("[T]\na b f\nint string float64\n2 \"y\" 1.5\n1 \"x\" 0.5\n\n[U]\na b f\nint string float64\n2 \"y\" 1.5\n1 \"x\" 0.5\n")
		vzMust(err, "NewTableSetFromString")
		a, err = s.GetTable("T")
		vzMust(err, "GetTable")
		b, err = s.GetTable("U")
		vzMust(err, "GetTable")
		return a, b
	}
	a = vzC90table("T")
	switch way {
	case 0:
		b = vzC90table("T")
	case 2:
		b, err = a.Copy()
	case 3:
		b, err = a.NewTableFromRows("U", 0, 1)
	case 4:
		b, err = a.NewTableReorderColsByColIndex(0, 1, 2)
	case 5:
		b, err = a.CopyDeep()
	case 6:
		b, err = NewTable("U")
		vzMust(err, "NewTable")
		vzMust(b.AppendColsFromTable(a), "AppendColsFromTable")
		vzMust(b.AppendRowsFromTable(a, 0, 1), "AppendRowsFromTable")
		_ = b.SetSortKeysFromTable(a) // Refused when a has no keys.
	case 7:
		b, err = a.CopyCols()
		vzMust(err, "CopyCols")
		err = b.AppendRowsFromTable(a, 0, 1)
	case 8:
		vzMust(a.SetSortKeys("a"), "SetSortKeys")
		b, err = a.SortUnique()
	case 9:
		vzMust(a.SetSortKeys("a"), "SetSortKeys")
		b, err = a.Merge(vzC90table("V"))
	case 10:
		var s, s2 *TableSet
		s, err = NewTableSet("S")
		vzMust(err, "NewTableSet")
		vzMust(s.Append(a), "Append")
		s2, err = s.Copy()
		vzMust(err, "Copy of a set")
		b, err = s2.GetTableByTableIndex(0)
	case 11:
		var buf []byte
		buf, err = a.GobEncode()
		vzMust(err, "GobEncode")
		a, err = NewTableFromGob(buf)
		vzMust(err, "NewTableFromGob")
		b, err = NewTableFromGob(buf)
	}
	vzMust(err, "second table")
	return a, b
}

func vzC90ops(from, to int) {
	op := vzRange("op", from, to)
	a, b := vzC90two(vzRange("way", 0, vzC90ways-1))
	f := vzOpDraw(op)
	vzAssert(vzPar(
		func() { _ = f(a); vzSnap(a) },
		func() { _ = f(b); vzSnap(b) },
	), "operations on separate tables do not touch the same memory")
	vzReach("end")
}

func vzC90_opsCols()  { vzC90ops(0, 4) }
func vzC90_opsOrder() { vzC90ops(5, 8) }
func vzC90_opsRows()  { vzC90ops(9, 13) }
func vzC90_opsSet()   { vzC90ops(14, 15) }
func vzC90_opsKeys()  { vzC90ops(16, 21) }
func vzC90_opsSort()  { vzC90ops(22, 26) }
func vzC90_opsFrom()  { vzC90ops(27, 28) }
func vzC90_opsZero()  { vzC90ops(29, 37) }

// larger operations on separate tables
func vzC90_opsMore() {
	a, b := vzC90two(vzRange("way", 0, vzC90ways-1))
	n := vzC90table("N")
	fs := []func(t *Table){
		func(t *Table) { _ = t.SetSortKeys("a"); _, _ = t.SortUnique() },
		func(t *Table) { _ = t.SetSortKeys("a"); _, _ = t.Merge(vzMade(t)) },
		func(t *Table) { _ = t.SetSortKeys("a"); _ = t.Nest(vzMade(t), "nested") },
		func(t *Table) { _ = t.ShufflePseudorandom() },
		func(t *Table) { _ = t.ShuffleRandom() },
		func(t *Table) { _ = t.AppendCol("t", "*Table"); _ = t.SetTable("t", 0, NewNilTable()); _, _ = t.NewTreeTable(1) },
		func(t *Table) { _, _ = t.NewTableFromRowsBySearchRange("R", 1) },
		func(t *Table) { _ = t.AppendRowsFromTable(n, 0, 1); _ = t.AppendColsFromTable(n); _ = t.SetSortKeysFromTable(n) },
		func(t *Table) { _ = t.SetAllFloatCellsToNaN() },
		func(t *Table) {
			s, err := NewTableSet("S")
			vzMust(err, "NewTableSet")
			_ = s.Append(t)
			_, _ = s.Copy()
			_ = s.RenameTable(t.Name(), "R")
			_ = s.DeleteTable("R")
		},
	}
	f := fs[vzRange("f", 0, len(fs)-1)]
	vzAssert(vzPar(
		func() { f(a); vzSnap(a) },
		func() { f(b); vzSnap(b) },
	), "operations on separate tables do not touch the same memory")
	vzReach("end")
}

// vzMade: another table like t.
func vzMade(t *Table) *Table {
	o, err := NewTableFromMetadata("O", []string{"a", "z"}, []string{"int", "bool"})
	vzMust(err, "NewTableFromMetadata")
	vzMust(o.AppendRows(2), "AppendRows")
	vzMust(o.SetInt("a", 0, 2), "SetInt")
	vzMust(o.SetSortKeys("a"), "SetSortKeys")
	return o
}

// reading and writing text, documents and streams at the same time
func vzC90_parse() {
	s := "[T]\na b\nint8 string\n" + []string{"1", "x", "300"}[vzRange("cell", 0, 2)] + " \"" + vzStr("str", 1) + "\"\n"
	u := []string{"[U]\nn int = 1\nf float64 = 2.5\n", "[U]\na t\nbool *Table\ntrue [N]\n\n[V]\nx\n[]byte\n[1 2]\n", "[U]\na\nint\n\n1\nx\n", "zork"}[vzRange("u", 0, 3)]
	if vzRange("swap", 0, 1) == 1 {
		s, u = u, s
	}
	vzAssert(vzPar(
		func() { _, _ = NewTableSetFromString(s) },
		func() { _, _ = NewTableSetFromString(u) },
	), "texts are parsed independently")
	vzReach("end")
}

func vzC90_docs() {
	k := vzRange("k", 0, 4)
	f := func() {
		t := vzC90nested(k)
		s, err := NewTableSet("S")
		vzMust(err, "NewTableSet")
		vzMust(s.Append(t), "Append")
		switch k {
		case 0:
			j, err := t.GetTableAsJSON()
			if err == nil {
				_, _ = NewTableFromJSON(j)
			}
		case 1:
			j, err := s.GetTableSetAsJSONIndent()
			if err == nil {
				_, _ = NewTableSetFromJSON(j)
			}
		case 2:
			y, err := s.GetTableSetAsYAML()
			if err == nil {
				_, _ = NewTableSetFromYAML(y)
			}
		case 3:
			g, err := t.GobEncode()
			if err == nil {
				_, _ = NewTableFromGob(g)
			}
		case 4:
			var g []bytes.Buffer
			g, err = s.GobEncode()
			if err == nil {
				_, _ = NewTableSetFromGob(g)
			}
		}
	}
	vzAssert(vzPar(f, f), "documents and streams are coded independently")
	vzReach("end")
}

// vzC90nested: every kind of cell, concrete, with a nested table unless gob is to carry it.
func vzC90nested(k int) *Table {
	t, err := NewTableFromMetadata("T", []string{"a", "b", "f", "r", "y", "z"}, []string{"int", "string", "float64", "rune", "[]byte", "bool"})
	vzMust(err, "NewTableFromMetadata")
	vzMust(t.AppendRows(2), "AppendRows")
	vzMust(t.SetInt("a", 0, -5), "SetInt")
	vzMust(t.SetInt("a", 1, 7), "SetInt")
	vzMust(t.SetString("b", 0, "x\n\"y"), "SetString")
	vzMust(t.SetFloat64("f", 1, 2.5), "SetFloat64")
	vzMust(t.SetRune("r", 0, 'r'), "SetRune")
	vzMust(t.SetByteSlice("y", 1, []byte{1, 2}), "SetByteSlice")
	vzMust(t.SetSortKeys("a"), "SetSortKeys")
	if k < 3 {
		vzMust(t.AppendCol("t", "*Table"), "AppendCol")
		n, err := NewTableFromMetadata("N", []string{"x"}, []string{"int"})
		vzMust(err, "NewTableFromMetadata")
		vzMust(n.AppendRow(), "AppendRow")
		vzMust(t.SetTable("t", 0, n), "SetTable")
	}
	return t
}

type vzReader struct {
	name string
	f    func(t *Table, r int)
}

var vzC90readers = []vzReader{
	{"String", func(t *Table, r int) { _ = t.String() }},
	{"StringPadded", func(t *Table, r int) { _ = t.StringPadded() }},
	{"StringUnpadded", func(t *Table, r int) { _ = t.StringUnpadded() }},
	{"StringNested", func(t *Table, r int) { _ = t.StringNested() }},
	{"GetTableAsCSV", func(t *Table, r int) { _, _ = t.GetTableAsCSV() }},
	{"GetTableAsJSON", func(t *Table, r int) { _, _ = t.GetTableAsJSON() }},
	{"GetTableAsJSONIndent", func(t *Table, r int) { _, _ = t.GetTableAsJSONIndent() }},
	{"GobEncode", func(t *Table, r int) { _, _ = t.GobEncode() }},
	{"GenerateTypeStruct", func(t *Table, r int) { _, _ = t.GenerateTypeStruct() }},
	{"GenerateTypeStructSliceFromTable", func(t *Table, r int) { _, _ = t.GenerateTypeStructSliceFromTable() }},
	{"GenerateTypeStructSliceToTable", func(t *Table, r int) { _, _ = t.GenerateTypeStructSliceToTable() }},
	{"Copy", func(t *Table, r int) { _, _ = t.Copy() }},
	{"CopyDeep", func(t *Table, r int) { _, _ = t.CopyDeep() }},
	{"CopyCols", func(t *Table, r int) { _, _ = t.CopyCols() }},
	{"NewTableFromRows", func(t *Table, r int) { _, _ = t.NewTableFromRows("U", 0, r) }},
	{"NewTableReorderCols", func(t *Table, r int) { _, _ = t.NewTableReorderCols("b", "a", "f", "r", "y", "z", "t") }},
	{"Equals", func(t *Table, r int) { _, _ = t.Equals(t) }},
	{"IsValidTable", func(t *Table, r int) { _, _ = t.IsValidTable() }},
	{"IsValidRow", func(t *Table, r int) { _, _ = t.IsValidRow(r) }},
	{"IsValidTableNesting", func(t *Table, r int) { _, _ = t.IsValidTableNesting() }},
	{"HasCircularReference", func(t *Table, r int) { _, _ = t.HasCircularReference() }},
	{"IsNilTable", func(t *Table, r int) { _, _ = t.IsNilTable() }},
	{"IsStructShape", func(t *Table, r int) { _, _ = t.IsStructShape() }},
	{"columns", func(t *Table, r int) {
		_, _ = t.HasCol("b")
		_, _ = t.HasColByColIndex(r)
		_, _ = t.ColIndex("b")
		_, _ = t.ColName(r)
		_, _ = t.ColType("b")
		_, _ = t.ColTypeByColIndex(r)
		_, _ = t.IsColType("b", "string")
		_, _ = t.IsTableCol("t")
		_, _ = t.GetColInfoAsTable()
		_, _, _ = t.GetColInfoAsSlices()
		_ = t.ColCount()
		_ = t.Name()
		_ = t.ParentTable()
	}},
	{"rows", func(t *Table, r int) {
		_, _ = t.HasRow(r)
		_, _ = t.HasCell("a", r)
		_, _ = t.RowByRowIndex(r)
		_ = t.RowCount()
	}},
	{"cells", func(t *Table, r int) {
		for c := 0; c < t.ColCount(); c++ {
			_, _ = t.GetValByColIndex(c, r)
			_, _ = t.GetCellInfoByColIndex(c, r)
			if c < 6 {
				_, _ = t.GetValAsStringByColIndex(c, r)
				_, _ = t.JoinColValsByColIndex(c, ",")
			}
		}
		_, _ = t.GetInt("a", r)
		_, _ = t.GetString("b", r)
		_, _ = t.GetTable("t", r)
		_, _ = t.GetColValsAsStrings("b")
		_, _ = t.IsValidCellValue("a", 1)
		_, _ = t.IsValidColValue("b", "x")
	}},
	{"keys", func(t *Table, r int) {
		_ = t.SortKeyCount()
		_, _ = t.IsSortKey("a")
		_, _ = t.GetSortKeysAsTable()
	}},
	{"search", func(t *Table, r int) {
		_, _ = t.Search(r)
		_, _ = t.SearchFirst(r)
		_, _ = t.SearchLast(r)
		_, _, _ = t.SearchRange(r)
		_, _ = t.NewTableFromRowsBySearchRange("U", r)
		_, _ = t.CompareRows(0, 1)
	}},
	{"Walk", func(t *Table, r int) {
		_ = t.Walk(true, WalkSafe{}, func(*Table) error { return nil }, func(Row) error { return nil }, func(bool, CellInfo) error { return nil })
	}},
	{"as a source", func(t *Table, r int) {
		o, err := NewTable("O")
		vzMust(err, "NewTable")
		_ = o.AppendColsFromTable(t)
		_ = o.AppendRowsFromTable(t, 0, 1)
		_ = o.SetSortKeysFromTable(t)
		_ = o.SetInt("a", 0, 9)
		_ = o.AppendRow()
	}},
	{"a copy of its own", func(t *Table, r int) {
		o, err := t.Copy()
		vzMust(err, "Copy")
		_ = o.SetInt("a", 0, 9)
		_ = o.SetString("b", 1, "q")
		_ = o.AppendRow()
		_ = o.DeleteRow(0)
		_ = o.SetSortKeys("b", "a")
		_ = o.Sort()
		_ = o.RenameCol("a", "q")
		_ = o.DeleteCol("q")
		_ = o.SetName("Q")
	}},
}

// readers of one table, any two of them
func vzC90readers2(from, to int) {
	vzClockStopped = true
	i := vzRange("i", from, to)
	t := vzC90nested(0)
	if vzC90readers[i].name == "GobEncode" {
		t = vzC90nested(3)
	}
	r := vzInt("r")
	f, g := vzC90readers[i].f, vzC90readers[i].f
	if vzRange("two", 0, 1) == 1 {
		g = func(t *Table, r int) { vzSnapDeep(t) }
	}
	vzAssert(vzPar(
		func() { f(t, r) },
		func() { g(t, r) },
	), "readers of one table do not change anything they share")
	vzReach("end")
}

func vzC90_readersText() { vzC90readers2(0, 10) }
func vzC90_readersCopy() { vzC90readers2(11, 22) }
func vzC90_readersRest() { vzC90readers2(23, len(vzC90readers)-1) }

// readers of one table set
func vzC90_readersSet() {
	s, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	vzMust(s.Append(vzC90nested(0)), "Append")
	vzMust(s.Append(vzC90table("U")), "Append")
	r := vzInt("r")
	fs := []func(){
		func() { _ = s.String() },
		func() { _ = s.StringUnpadded() },
		func() { _, _ = s.GetTableSetAsJSON() },
		func() { _, _ = s.GetTableSetAsJSONIndent() },
		func() { _, _ = s.GetTableSetAsYAML() },
		func() { _, _ = s.GetTableSetAsMap() },
		func() { _, _ = s.Copy() },
		func() { _, _ = s.IsValidTableSet() },
		func() {
			_, _ = s.GetTable("U")
			_, _ = s.GetTableByTableIndex(r)
			_, _ = s.HasTable("T")
			_, _ = s.TableIndex("U")
			_, _, _ = s.TableCount(), s.Name(), s.FileName()
		},
		func() { _ = s.Walk(true, nil, func(*Table) error { return nil }, func(Row) error { return nil }, func(bool, CellInfo) error { return nil }) },
	}
	f := fs[vzRange("f", 0, len(fs)-1)]
	g := f
	if vzRange("two", 0, 1) == 1 {
		g = func() {
			for i := 0; i < s.TableCount(); i++ {
				t, err := s.GetTableByTableIndex(i)
				vzMust(err, "GetTableByTableIndex")
				vzSnapDeep(t)
			}
		}
	}
	vzAssert(vzPar(f, g), "readers of one table set do not change anything they share")
	vzReach("end")
}

// shuffling does not reset the random numbers of the rest of the program
func vzC90_random() {
	t := vzC90table("T")
	rnd := vzRange("random", 0, 1) == 1
	vzAssert(!vzReseeds(func() {
		if rnd {
			_ = t.ShuffleRandom()
		} else {
			_ = t.ShufflePseudorandom()
		}
	}), "the process-wide random source is left alone")
	vzReach("end")
}
