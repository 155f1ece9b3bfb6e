//go:build go1.21

package gotables

// Copies are equal and independent.

// all column types; every way of copying
func vzC18_types() {
	rows := vzRange("rows", 0, 1+vzTier())
	t := vzBuild("T", vzNames20, vzAllTypes, rows, 2)
	if vzRange("keys", 0, 1) == 1 {
		vzMust(t.SetSortKeys("ck", "ca"), "SetSortKeys")
		vzMust(t.SetSortKeysReverse("ca"), "SetSortKeysReverse")
	}
	vzMust(t.SetStructShape(rows > 0), "SetStructShape")
	want := vzSnapDeep(t)
	var c *Table
	var err error
	how := vzRange("how", 0, 2)
	switch how {
	case 0:
		c, err = t.Copy()
	case 1:
		c, err = t.CopyDeep()
	case 2:
		c, err = t.NewTableFromRows("T", 0, rows-1)
	}
	vzMust(err, "copying a table")
	vzAssert(vzSnapSame(vzSnapDeep(t), want), "copying never changes the source")
	vzAssert(c != t, "the copy is another table")
	if how == 2 {
		want.keys, want.revs, want.shape = nil, nil, false
	}
	vzAssert(vzSnapSame(vzSnapDeep(c), want), "the copy equals its source")
	if how != 2 {
		vzInv(c, "the copy")
	}
	if rows > 0 {
		// change every cell of the copy or the source
		a, b := t, c
		if vzRange("side", 0, 1) == 1 {
			a, b = c, t
		}
		kept := vzSnapDeep(b)
		for i, ty := range vzAllTypes {
			if ty != "*Table" {
				vzMust(a.SetVal(vzNames20[i], 0, vzCellN(ty, "new", 1)), "SetVal")
			} else if how == 1 {
				n, err := a.GetTable(vzNames20[i], 0)
				vzMust(err, "GetTable")
				vzMust(n.SetInt8("v", 0, vzInt8("new.v")), "SetInt8 in a nested table")
				vzMust(n.AppendRow(), "AppendRow in a nested table")
				vzMust(n.SetName("Other"), "SetName of a nested table")
			}
		}
		vzAssert(vzSnapSame(vzSnapDeep(b), kept), "no change of cells of one side is visible in the other")
	}
	vzReach("end")
}

// any operation on one side leaves the other as it was
func vzC18ops(lo, hi int) {
	t := vzBuild("T", []string{"a", "b", "f"}, []string{"int", "string", "float64"}, 2, 1)
	vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
	var c *Table
	var err error
	switch vzRange("how", 0, 3) {
	case 0:
		c, err = t.Copy()
	case 1:
		c, err = t.CopyDeep()
	case 2:
		c, err = t.NewTableFromRows("T", 0, 1)
	case 3:
		var s, s2 *TableSet
		s, err = NewTableSet("S")
		vzMust(err, "NewTableSet")
		vzMust(s.AppendTable(t), "AppendTable")
		s2, err = s.Copy()
		vzMust(err, "TableSet Copy")
		c, err = s2.GetTable("T")
	}
	vzMust(err, "copying a table")
	a, b := t, c
	if vzRange("side", 0, 1) == 1 {
		a, b = c, t
	}
	want := vzSnap(b)
	_ = vzOp(a, vzRange("op", lo, hi))
	vzAssert(vzSnapSame(vzSnap(b), want), "no later operation on one side is visible in the other")
	vzReach("end")
}

func vzC18_opsCols()  { vzC18ops(0, 4) }
func vzC18_opsOrder() { vzC18ops(5, 8) }
func vzC18_opsRows()  { vzC18ops(9, 15) }
func vzC18_opsKeys()  { vzC18ops(16, 21) }
func vzC18_opsSort()  { vzC18ops(22, 26) }
func vzC18_opsZero()  { vzC18ops(29, 37) }

// deep copies of tables nested to two levels
func vzC18_deep() {
	mk := func(name, col string, inner *Table) *Table {
		t, err := NewTableFromMetadata(name, []string{"v", col, "w"}, []string{"int8", "*Table", "*Table"})
		vzMust(err, "NewTableFromMetadata")
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.SetInt8("v", 0, vzInt8(name+".v")), "SetInt8")
		if inner != nil {
			vzMust(t.SetTable(col, 0, inner), "SetTable")
		}
		return t
	}
	var t, mid, leaf *Table
	leaf = mk("Leaf", "x", nil)
	mid = leaf
	depth := vzRange("depth", 1, 2+vzTier())
	for d := 1; d < depth; d++ {
		mid = mk("Mid", "x", mid)
	}
	t = mk("Root", "x", mid)
	if vzRange("second", 0, 1) == 1 {
		vzMust(t.SetTable("w", 0, mk("Second", "x", nil)), "SetTable")
	}
	want := vzSnapDeep(t)
	c, err := t.CopyDeep()
	vzMust(err, "CopyDeep of a table with nested tables")
	vzAssert(vzSnapSame(vzSnapDeep(t), want), "a deep copy never changes the source")
	vzAssert(vzSnapSame(vzSnapDeep(c), want), "a deep copy equals its source, nested tables included")
	eq, err := c.Equals(t)
	vzAssert(eq && err == nil, "a deep copy equals its source")
	valid, err := c.IsValidTableNesting()
	vzAssert(valid && err == nil, "a deep copy has valid nesting")
	vzMust(leaf.SetInt8("v", 0, vzInt8("new")), "SetInt8")
	vzMust(leaf.AppendRow(), "AppendRow")
	vzAssert(vzSnapSame(vzSnapDeep(c), want), "no later change of a nested table is visible in the deep copy")
	want = vzSnapDeep(t)
	n, err := c.GetTable("x", 0)
	vzMust(err, "GetTable")
	vzMust(n.SetName("Other"), "SetName")
	vzMust(n.DeleteRowsAll(), "DeleteRowsAll")
	n, err = c.GetTable("w", 0)
	vzMust(err, "GetTable")
	vzMust(n.SetName("Other2"), "SetName")
	vzAssert(vzSnapSame(vzSnapDeep(t), want), "no change of a nested table of the deep copy is visible in the source")
	vzReach("end")
}

// table sets
func vzC18_sets() {
	s, err := NewTableSet([]string{"", "S"}[vzRange("name", 0, 1)])
	vzMust(err, "NewTableSet")
	n := vzRange("tables", 0, 2)
	var want []*vzSnapT
	for i := 0; i < n; i++ {
		t := vzBuild([]string{"A", "B"}[i], []string{"a", "s"}, []string{"int64", "string"}, vzRange("rows", 0, 2), 1)
		vzMust(t.SetSortKeys("s"), "SetSortKeys")
		vzMust(s.AppendTable(t), "AppendTable")
		want = append(want, vzSnap(t))
	}
	s.SetFileName("file.got")
	c, err := s.Copy()
	vzMust(err, "TableSet Copy")
	vzAssert(c.Name() == s.Name() && c.TableCount() == n && s.TableCount() == n, "the copied set has the set's name and number of tables")
	for i := 0; i < n; i++ {
		a, err := s.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		b, err := c.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(a != b && vzSnapSame(vzSnap(a), want[i]), "copying a set leaves its tables")
		vzAssert(vzSnapSame(vzSnap(b), want[i]), "each copied table equals its source")
	}
	if n > 0 {
		vzMust(s.DeleteTableByTableIndex(0), "DeleteTableByTableIndex")
		vzAssert(c.TableCount() == n, "deleting from one set leaves the other")
		x, err := NewTable("X")
		vzMust(err, "NewTable")
		vzMust(c.AppendTable(x), "AppendTable")
		vzAssert(s.TableCount() == n-1, "appending to one set leaves the other")
	}
	vzReach("end")
}

// columns only, and reordered copies
func vzC18_cols() {
	t := vzBuild("T", []string{"a", "s", "f"}, []string{"int64", "string", "float32"}, vzRange("rows", 0, 2), 1)
	want := vzSnap(t)
	c, err := t.CopyCols()
	vzMust(err, "CopyCols")
	got := vzSnap(c)
	vzAssert(vzSameStrs(got.names, want.names) && vzSameStrs(got.types, want.types) && got.name == want.name && len(got.cells) == 0, "CopyCols copies the columns and no row")
	r, err := t.NewTableReorderCols("f", "a", "s")
	vzMust(err, "NewTableReorderCols")
	for i := range want.cells {
		for j, n := range want.names {
			v, err := r.GetVal(n, i)
			vzMust(err, "GetVal")
			vzAssert(vzSame(v, want.cells[i][j]), "a reordered copy has the same cells by name")
		}
	}
	vzMust(c.AppendRow(), "AppendRow")
	vzMust(c.DeleteCol("a"), "DeleteCol")
	if len(want.cells) > 0 {
		vzMust(r.SetInt64("a", 0, vzInt64("new")), "SetInt64")
		vzMust(r.DeleteRow(0), "DeleteRow")
	}
	vzMust(r.RenameCol("s", "z"), "RenameCol")
	vzAssert(vzSnapSame(vzSnap(t), want), "changing a copy leaves the source")
	vzReach("end")
}

// a larger table and its copies: equal now, then independent
func vzC18_big() {
	types, rows := vzBigShape("big", vzAllTypes)
	t := vzBig("T", types, rows)
	vzMust(t.SetSortKeys("c0"), "SetSortKeys")
	want := vzSnapDeep(t)
	var c *Table
	var err error
	if vzRange("how", 0, 1) == 0 {
		c, err = t.Copy()
	} else {
		c, err = t.CopyDeep()
	}
	vzMust(err, "copy")
	vzAssert(vzSnapData(vzSnapDeep(c), want), "a copy equals its original")
	a, b := t, c
	if vzRange("side", 0, 1) == 1 {
		a, b = c, t
	}
	k, r := vzRange("c", 0, len(types)-1), vzRange("r", 0, rows-1)
	vzAssume(vzOr(vzOr(k == 0, k == len(types)-1), vzOr(r == 0, r == rows-1)))
	vzMust(a.SetCellToZeroValueByColIndex(k, r), "SetCellToZeroValueByColIndex")
	vzAssert(vzSnapData(vzSnapDeep(b), want), "changing one leaves the other")
	vzReach("end")
}
