//go:build go1.21

package gotables

// Equals decides equality of content.

// vzCellEq: equality of two cells of one type as Go compares them (floats by ==, so NaN equals nothing; times as instants).
func vzCellEq(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		return x == b.(float32)
	case float64:
		return x == b.(float64)
	}
	return vzSame(a, b)
}

func vzEquals(a, b *Table) bool {
	e1, err1 := a.Equals(b)
	vzAssert(e1 == (err1 == nil), "unequal is reported with an error, equal without")
	e2, err2 := b.Equals(a)
	vzAssert(e2 == (err2 == nil), "unequal is reported with an error, equal without")
	vzAssert(e1 == e2, "equality is symmetric")
	return e1
}

func vzC17type(lo, hi int) {
	ty := vzAllTypes[vzRange("type", lo, hi)]
	a, err := NewTableFromMetadata("T", []string{"c"}, []string{ty})
	vzMust(err, "NewTableFromMetadata")
	b, err := NewTableFromMetadata("T", []string{"c"}, []string{ty})
	vzMust(err, "NewTableFromMetadata")
	vzMust(a.AppendRow(), "AppendRow")
	vzMust(b.AppendRow(), "AppendRow")
	x, y := vzCell(ty, "x", 2+vzTier()), vzCell(ty, "y", 2+vzTier())
	vzMust(a.SetVal("c", 0, x), "SetVal")
	vzMust(b.SetVal("c", 0, y), "SetVal")
	sa, sb := vzSnap(a), vzSnap(b)
	vzAssert(vzEquals(a, b) == vzCellEq(x, y), "two tables of one cell are equal exactly when the cells are")
	vzAssert(vzSnapSame(vzSnap(a), sa) && vzSnapSame(vzSnap(b), sb), "comparing changes nothing")
	vzReach("end")
}

func vzC17_types1() { vzC17type(0, 6) }
func vzC17_types2() { vzC17type(7, 13) }
func vzC17_types3() { vzC17type(14, 19) }

// two columns, two rows; the second table may have its columns in the other order
func vzC17cells(t1, t2 string) {
	a := vzBuild("T", []string{"p", "q"}, []string{t1, t2}, 2, 1)
	var b *Table
	if vzRange("order", 0, 1) == 0 {
		b = vzBuild("T", []string{"p", "q"}, []string{t1, t2}, 2, 1)
	} else {
		b = vzBuild("T", []string{"q", "p"}, []string{t2, t1}, 2, 1)
	}
	want := true
	for r := 0; r < 2; r++ {
		for _, c := range []string{"p", "q"} {
			x, err := a.GetVal(c, r)
			vzMust(err, "GetVal")
			y, err := b.GetVal(c, r)
			vzMust(err, "GetVal")
			want = vzAnd(want, vzCellEq(x, y))
		}
	}
	vzAssert(vzEquals(a, b) == want, "tables are equal exactly when all cells of equally named columns are")
	vzReach("end")
}

func vzC17_cellsInt()    { vzC17cells("int64", "uint8") }
func vzC17_cellsString() { vzC17cells("string", "bool") }
func vzC17_cellsFloat()  { vzC17cells("float64", "float32") }
func vzC17_cellsBytes()  { vzC17cells("[]byte", "rune") }
func vzC17_cellsTable()  { vzC17cells("*Table", "int") }
func vzC17_cellsTable2() { vzC17cells("*Table", "*Table") }
func vzC17_cellsTime()   { vzC17cells("time.Time", "int16") }

// name, column names, types, row counts
func vzC17_shape() {
	names := []string{"T", "t"}
	cols := []string{"a", "b", "A"}
	types := []string{"int8", "uint8", "byte"}
	mk := func(w string) (*Table, string, []string, []string, int) {
		n := names[vzRange(w+".name", 0, 1)]
		nc := vzRange(w+".cols", 0, 2)
		var cn, ct []string
		for i := 0; i < nc; i++ {
			c := cols[vzRange(w+".col", 0, 1+vzTier())]
			vzAssume(i == 0 || cn[0] != c)
			cn, ct = append(cn, c), append(ct, types[vzRange(w+".type", 0, 2)])
		}
		rows := vzRange(w+".rows", 0, 1)
		t, err := NewTableFromMetadata(n, cn, ct)
		vzMust(err, "NewTableFromMetadata")
		if nc > 0 || rows > 0 {
			vzMust(t.AppendRows(rows), "AppendRows")
		}
		return t, n, cn, ct, rows
	}
	a, an, ac, at, ar := mk("a")
	b, bn, bc, bt, br := mk("b")
	want := an == bn && ar == br && len(ac) == len(bc)
	for i := range ac {
		found := false
		for j := range bc {
			found = found || ac[i] == bc[j] && at[i] == bt[j]
		}
		want = want && found
	}
	vzAssert(vzEquals(a, b) == want, "tables are equal exactly when name, columns, types and row counts are (all cells zero)")
	vzReach("end")
}

func vzC17_names() {
	n, m := vzStr("n", 1)+vzStr("n2", vzRange("nl", 0, 1)), vzStr("m", 1)+vzStr("m2", vzRange("ml", 0, 1))
	a, err := NewTable(n)
	vzAssume(err == nil)
	b, err := NewTable(m)
	vzAssume(err == nil)
	vzAssert(vzEquals(a, b) == (n == m), "empty tables are equal exactly when their names are")
	vzReach("end")
}

// table sets
func vzC17_sets() {
	mk := func(w string) (*TableSet, []string, []int8) {
		s, err := NewTableSet("S")
		vzMust(err, "NewTableSet")
		var n []string
		var v []int8
		k := vzRange(w+".tables", 0, 2)
		for i := 0; i < k; i++ {
			nm := []string{"A", "B"}[vzRange(w+".name", 0, 1)]
			vzAssume(i == 0 || n[0] != nm)
			t, err := NewTableFromMetadata(nm, []string{"c"}, []string{"int8"})
			vzMust(err, "NewTableFromMetadata")
			vzMust(t.AppendRow(), "AppendRow")
			x := vzInt8(w + ".x")
			vzMust(t.SetInt8("c", 0, x), "SetInt8")
			vzMust(s.AppendTable(t), "AppendTable")
			n, v = append(n, nm), append(v, x)
		}
		return s, n, v
	}
	a, an, av := mk("a")
	b, bn, bv := mk("b")
	want := vzSameStrs(an, bn)
	if want {
		for i := range av {
			want = vzAnd(want, av[i] == bv[i])
		}
	}
	e1, err1 := a.Equals(b)
	e2, err2 := b.Equals(a)
	vzAssert(e1 == want && e2 == want, "table sets are equal exactly when their corresponding tables are")
	vzAssert((err1 == nil) == e1 && (err2 == nil) == e2, "unequal sets are reported with an error")
	vzReach("end")
}

// nested tables, nil tables
func vzC17_nested() {
	mk := func(w string) (*Table, int) {
		t, err := NewTableFromMetadata("T", []string{"i", "c"}, []string{"int", "*Table"})
		vzMust(err, "NewTableFromMetadata")
		vzMust(t.AppendRow(), "AppendRow")
		k := vzRange(w, 0, 3)
		if k > 0 {
			n := []string{"", "N", "N", "M"}[k]
			in, err := NewTable(n)
			vzMust(err, "NewTable")
			if k >= 2 {
				vzMust(in.AppendCol("x", "*Table"), "AppendCol")
				vzMust(in.AppendRow(), "AppendRow")
				in2, err := NewTable("Deep")
				vzMust(err, "NewTable")
				if k == 3 {
					vzMust(in2.AppendCol("y", "int"), "AppendCol")
				}
				vzMust(in.SetTable("x", 0, in2), "SetTable")
				vzMust(in.SetName("N"), "SetName")
			}
			vzMust(t.SetTable("c", 0, in), "SetTable")
		}
		return t, k
	}
	a, ak := mk("a")
	b, bk := mk("b")
	vzAssert(vzEquals(a, b) == (ak == bk), "tables are equal exactly when their nested tables are, to any depth")
	vzReach("end")
}

func vzC17_bytes() {
	n, m := vzRange("n", 0, 3), vzRange("m", 0, 3)
	a, b := []byte(vzStr("a", n)), []byte(vzStr("b", m))
	e, err := Uint8SliceEquals(a, b)
	vzAssert(e == (string(a) == string(b)), "slices are equal exactly when their bytes are")
	vzAssert(e == (err == nil), "unequal slices are reported with an error")
	e, err = Uint8SliceEquals(nil, b)
	vzAssert(!e && err != nil, "a nil slice differs from a non-nil one")
	e, err = Uint8SliceEquals(a, nil)
	vzAssert(!e && err != nil, "a nil slice differs from a non-nil one")
	e, err = Uint8SliceEquals(nil, nil)
	vzAssert(e && err == nil, "nil slices are equal")
	vzReach("end")
}

func vzC17_nil() {
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	e, err := t.Equals(nil)
	vzAssert(!e && err != nil, "nothing equals nil")
	var z *Table
	e, err = z.Equals(t)
	vzAssert(!e && err != nil, "nil equals nothing")
	e, err = NewNilTable().Equals(t)
	vzAssert(!e && err != nil, "a NilTable differs from a named table")
	e, err = NewNilTable().Equals(NewNilTable())
	vzAssert(e && err == nil, "NilTables are equal")
	vzReach("end")
}

// larger tables that differ in one cell, or one column name or type, or not at all
func vzC17_big() {
	types, rows := vzBigShape("big", vzAllTypes)
	a, b := vzBig("T", types, rows), vzBig("T", types, rows)
	switch vzRange("how", 0, 2) {
	case 0:
		c, r := vzRange("c", 0, len(types)-1), vzRange("r", 0, rows-1)
		vzAssume(vzOr(vzOr(c == 0, c == len(types)-1), vzOr(r == 0, r == rows-1)))
		v := vzCellN(types[c], "v", 1)
		x, err := a.GetValByColIndex(c, r)
		vzMust(err, "GetValByColIndex")
		vzMust(b.SetValByColIndex(c, r, v), "SetValByColIndex")
		if types[c] == "*Table" {
			y, err := b.GetValByColIndex(c, r)
			vzMust(err, "GetValByColIndex")
			vzAssert(vzEquals(a, b) == vzSame(x, y), "tables that differ in at most one cell are equal exactly when it is")
		} else {
			vzAssert(vzEquals(a, b) == vzCellEq(x, v), "tables that differ in at most one cell are equal exactly when it is")
		}
	case 1:
		c := vzRange("c", 0, len(types)-1)
		vzMust(b.RenameColByColIndex(c, "other"), "RenameColByColIndex")
		vzAssert(!vzEquals(a, b), "tables that differ in one column name are not equal")
	case 2:
		vzAssert(vzEquals(a, b), "tables of equal content are equal")
		vzMust(b.DeleteRow(vzRange("r", 0, rows-1)), "DeleteRow")
		vzAssert(!vzEquals(a, b), "tables that differ in one row are not equal")
	}
	vzReach("end")
}
