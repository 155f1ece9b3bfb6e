//go:build go1.21

package gotables

// Rows: append and delete are exact.

func vzC03_append() {
	rows := vzRange("rows", 0, 2)
	t := vzBuild("T", vzNames20, vzAllTypes, rows, 1)
	want := vzSnap(t)
	n := 1
	if vzRange("how", 0, 1) == 0 {
		n = vzInt("n")
		vzAssume(n <= 2+vzTier())
		err := t.AppendRows(n)
		if n < 0 {
			vzAssert(err != nil, "a negative number of rows is refused")
			vzAssert(vzSnapSame(vzSnap(t), want), "refused append changes nothing")
			return
		}
		vzMust(err, "AppendRows")
	} else {
		vzMust(t.AppendRow(), "AppendRow")
	}
	vzAssert(t.RowCount() == rows+n, "exactly the requested number of rows is added")
	got := vzSnap(t)
	vzAssert(vzSameCells(got.cells[:rows], want.cells), "earlier rows are unchanged")
	vzAssert(vzSameStrs(got.names, want.names) && vzSameStrs(got.types, want.types) && got.name == want.name && vzSameStrs(got.keys, want.keys) && got.shape == want.shape, "append keeps the columns")
	for r := rows; r < len(got.cells); r++ {
		for c, ty := range vzAllTypes {
			vzAssert(vzZero(ty, got.cells[r][c]), "a new row holds the zero value of every column type")
		}
	}
	// every row is its own: setting one new row leaves the others alone
	if n > 1 {
		a, err := t.GetTable("cs", rows)
		vzMust(err, "GetTable")
		vzMust(a.SetName("Changed"), "SetName")
		b, err := t.GetTable("cs", rows+1)
		vzMust(err, "GetTable")
		is, err := b.IsNilTable()
		vzAssert(is && err == nil, "new rows do not share their nested tables")
	}
	vzReach("end")
}

// after rows have been deleted, appended rows are zero too and kept rows stay as they are
func vzC03_deleteAppend() {
	t := vzBuild("T", []string{"a", "s"}, []string{"int16", "string"}, 3, 1)
	want := vzSnap(t)
	f := vzRange("first", 0, 2)
	l := vzRange("last", f, 2)
	vzMust(t.DeleteRows(f, l), "DeleteRows")
	vzMust(t.AppendRow(), "AppendRow")
	exp := append(append([][]interface{}{}, want.cells[:f]...), want.cells[l+1:]...)
	exp = append(exp, []interface{}{int16(0), ""})
	vzAssert(vzSameCells(vzSnap(t).cells, exp), "append after delete")
	vzMust(t.SetInt16("a", len(exp)-1, vzInt16("n")), "SetInt16")
	vzAssert(vzSameCells(vzSnap(t).cells[:len(exp)-1], exp[:len(exp)-1]), "setting the new row leaves the kept rows")
	vzReach("end")
}

func vzC03delete(rows int) {
	t := vzBuild("T", []string{"i", "s", "f", "b"}, []string{"int64", "string", "float64", "bool"}, rows, 1)
	vzMust(t.SetSortKeys("i"), "SetSortKeys")
	want := vzSnap(t)
	first, last := vzInt("first"), vzInt("last")
	err := t.DeleteRows(first, last)
	if first < 0 || last >= rows || first > last {
		vzAssert(err != nil, "an invalid row range is refused")
		vzAssert(vzSnapSame(vzSnap(t), want), "refused delete changes nothing")
		vzReach("refused")
		return
	}
	vzMust(err, "DeleteRows of a valid range")
	var exp [][]interface{}
	for r := 0; r < rows; r++ {
		if r < first || r > last {
			exp = append(exp, want.cells[r])
		}
	}
	want.cells = exp
	vzAssert(t.RowCount() == len(exp), "exactly the rows of the range are removed")
	vzAssert(vzSnapSame(vzSnap(t), want), "the other rows keep their content and order")
	vzReach("deleted")
}

func vzC03_deleteRows0() { vzC03delete(0) }
func vzC03_deleteRows1() { vzC03delete(1) }
func vzC03_deleteRows3() { vzC03delete(3) }
func vzC03_deleteRows4() { vzC03delete(4 + 2*vzTier()) }

func vzC03_deleteRow() {
	rows := vzRange("rows", 0, 3+vzTier())
	t := vzBuild("T", []string{"i", "s"}, []string{"uint32", "string"}, rows, 1)
	want := vzSnap(t)
	r := vzInt("row")
	err := t.DeleteRow(r)
	if r < 0 || r >= rows {
		vzAssert(err != nil, "an invalid row index is refused")
		vzAssert(vzSnapSame(vzSnap(t), want), "refused delete changes nothing")
		return
	}
	vzMust(err, "DeleteRow of an existing row")
	var exp [][]interface{}
	for k := 0; k < rows; k++ {
		if k != r {
			exp = append(exp, want.cells[k])
		}
	}
	want.cells = exp
	vzAssert(vzSnapSame(vzSnap(t), want), "exactly the row is removed")
	vzReach("end")
}

func vzC03_deleteAll() {
	rows := vzRange("rows", 0, 3)
	t := vzBuild("T", []string{"i", "s"}, []string{"uint32", "string"}, rows, 1)
	vzMust(t.SetSortKeys("s"), "SetSortKeys")
	want := vzSnap(t)
	vzMust(t.DeleteRowsAll(), "DeleteRowsAll")
	want.cells = nil
	vzAssert(vzSnapSame(vzSnap(t), want), "all rows and nothing else removed")
	vzReach("end")
}

func vzC03_lookup() {
	rows := vzRange("rows", 0, 2)
	t := vzBuild("T", []string{"i"}, []string{"int"}, rows, 1)
	r := vzInt("row")
	in := vzAnd(0 <= r, r < rows)
	has, err := t.HasRow(r)
	vzAssert(has == in && (err == nil) == in, "HasRow tells exactly whether the row exists")
	ok, err := t.IsValidRow(r)
	vzAssert(ok == in && (err == nil) == in, "IsValidRow of exactly the existing rows")
	_, err = t.RowByRowIndex(r)
	vzAssert((err == nil) == in, "RowByRowIndex of exactly the existing rows")
	vzReach("end")
}

// many rows
func vzC03_big() {
	types, rows := vzBigShape("big", vzAllTypes)
	t := vzBig("T", types, rows)
	vzMust(t.SetSortKeys("c0"), "SetSortKeys")
	want := vzSnap(t)
	if vzRange("op", 0, 1) == 0 {
		n := []int{1, 2, 7, 8, 15, 33, 64, 100}[vzRange("n", 0, 7)]
		vzMust(t.AppendRows(n), "AppendRows")
		got := vzSnap(t)
		vzAssert(len(got.cells) == rows+n, "exactly the requested number of rows is added")
		vzAssert(vzSameCells(got.cells[:rows], want.cells), "earlier rows are unchanged")
		for r := rows; r < len(got.cells); r++ {
			for c, ty := range types {
				vzAssert(vzZero(ty, got.cells[r][c]), "a new row holds the zero value of every column type")
			}
		}
		vzReach("appended")
		return
	}
	first := vzRange("first", 0, rows-1)
	last := vzRange("last", first, rows-1)
	vzAssume(vzOr(first < 3, vzOr(last >= rows-2, last <= first+1)))
	vzMust(t.DeleteRows(first, last), "DeleteRows of a valid range")
	exp := *want
	exp.cells = append(append([][]interface{}{}, want.cells[:first]...), want.cells[last+1:]...)
	vzAssert(vzSnapSame(vzSnap(t), &exp), "exactly the rows of the range are removed, the others keep content and order")
	vzReach("deleted")
}
