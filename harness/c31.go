//go:build go1.21

package gotables

// Appending rows or columns from another table transfers exactly those cells.

// vzC31rows: source and destination column sets, every row range, arbitrary cells.
func vzC31rows(dcols, dtypes []string, scols, stypes []string, rows int) {
	d := vzBuild("D", dcols, dtypes, vzRange("drows", 0, 2), 1)
	s := vzBuild("S", scols, stypes, rows, 1)
	vzMust(s.SetSortKeys(scols[0]), "SetSortKeys")
	wantD, wantS := vzSnap(d), vzSnap(s)
	first, last := vzInt("first"), vzInt("last")
	vzAssume(first <= last)
	err := d.AppendRowsFromTable(s, first, last)
	vzAssert(vzSnapSame(vzSnap(s), wantS), "appending from a table leaves the source unchanged")
	// column of s -> column of d
	ok := vzAnd(0 <= first, last < rows)
	from := make([]int, len(dcols))
	for i := range from {
		from[i] = -1
	}
	for i, c := range scols {
		found := false
		for j := range dcols {
			if dcols[j] == c && vzAliasTypes(dtypes[j], stypes[i]) {
				from[j], found = i, true
			}
		}
		ok = ok && found
	}
	if !ok {
		vzAssert(err != nil, "a range outside the source, a missing column or a clash of types is refused")
		vzAssert(vzSnapSame(vzSnap(d), wantD), "a refused append changes nothing")
		vzReach("refused")
		return
	}
	vzMust(err, "AppendRowsFromTable of rows that fit")
	got := vzSnap(d)
	n := len(wantD.cells)
	vzAssert(len(got.cells) == n+last-first+1, "exactly the rows of the range are appended")
	vzAssert(vzSameCells(got.cells[:n], wantD.cells), "earlier rows are unchanged")
	vzAssert(vzSameStrs(got.names, wantD.names) && vzSameStrs(got.types, wantD.types) && got.name == wantD.name && vzSameStrs(got.keys, wantD.keys), "appending rows keeps the columns and sort keys")
	for r := n; r < len(got.cells); r++ {
		for j := range dcols {
			if from[j] < 0 {
				vzAssert(vzZero(dtypes[j], got.cells[r][j]), "a column the source lacks is filled with zero values")
			} else {
				vzAssert(vzSame(got.cells[r][j], wantS.cells[first+r-n][from[j]]), "each appended cell is the source's cell of the same column name")
			}
		}
	}
	vzInv(d, "after AppendRowsFromTable")
	vzReach("appended")
}

func vzC31_rowsSame() {
	vzC31rows([]string{"a", "s"}, []string{"int64", "string"}, []string{"a", "s"}, []string{"int64", "string"}, 2+vzTier())
}
func vzC31_rowsReordered() {
	vzC31rows([]string{"a", "s", "f"}, []string{"int64", "string", "float32"}, []string{"f", "a"}, []string{"float32", "int64"}, 2+vzTier())
}
func vzC31_rowsAlias() {
	vzC31rows([]string{"a", "s"}, []string{"byte", "rune"}, []string{"s", "a"}, []string{"int32", "uint8"}, 2)
}
func vzC31_rowsClash() {
	vzC31rows([]string{"a", "s"}, []string{"int64", "string"}, []string{"s", "a"}, []string{"string", "int32"}, 2)
}
func vzC31_rowsMissing() {
	vzC31rows([]string{"a"}, []string{"int64"}, []string{"a", "b"}, []string{"int64", "bool"}, 2)
}
func vzC31_rowsEmpty() {
	vzC31rows([]string{"a"}, []string{"int64"}, []string{"a"}, []string{"int64"}, 0)
}

// every column type is transferred
func vzC31_rowsTypes() {
	s := vzBuild("S", vzNames20, vzAllTypes, 1, 2)
	d, err := NewTableFromMetadata("D", vzNames20, vzAllTypes)
	vzMust(err, "NewTableFromMetadata")
	want := vzSnap(s)
	vzMust(d.AppendRowsFromTable(s, 0, 0), "AppendRowsFromTable")
	vzAssert(vzSameCells(vzSnap(d).cells, want.cells), "cells of every type are transferred")
	vzReach("end")
}

// a table's own rows appended to itself
func vzC31_rowsSelf() {
	t := vzBuild("T", []string{"a", "s"}, []string{"int64", "string"}, 2, 1)
	want := vzSnap(t)
	first, last := vzInt("first"), vzInt("last")
	vzAssume(first <= last)
	err := t.AppendRowsFromTable(t, first, last)
	if first < 0 || last > 1 {
		vzAssert(err != nil, "a range outside the source is refused (source and destination the same table)")
		vzAssert(vzSnapSame(vzSnap(t), want), "refused append of own rows changes nothing")
		return
	}
	vzMust(err, "AppendRowsFromTable")
	want.cells = append(want.cells, want.cells[first:last+1]...)
	vzAssert(vzSnapSame(vzSnap(t), want), "own rows are appended exactly")
	vzReach("end")
}

func vzC31_newTable() {
	rows := 3
	s := vzBuild("S", []string{"a", "s", "b"}, []string{"int16", "string", "[]byte"}, rows, 1)
	want := vzSnap(s)
	first, last := vzInt("first"), vzInt("last")
	vzAssume(first <= last)
	t, err := s.NewTableFromRows("N", first, last)
	vzAssert(vzSnapSame(vzSnap(s), want), "making a table from rows leaves the source unchanged")
	if first < 0 || last >= rows {
		vzAssert(err != nil, "a range outside the source is refused")
		return
	}
	vzMust(err, "NewTableFromRows")
	exp := &vzSnapT{name: "N", names: want.names, types: want.types, cells: want.cells[first : last+1]}
	vzAssert(vzSnapData(vzSnap(t), exp), "the new table has exactly the columns and the rows of the range")
	_, err = s.NewTableFromRows("not ok", first, last)
	vzAssert(err != nil, "an invalid name is refused")
	vzReach("end")
}

// columns: present, absent, clashing, in every arrangement
func vzC31_cols() {
	d := vzBuild("D", []string{"a", "s"}, []string{"int64", "string"}, 2, 1)
	vzMust(d.SetSortKeys("s", "a"), "SetSortKeys")
	names := []string{"a", "s", "n", "m"}
	var sc, st []string
	n := vzRange("ncols", 0, 2+vzTier())
	clash := false
	for i := 0; i < n; i++ {
		c := names[vzRange("col", 0, 3)]
		for _, o := range sc {
			vzAssume(o != c)
		}
		ty := []string{"int64", "string", "*Table"}[vzRange("type", 0, 2)]
		sc, st = append(sc, c), append(st, ty)
		clash = clash || c == "a" && ty != "int64" || c == "s" && ty != "string"
	}
	s := vzBuild("S", sc, st, 1, 1)
	wantD, wantS := vzSnap(d), vzSnap(s)
	err := d.AppendColsFromTable(s)
	vzAssert(vzSnapSame(vzSnap(s), wantS), "appending columns leaves the source unchanged")
	if clash {
		vzAssert(err != nil, "a column of the same name but another type is refused")
		vzAssert(vzSnapSame(vzSnap(d), wantD), "a refused append of columns changes nothing")
		vzReach("refused")
		return
	}
	vzMust(err, "AppendColsFromTable")
	got := vzSnap(d)
	exp := *wantD
	exp.names, exp.types = append([]string{}, wantD.names...), append([]string{}, wantD.types...)
	for i, c := range sc {
		if c != "a" && c != "s" {
			exp.names, exp.types = append(exp.names, c), append(exp.types, st[i])
		}
	}
	vzAssert(vzSameStrs(got.names, exp.names) && vzSameStrs(got.types, exp.types), "exactly the missing columns are appended, in order")
	vzAssert(len(got.cells) == 2, "appending columns keeps the rows")
	for r := range got.cells {
		vzAssert(vzSameCells([][]interface{}{got.cells[r][:2]}, [][]interface{}{wantD.cells[r]}), "appending columns leaves the existing cells")
		for c := 2; c < len(exp.types); c++ {
			vzAssert(vzZero(exp.types[c], got.cells[r][c]), "an appended column holds zero values")
		}
	}
	vzAssert(vzSameStrs(got.keys, wantD.keys), "appending columns keeps the sort keys")
	vzInv(d, "after AppendColsFromTable")
	vzReach("appended")
}

func vzC31_nil() {
	t := vzBuild("T", []string{"a"}, []string{"int64"}, 1, 1)
	want := vzSnap(t)
	vzAssert(t.AppendRowsFromTable(nil, vzInt("f"), vzInt("l")) != nil, "a nil source is refused")
	vzAssert(t.AppendColsFromTable(nil) != nil, "a nil source is refused")
	vzAssert(vzSnapSame(vzSnap(t), want), "nothing is changed")
	vzReach("end")
}

// many rows and columns, in another order
func vzC31_big() {
	types, rows := vzBigShape("big", vzAllTypes)
	s := vzBig("S", types, rows)
	n := len(types)
	var dc, dt []string
	from := []int{}
	for c := 0; c < n; c++ { // 7 is coprime to every number of columns
		i := (c*7 + 1) % n
		dc, dt, from = append(dc, "c"+vzDec(i)), append(dt, types[i]), append(from, i)
		if c%5 == 2 {
			dc, dt, from = append(dc, "own"+vzDec(c)), append(dt, "int"), append(from, -1)
		}
	}
	d := vzBigNamed("D", dc, dt, 2)
	before, src := vzSnap(d), vzSnap(s)
	first := vzRange("first", 0, rows-1)
	last := vzRange("last", first, rows-1)
	vzAssume(vzOr(first < 2, vzOr(last == rows-1, last == first)))
	vzMust(d.AppendRowsFromTable(s, first, last), "AppendRowsFromTable of rows that fit")
	vzAssert(vzSnapSame(vzSnap(s), src), "appending from a table leaves the source unchanged")
	got := vzSnap(d)
	vzAssert(len(got.cells) == 2+last-first+1, "exactly the rows of the range are appended")
	vzAssert(vzSameCells(got.cells[:2], before.cells), "earlier rows are unchanged")
	for r := 2; r < len(got.cells); r++ {
		for c := range dc {
			if from[c] < 0 {
				vzAssert(vzZero(dt[c], got.cells[r][c]), "a column the source lacks is filled with zero values")
			} else {
				vzAssert(vzSame(got.cells[r][c], src.cells[first+r-2][from[c]]), "each appended cell is the source's cell of the same column name")
			}
		}
	}
	sub, err := s.NewTableFromRows("N", first, last)
	vzMust(err, "NewTableFromRows")
	vzAssert(vzSnapData(vzSnap(sub), &vzSnapT{name: "N", names: src.names, types: src.types, cells: src.cells[first : last+1]}), "the new table has exactly the columns and the rows of the range")
	vzReach("end")
}
