//go:build go1.21

package gotables

// Nest: each row of the table gets exactly the rows of the other table with its keys.

// vzC33tab: rows of arbitrary keys, numbered in col tag.
func vzC33tab(name, tag string, keys, types []string, rows int) *Table {
	t := vzBuild(name, append(append([]string{}, keys...), tag), append(append([]string{}, types...), "int"), 0, 1)
	vzMust(t.AppendRows(rows), "AppendRows")
	for r := 0; r < rows; r++ {
		for c := range keys {
			vzMust(t.SetValByColIndex(c, r, vzSortCell(types[c], name+"."+keys[c], 1)), "SetVal")
		}
		vzMust(t.SetInt(tag, r, r+1), "SetInt")
	}
	return t
}

func vzC33nest(keys, types []string, rows1, rows2 int) {
	t := vzC33tab("T", "t", keys, types, rows1)
	n := vzC33tab("N", "n", keys, types, rows2)
	who := vzRange("keysOf", 0, 2)
	if who != 1 {
		vzMust(t.SetSortKeys(keys...), "SetSortKeys")
		if vzRange("rev", 0, 1) == 1 {
			vzMust(t.SetSortKeysReverse(keys[0]), "SetSortKeysReverse")
		}
	}
	if who != 0 {
		vzMust(n.SetSortKeys(keys...), "SetSortKeys")
		if vzRange("revn", 0, 1) == 1 {
			vzMust(n.SetSortKeysReverse(keys[len(keys)-1]), "SetSortKeysReverse")
		}
	}
	before, nbefore := vzSnap(t), vzSnap(n)
	vzMust(t.Nest(n, "nested"), "Nest of tables with the same keys")
	after, nafter := vzSnap(t), vzSnap(n)

	// both tables have the rows they had, sorted, and the table one column more
	nk := len(keys)
	vzAssert(vzSameStrs(after.names, append(append([]string{}, before.names...), "nested")), "one more column")
	vzAssert(after.types[nk+1] == "string", "the nested tables are strings")
	vzAssert(vzSameStrs(nafter.names, nbefore.names), "the other table keeps its columns")
	vzC33perm(before, after, nk, "the table keeps its rows")
	vzC33perm(nbefore, nafter, nk, "the other table keeps its rows")
	for r := 0; r+1 < len(after.cells); r++ {
		cmp, err := t.CompareRows(r, r+1)
		vzAssert(err == nil && cmp <= 0, "the table is sorted")
	}

	for r := range after.cells {
		s, ok := after.cells[r][nk+1].(string)
		vzAssert(ok, "a nested table is a string")
		in, err := NewTableFromString(s)
		vzMust(err, "a nested table can be parsed")
		got := vzSnap(in)
		vzAssert(got.name == "nested", "a nested table has the name of its column")
		vzAssert(vzSameStrs(got.names, nbefore.names) && vzSameStrs(got.types, nbefore.types), "a nested table has the columns of the other table")
		seen := make([]int, rows2)
		for _, row := range got.cells {
			i := row[nk].(int) - 1
			vzAssert(i >= 0 && i < rows2, "a nested row is a row of the other table")
			seen[i]++
			for c := 0; c < nk; c++ {
				vzAssert(vzSame(row[c], nbefore.cells[i][c]), "a nested row is whole")
			}
		}
		for i := range nbefore.cells {
			match := true
			for c := 0; c < nk; c++ {
				match = vzAnd(match, vzEq(after.cells[r][c], nbefore.cells[i][c]))
			}
			vzAssert(match == (seen[i] == 1), "exactly the rows with the keys of the row are nested")
			vzAssert(seen[i] <= 1, "no row is nested twice in a cell")
		}
	}
	vzReach("end")
}

// vzC33perm: the same rows, by their number, whole.
func vzC33perm(before, after *vzSnapT, nk int, msg string) {
	vzAssert(len(before.cells) == len(after.cells), msg)
	seen := make([]bool, len(before.cells))
	for _, row := range after.cells {
		i := row[nk].(int) - 1
		vzAssert(i >= 0 && i < len(seen) && !seen[i], msg)
		seen[i] = true
		for c := 0; c < nk; c++ {
			vzAssert(vzSame(row[c], before.cells[i][c]), msg)
		}
	}
}

func vzC33_int8() {
	vzC33nest([]string{"k"}, []string{"int8"}, vzRange("rows1", 0, 2), vzRange("rows2", 0, 2+vzTier()))
}
func vzC33_bool() {
	vzC33nest([]string{"k"}, []string{"bool"}, vzRange("rows1", 1, 2), vzRange("rows2", 2, 3))
}
func vzC33_string() { vzC33nest([]string{"k"}, []string{"string"}, 1+vzTier(), 2) }
func vzC33_uint64() { vzC33nest([]string{"k"}, []string{"uint64"}, 1, 2) }
func vzC33_two() {
	vzC33nest([]string{"k", "l"}, []string{"bool", "bool"}, 2, 2)
}

// what cannot be nested is refused, and leaves columns and cells as they were
func vzC33_refused() {
	t := vzC33tab("T", "t", []string{"k"}, []string{"int8"}, 2)
	n := vzC33tab("N", "n", []string{"k"}, []string{"int8"}, 2)
	name := "nested"
	switch vzRange("how", 0, 6) {
	case 0: // no sort keys at all
	case 1: // the key is missing from the other table
		vzMust(t.SetSortKeys("t"), "SetSortKeys")
	case 2: // the key is missing from the table
		vzMust(n.SetSortKeys("n"), "SetSortKeys")
	case 3: // another type
		n = vzC33tab("N", "n", []string{"k"}, []string{"int16"}, 2)
		vzMust(t.SetSortKeys("k"), "SetSortKeys")
	case 4:
		vzMust(t.SetSortKeys("k"), "SetSortKeys")
		name = []string{"", "int", "k", "t", "a b"}[vzRange("name", 0, 4)]
	case 5:
		vzMust(t.SetSortKeys("k"), "SetSortKeys")
		n = nil
	case 6:
		var nilT *Table
		vzAssert(nilT.Nest(n, name) != nil, "nesting in a nil table is refused")
	}
	before := vzSnap(t)
	vzAssert(t.Nest(n, name) != nil, "refused")
	after := vzSnap(t)
	vzAssert(vzSameStrs(before.names, after.names) && vzSameStrs(before.types, after.types), "a refused nesting leaves the columns")
	vzC33perm(before, after, 1, "a refused nesting leaves the rows")
	vzReach("refused")
}

// many rows: fixed keys, one arbitrary
func vzC33_big() {
	mk := func(name, tag string, rows, mul int) *Table {
		t := vzBigNamed(name, []string{"k", tag, "s"}, []string{"int8", "int", "string"}, rows)
		for r := 0; r < rows; r++ {
			vzMust(t.SetInt8("k", r, int8((r*mul)%7)), "SetInt8")
			vzMust(t.SetInt(tag, r, r+1), "SetInt")
		}
		return t
	}
	rows1, rows2 := 4+vzTier()*8, 12
	t, n := mk("T", "t", rows1, 3), mk("N", "n", rows2, 5)
	vzMust(t.SetInt8("k", vzRange("at", 0, rows1-1), vzInt8("x")), "SetInt8")
	vzMust(t.SetSortKeys("k"), "SetSortKeys")
	if vzRange("rev", 0, 1) == 1 {
		vzMust(t.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	before, nbefore := vzSnap(t), vzSnap(n)
	vzMust(t.Nest(n, "nested"), "Nest of tables with the same keys")
	after := vzSnap(t)
	vzAssert(len(after.cells) == rows1, "the table keeps its rows")
	for _, row := range after.cells {
		id := row[1].(int) - 1
		vzAssert(vzSameCells([][]interface{}{row[:3]}, [][]interface{}{before.cells[id]}), "the table keeps its rows whole")
		in, err := NewTableFromString(row[3].(string))
		vzMust(err, "a nested table can be parsed")
		got := vzSnap(in)
		seen := make([]int, rows2)
		for _, nrow := range got.cells {
			i := nrow[1].(int) - 1
			vzAssert(i >= 0 && i < rows2, "a nested row is a row of the other table")
			seen[i]++
			vzAssert(vzSameCells([][]interface{}{nrow}, [][]interface{}{nbefore.cells[i]}), "a nested row is whole")
		}
		for i := range nbefore.cells {
			vzAssert((seen[i] == 1) == vzEq(row[0], nbefore.cells[i][0]) && seen[i] <= 1, "exactly the rows with the keys of the row are nested")
		}
	}
	vzReach("end")
}

// many keys, neighbouring rows that differ in one of them only
func vzC33_many() {
	nk := []int{2, 5, 9}[vzRange("keys", 0, 1+vzTier())]
	at := []int{0, 1, nk - 1}[vzRange("at", 0, 2)]
	rows := 2
	t, keys := vzManyKeys("T", "t", nk, at, rows, true)
	n, _ := vzManyKeys("N", "n", nk, at, rows, true)
	// fixed keys in the other table, so that each row of the table finds one, none or both
	for r := 0; r < rows; r++ {
		vzMust(n.SetVal(keys[at], r, vzBigCell(vzManyTypes[at], r, at)), "SetVal")
	}
	vzManyRev(t, keys, at)
	before, nbefore := vzSnap(t), vzSnap(n)
	vzMust(t.Nest(n, "nested"), "Nest of tables with the same keys")
	after := vzSnap(t)
	vzAssert(len(after.cells) == rows, "the table keeps its rows")
	for _, row := range after.cells {
		id := row[0].(int)
		vzAssert(vzSameCells([][]interface{}{row[:nk+1]}, [][]interface{}{before.cells[id]}), "the table keeps its rows whole")
		in, err := NewTableFromString(row[nk+1].(string))
		vzMust(err, "a nested table can be parsed")
		got := vzSnap(in)
		seen := make([]int, rows)
		for _, nrow := range got.cells {
			i := nrow[0].(int)
			vzAssert(i >= 0 && i < rows, "a nested row is a row of the other table")
			seen[i]++
			vzAssert(vzSameCells([][]interface{}{nrow}, [][]interface{}{nbefore.cells[i]}), "a nested row is whole")
		}
		for i := range nbefore.cells {
			eq := true
			for k := 1; k <= nk; k++ {
				eq = vzAnd(eq, vzEq(row[k], nbefore.cells[i][k]))
			}
			vzAssert(vzAnd((seen[i] == 1) == eq, seen[i] <= 1), "exactly the rows with the keys of the row are nested")
		}
	}
	vzReach("end")
}
