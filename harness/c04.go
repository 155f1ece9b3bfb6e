//go:build go1.21

package gotables

// Columns: names, types and cells stay together.

func vzC04table() (*Table, *vzSnapT) {
	t := vzBuild("T", []string{"a", "b", "c"}, []string{"int8", "string", "float64"}, 2, 1)
	vzMust(t.SetSortKeys("c", "a"), "SetSortKeys")
	return t, vzSnap(t)
}

// vzLookups: names, types and indices agree through every query.
func vzLookups(t *Table, want *vzSnapT) {
	n, ty, err := t.GetColInfoAsSlices()
	vzMust(err, "GetColInfoAsSlices")
	vzAssert(vzSameStrs(n, want.names) && vzSameStrs(ty, want.types), "GetColInfoAsSlices lists the columns")
	ct, err := t.GetColInfoAsTable()
	vzMust(err, "GetColInfoAsTable")
	vzAssert(ct.RowCount() == len(want.names) && t.ColCount() == len(want.names), "column count")
	for c := range want.names {
		ix, err := t.ColIndex(want.names[c])
		vzAssert(err == nil && ix == c, "ColIndex leads to the column")
		y, err := t.ColType(want.names[c])
		vzAssert(err == nil && y == want.types[c], "ColType of the column")
		nm, err := t.ColNameByColIndex(c)
		vzAssert(err == nil && nm == want.names[c], "ColNameByColIndex of the column")
		has, err := t.HasCol(want.names[c])
		vzAssert(has && err == nil, "HasCol of the column")
		has, err = t.HasColByColIndex(c)
		vzAssert(has && err == nil, "HasColByColIndex of the column")
		s, err := ct.GetString("colName", c)
		vzAssert(err == nil && s == want.names[c], "GetColInfoAsTable names")
		s, err = ct.GetString("colType", c)
		vzAssert(err == nil && s == want.types[c], "GetColInfoAsTable types")
		i, err := ct.GetInt("index", c)
		vzAssert(err == nil && i == c, "GetColInfoAsTable index")
		for r := range want.cells {
			v, err := t.GetVal(want.names[c], r)
			vzMust(err, "GetVal by name")
			vzAssert(vzSame(v, want.cells[r][c]), "cell found under its column's name")
		}
	}
}

func vzC04_appendCol() {
	t, want := vzC04table()
	name := []string{"d", "a", "", "int", "b c", "_9"}[vzRange("name", 0, 5)]
	ti := vzRange("type", 0, len(vzAllTypes))
	typ := "complex64"
	if ti < len(vzAllTypes) {
		typ = vzAllTypes[ti]
	}
	err := t.AppendCol(name, typ)
	if typ == "complex64" || (name != "d" && name != "_9") {
		vzAssert(err != nil, "an invalid or duplicate column is refused")
		vzAssert(vzSnapSame(vzSnap(t), want), "refused AppendCol changes nothing")
		return
	}
	vzMust(err, "AppendCol")
	got := vzSnap(t)
	for r := range got.cells {
		vzAssert(len(got.cells[r]) == 4 && vzZero(typ, got.cells[r][3]), "a new column holds the zero value in every row")
		want.cells[r] = append(want.cells[r], got.cells[r][3])
	}
	want.names = append(want.names, name)
	want.types = append(want.types, typ)
	if typ != "*Table" && typ != "time.Time" {
		vzAssert(vzSnapSame(got, want), "AppendCol keeps the other columns")
		vzLookups(t, want)
	}
	// the new cells belong to their own rows
	v := vzCellN(typ, "v", 1)
	vzMust(t.SetVal(name, 1, v), "SetVal in the new column")
	w, err := t.GetVal(name, 0)
	vzMust(err, "GetVal in the new column")
	vzAssert(vzZero(typ, w), "new cells are separate")
	vzReach("end")
}

func vzC04without(s *vzSnapT, k int) *vzSnapT {
	w := &vzSnapT{name: s.name, shape: s.shape}
	for c := range s.names {
		if c != k {
			w.names = append(w.names, s.names[c])
			w.types = append(w.types, s.types[c])
		}
	}
	for _, row := range s.cells {
		var nr []interface{}
		for c := range row {
			if c != k {
				nr = append(nr, row[c])
			}
		}
		w.cells = append(w.cells, nr)
	}
	for i := range s.keys {
		if s.keys[i] != s.names[k] {
			w.keys = append(w.keys, s.keys[i])
			w.revs = append(w.revs, s.revs[i])
		}
	}
	return w
}

func vzC04_deleteColByColIndex() {
	t, want := vzC04table()
	i := vzInt("col")
	err := t.DeleteColByColIndex(i)
	if i < 0 || i > 2 {
		vzAssert(err != nil, "an unknown column is refused")
		vzAssert(vzSnapSame(vzSnap(t), want), "refused delete changes nothing")
		return
	}
	vzMust(err, "DeleteColByColIndex")
	w := vzC04without(want, i)
	vzAssert(vzSnapSame(vzSnap(t), w), "exactly the column is removed")
	vzLookups(t, w)
	has, err := t.HasCol(want.names[i])
	vzAssert(!has && err != nil, "the deleted column is gone")
	vzReach("end")
}

func vzC04_deleteCol() {
	t, want := vzC04table()
	name := vzStr("name", vzRange("len", 0, 2))
	err := t.DeleteCol(name)
	for i := range want.names {
		if name == want.names[i] {
			vzMust(err, "DeleteCol")
			w := vzC04without(want, i)
			vzAssert(vzSnapSame(vzSnap(t), w), "exactly the column is removed")
			vzLookups(t, w)
			// a column of the same name may be added again, with any type
			vzMust(t.AppendCol(name, "bool"), "AppendCol of a deleted name")
			w.names, w.types = append(w.names, name), append(w.types, "bool")
			for r := range w.cells {
				w.cells[r] = append(w.cells[r], false)
			}
			vzAssert(vzSnapSame(vzSnap(t), w), "the column added again starts from zero")
			vzReach("deleted")
			return
		}
	}
	vzAssert(err != nil, "an unknown column is refused")
	vzAssert(vzSnapSame(vzSnap(t), want), "refused delete changes nothing")
	vzReach("refused")
}

func vzC04rename(byIndex bool) {
	t, want := vzC04table()
	to := []string{"d", "a", "b", "c", "", "int", "b c"}[vzRange("to", 0, 6)]
	i := -1
	var err error
	if byIndex {
		i = vzInt("col")
		err = t.RenameColByColIndex(i, to)
		if i < 0 || i > 2 {
			i = -1
		}
	} else {
		from := vzStr("from", 1)
		err = t.RenameCol(from, to)
		for c := range want.names {
			if want.names[c] == from {
				i = c
			}
		}
	}
	if i < 0 || to != "d" {
		// renaming a column to its own name may be refused or accepted: it must change nothing either way
		if i < 0 || to != want.names[i] {
			vzAssert(err != nil, "an unknown, duplicate or invalid name is refused")
		}
		vzAssert(vzSnapSame(vzSnap(t), want), "refused rename changes nothing")
		return
	}
	vzMust(err, "rename")
	old := want.names[i]
	want.names = append([]string{}, want.names...)
	want.names[i] = to
	for k := range want.keys {
		if want.keys[k] == old {
			want.keys[k] = to
		}
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "rename changes exactly the name")
	vzLookups(t, want)
	has, err := t.HasCol(old)
	vzAssert(!has && err != nil, "the old name is gone")
	vzReach("end")
}

func vzC04_renameCol()           { vzC04rename(false) }
func vzC04_renameColByColIndex() { vzC04rename(true) }

func vzC04permuted(s *vzSnapT, o []int) *vzSnapT {
	w := &vzSnapT{name: s.name, keys: s.keys, revs: s.revs, shape: s.shape}
	for _, k := range o {
		w.names = append(w.names, s.names[k])
		w.types = append(w.types, s.types[k])
	}
	for _, row := range s.cells {
		var nr []interface{}
		for _, k := range o {
			nr = append(nr, row[k])
		}
		w.cells = append(w.cells, nr)
	}
	return w
}

func vzC04isPerm(o []int, n int) bool {
	if len(o) != n {
		return false
	}
	seen := make([]bool, n)
	for _, k := range o {
		if k < 0 || k >= n || seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

func vzC04reorder(how int) {
	t, want := vzC04table()
	n := 3
	if vzRange("short", 0, 1) == 1 {
		n = vzRange("n", 0, 4)
	}
	var o []int
	var on []string
	for i := 0; i < n; i++ {
		k := 0
		if how < 2 {
			k = vzInt("i")
			vzAssume(vzAnd(k >= -1, k <= 3)) // outside -1..3 behaves as at the ends: sorted and compared with 0..n-1
		} else {
			k = vzRange("i", 0, 3)
		}
		o = append(o, k)
		on = append(on, []string{"a", "b", "c", "zz"}[vzIdx(k)])
	}
	arg := append([]int{}, o...)
	argN := append([]string{}, on...)
	var err error
	var nt *Table
	switch how {
	case 0:
		err = t.ReorderColsByColIndex(arg...)
	case 1:
		nt, err = t.NewTableReorderColsByColIndex(arg...)
	case 2:
		err = t.ReorderCols(argN...)
	case 3:
		nt, err = t.NewTableReorderCols(argN...)
	}
	for i := range o {
		if how < 2 {
			vzAssert(arg[i] == o[i], "the order argument is not changed")
		} else {
			vzAssert(argN[i] == on[i], "the order argument is not changed")
		}
	}
	if !vzC04isPerm(o, 3) {
		vzAssert(err != nil, "an order that is not a permutation of the columns is refused")
		vzAssert(vzSnapSame(vzSnap(t), want), "refused reorder changes nothing")
		return
	}
	vzMust(err, "reorder")
	w := vzC04permuted(want, o)
	if nt != nil {
		vzAssert(vzSnapSame(vzSnap(t), want), "the original table is unchanged")
		vzAssert(vzSnapData(vzSnap(nt), w), "the new table has the columns in the order asked for")
		vzLookups(nt, w)
		vzMust(nt.SetInt8("a", 0, vzInt8("n")), "SetInt8")
		vzAssert(vzSnapSame(vzSnap(t), want), "the new table is independent")
	} else {
		vzAssert(vzSnapSame(vzSnap(t), w), "columns are in the order asked for, with their cells")
		vzLookups(t, w)
	}
	vzReach("end")
}

func vzIdx(k int) int {
	if k < 0 || k > 3 {
		return 3
	}
	return k
}

// vzC04wide: the same on a wider table, for every permutation of its columns.
func vzC04wide(how int) {
	names := []string{"a", "b", "c", "d", "e"}
	n := 4 + vzTier()
	t := vzBuild("T", names[:n], []string{"int8", "string", "int8", "float64", "bool"}[:n], 2, 1)
	vzMust(t.SetSortKeys("c", "a"), "SetSortKeys")
	want := vzSnap(t)
	var o []int
	var on []string
	for i := 0; i < n; i++ {
		k := vzRange("i", 0, n-1)
		for _, prev := range o {
			vzAssume(k != prev)
		}
		o = append(o, k)
		on = append(on, names[k])
	}
	var err error
	var nt *Table
	switch how {
	case 0:
		err = t.ReorderColsByColIndex(o...)
	case 1:
		nt, err = t.NewTableReorderColsByColIndex(o...)
	case 2:
		err = t.ReorderCols(on...)
	case 3:
		nt, err = t.NewTableReorderCols(on...)
	}
	vzMust(err, "reorder")
	w := vzC04permuted(want, o)
	if nt != nil {
		vzAssert(vzSnapSame(vzSnap(t), want), "the original table is unchanged")
		vzAssert(vzSnapData(vzSnap(nt), w), "the new table has the columns in the order asked for")
		vzLookups(nt, w)
	} else {
		vzAssert(vzSnapSame(vzSnap(t), w), "columns are in the order asked for, with their cells")
		vzLookups(t, w)
	}
	vzReach("end")
}

func vzC04_wideReorder() { vzC04wide(vzRange("how", 0, 3)) }

// vzC04_wideDelete: deleting and swapping columns of a wider table.
func vzC04_wideDelete() {
	names := []string{"a", "b", "c", "d", "e"}
	t := vzBuild("T", names, []string{"int8", "string", "int8", "float64", "bool"}, 2, 1)
	vzMust(t.SetSortKeys("c", "a"), "SetSortKeys")
	want := vzSnap(t)
	i, j := vzRange("i", 0, 4), vzRange("j", 0, 4)
	vzAssume(i != j)
	by := vzRange("by", 0, 1) == 1
	if vzRange("swap", 0, 1) == 1 {
		if by {
			vzMust(t.SwapColsByColIndex(i, j), "SwapColsByColIndex")
		} else {
			vzMust(t.SwapCols(names[i], names[j]), "SwapCols")
		}
		o := []int{0, 1, 2, 3, 4}
		o[i], o[j] = j, i
		w := vzC04permuted(want, o)
		vzAssert(vzSnapSame(vzSnap(t), w), "exactly the two columns changed places")
		vzLookups(t, w)
		vzReach("end")
		return
	}
	w := vzC04without(want, i)
	if j > i {
		j--
	}
	if by {
		vzMust(t.DeleteColByColIndex(i), "DeleteColByColIndex")
		vzMust(t.DeleteColByColIndex(j), "DeleteColByColIndex")
	} else {
		vzMust(t.DeleteCol(names[i]), "DeleteCol")
		vzMust(t.DeleteCol(w.names[j]), "DeleteCol")
	}
	w = vzC04without(w, j)
	vzAssert(vzSnapSame(vzSnap(t), w), "exactly the columns are removed")
	vzLookups(t, w)
	vzReach("end")
}

func vzC04_reorderByColIndex()    { vzC04reorder(0) }
func vzC04_newReorderByColIndex() { vzC04reorder(1) }
func vzC04_reorder()              { vzC04reorder(2) }
func vzC04_newReorder()           { vzC04reorder(3) }

func vzC04swap(byIndex bool) {
	t, want := vzC04table()
	i, j := 0, 0
	var err error
	if byIndex {
		i, j = vzInt("i"), vzInt("j")
		err = t.SwapColsByColIndex(i, j)
	} else {
		i, j = vzRange("i", 0, 3), vzRange("j", 0, 3)
		nm := []string{"a", "b", "c", "zz"}
		err = t.SwapCols(nm[i], nm[j])
	}
	if i < 0 || i > 2 || j < 0 || j > 2 || i == j {
		if i != j || i < 0 || i > 2 {
			vzAssert(err != nil, "swapping an unknown column is refused")
		}
		vzAssert(vzSnapSame(vzSnap(t), want), "refused swap changes nothing")
		return
	}
	vzMust(err, "swap")
	o := []int{0, 1, 2}
	o[i], o[j] = o[j], o[i]
	w := vzC04permuted(want, o)
	vzAssert(vzSnapSame(vzSnap(t), w), "swap exchanges the two columns with their cells")
	vzLookups(t, w)
	vzReach("end")
}

func vzC04_swapCols()           { vzC04swap(false) }
func vzC04_swapColsByColIndex() { vzC04swap(true) }

// Two column operations in a row keep columns and cells together.
func vzC04_two() {
	t, want := vzC04table()
	cur := want
	for k := 0; k < 2; k++ {
		switch vzRange("op", 0, 3) {
		case 0:
			i := vzRange("col", 0, len(cur.names)-1)
			vzMust(t.DeleteColByColIndex(i), "DeleteColByColIndex")
			cur = vzC04without(cur, i)
		case 1:
			nm := []string{"x", "y"}[k]
			vzMust(t.AppendCol(nm, "uint16"), "AppendCol")
			cur.names, cur.types = append(cur.names, nm), append(cur.types, "uint16")
			for r := range cur.cells {
				v := vzUint16("v")
				vzMust(t.SetUint16(nm, r, v), "SetUint16")
				cur.cells[r] = append(cur.cells[r], v)
			}
		case 2:
			i := vzRange("i", 0, len(cur.names)-2)
			j := vzRange("j", i+1, len(cur.names)-1)
			vzMust(t.SwapColsByColIndex(i, j), "SwapColsByColIndex")
			o := []int{0, 1, 2, 3, 4}[:len(cur.names)]
			o[i], o[j] = o[j], o[i]
			cur = vzC04permuted(cur, o)
		case 3:
			o := []int{1, 2, 3, 4, 5}[:len(cur.names)]
			o[len(o)-1] = 0
			vzMust(t.ReorderColsByColIndex(o...), "ReorderColsByColIndex")
			cur = vzC04permuted(cur, o)
		}
		vzAssert(vzSnapSame(vzSnap(t), cur), "column operations keep names, types and cells together")
	}
	vzLookups(t, cur)
	vzReach("end")
}

func vzC04_orderByKeys() {
	t := vzBuild("T", []string{"a", "b", "c"}, []string{"int8", "string", "float64"}, 2, 1)
	o := [][]string{{}, {"a"}, {"b"}, {"c"}, {"b", "a"}, {"c", "a"}, {"c", "b"}, {"a", "b", "c"}, {"c", "b", "a"}, {"b", "c", "a"}}[vzRange("keys", 0, 9)]
	vzMust(t.SetSortKeys(o...), "SetSortKeys")
	want := vzSnap(t)
	vzMust(t.OrderColsBySortKeys(), "OrderColsBySortKeys")
	var p []int
	used := map[string]bool{}
	for _, k := range o {
		for c, n := range want.names {
			if n == k {
				p = append(p, c)
			}
		}
		used[k] = true
	}
	for c, n := range want.names {
		if !used[n] {
			p = append(p, c)
		}
	}
	w := vzC04permuted(want, p)
	vzAssert(vzSnapSame(vzSnap(t), w), "sort key columns first, in key order, then the rest")
	vzLookups(t, w)
	vzReach("end")
}

// many rows and many columns: names, types and cells stay together in all of them
func vzC04_big() {
	s := [][2]int{{17, 4}, {33, 3}, {3, 18}, {66, 3}, {9, 40}}[vzRange("shape", 0, 2+2*vzTier())]
	rows, n := s[0], s[1]
	t := vzBig("T", vzBigTypes([]string{"int8", "string", "uint64", "bool", "float32", "[]byte", "int", "time.Time"}, vzRange("off", 0, 1), n), rows)
	vzMust(t.SetSortKeys("c2", "c0"), "SetSortKeys")
	vzMust(t.SetSortKeysReverse("c0"), "SetSortKeysReverse")
	want := vzSnap(t)
	edge := []int{0, 1, n / 2, n - 1}
	i, j := edge[vzRange("i", 0, 3)], edge[vzRange("j", 0, 3)]
	name := func(k int) string { return "c" + vzDec(k) }
	id := func() (o []int) {
		for k := 0; k < n; k++ {
			o = append(o, k)
		}
		return
	}
	rot := func() (o []int) { // k goes to 0, the rest turned round
		o = append(o, i)
		for k := n - 1; k >= 0; k-- {
			if k != i {
				o = append(o, k)
			}
		}
		return
	}
	op := vzRange("op", 0, 11)
	if op > 3 {
		vzAssume(j == 0)
	} else {
		vzAssume(i != j)
	}
	w := want
	switch op {
	case 0, 1, 2, 3:
		o := id()
		o[i], o[j] = j, i
		w = vzC04permuted(want, o)
		switch op {
		case 0:
			vzMust(t.SwapCols(name(i), name(j)), "SwapCols")
		case 1:
			vzMust(t.SwapColsByColIndex(i, j), "SwapColsByColIndex")
		case 2: // there and back again
			vzMust(t.SwapColsByColIndex(i, j), "SwapColsByColIndex")
			vzMust(t.SwapColsByColIndex(j, i), "SwapColsByColIndex")
			w = want
		case 3: // delete two
			vzMust(t.DeleteCol(name(i)), "DeleteCol")
			k := j
			if j > i {
				k--
			}
			vzMust(t.DeleteColByColIndex(k), "DeleteColByColIndex")
			w = vzC04without(vzC04without(want, i), k)
		}
	case 4:
		vzMust(t.ReorderColsByColIndex(rot()...), "ReorderColsByColIndex")
		w = vzC04permuted(want, rot())
	case 5:
		var names []string
		for _, k := range rot() {
			names = append(names, name(k))
		}
		vzMust(t.ReorderCols(names...), "ReorderCols")
		w = vzC04permuted(want, rot())
	case 6:
		nt, err := t.NewTableReorderColsByColIndex(rot()...)
		vzMust(err, "NewTableReorderColsByColIndex")
		vzAssert(vzSnapSame(vzSnap(t), want), "the original table is unchanged")
		w = vzC04permuted(want, rot())
		vzAssert(vzSnapData(vzSnap(nt), w), "the new table has the columns in the order asked for")
		vzLookups(nt, w)
		vzReach("new")
		return
	case 11:
		var names []string
		for _, k := range rot() {
			names = append(names, name(k))
		}
		nt, err := t.NewTableReorderCols(names...)
		vzMust(err, "NewTableReorderCols")
		vzAssert(vzSnapSame(vzSnap(t), want), "the original table is unchanged")
		w = vzC04permuted(want, rot())
		vzAssert(vzSnapData(vzSnap(nt), w), "the new table has the columns in the order asked for")
		vzLookups(nt, w)
		vzReach("new")
		return
	case 7:
		vzMust(t.OrderColsBySortKeys(), "OrderColsBySortKeys")
		o := []int{2, 0}
		for k := 0; k < n; k++ {
			if k != 0 && k != 2 {
				o = append(o, k)
			}
		}
		w = vzC04permuted(want, o)
	case 8:
		vzMust(t.RenameCol(name(i), "nn"), "RenameCol")
		w.names = append([]string{}, w.names...)
		w.names[i] = "nn"
		for k := range w.keys {
			if w.keys[k] == name(i) {
				w.keys[k] = "nn"
			}
		}
	case 9:
		vzMust(t.AppendCol("nn", "int16"), "AppendCol")
		w.names, w.types = append(w.names, "nn"), append(w.types, "int16")
		for r := range w.cells {
			w.cells[r] = append(w.cells[r], int16(0))
		}
	case 10: // the last row's first column, arbitrary
		v := vzCellN(want.types[0], "v", 1)
		vzMust(t.SetVal("c0", rows-1, v), "SetVal")
		vzMust(t.SwapCols("c0", name(n-1)), "SwapCols")
		o := id()
		o[0], o[n-1] = n-1, 0
		w = vzC04permuted(want, o)
		w.cells[rows-1][n-1] = v
	}
	vzAssert(vzSnapSame(vzSnap(t), w), "column operations keep names, types and cells together")
	vzLookups(t, w)
	vzReach("end")
}
