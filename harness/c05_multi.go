//go:build go1.21

package gotables

// Several keys, both ways of naming them, empty tables, unsortable columns.

func vzC05multi(types []string, nrev int, how int) {
	rows := 2
	n := len(types)
	names := []string{"id", "k0", "k1", "k2"}[:n+1]
	t, err := NewTableFromMetadata("T", names, append([]string{"int"}, types...))
	vzMust(err, "NewTableFromMetadata")
	vals := make([][]interface{}, rows)
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.SetInt("id", r, r), "SetInt")
		for k := 0; k < n; k++ {
			v := vzSortCell(types[k], names[k+1], 1)
			vals[r] = append(vals[r], v)
			vzMust(t.SetVal(names[k+1], r, v), "SetVal")
		}
	}
	rev := make([]bool, n)
	keys := []string{}
	order := []int{}
	// key order: a rotation of the columns
	rot := vzRange("rot", 0, n-1)
	for k := 0; k < n; k++ {
		keys = append(keys, names[1+(k+rot)%n])
		order = append(order, (k+rot)%n)
	}
	switch how {
	case 0: // keys set beforehand, any subset reversed
		vzMust(t.SetSortKeys(keys...), "SetSortKeys")
		var rn []string
		for k := 0; k < n; k++ {
			if vzRange("rev", 0, 1) == 1 {
				rev[order[k]] = true
				rn = append(rn, keys[k])
			}
		}
		if len(rn) > 0 {
			vzMust(t.SetSortKeysReverse(rn...), "SetSortKeysReverse")
		}
		vzMust(t.Sort(), "Sort")
	case 1: // keys in the call: replaces whatever was set before, ascending
		vzMust(t.SetSortKeys("id"), "SetSortKeys")
		vzMust(t.SetSortKeysReverse("id"), "SetSortKeysReverse")
		vzMust(t.Sort(keys...), "Sort(keys)")
	case 2:
		vzMust(t.SortSimple(keys...), "SortSimple(keys)")
	}
	kn, kr := vzKeys(t)
	vzAssert(vzSameStrs(kn, keys), "sort leaves the keys it sorted by")
	for k := range kr {
		vzAssert(kr[k] == rev[order[k]], "sort leaves the key directions")
	}
	seen := make([]bool, rows)
	var ids []int
	for r := 0; r < rows; r++ {
		id, err := t.GetInt("id", r)
		vzMust(err, "GetInt")
		vzAssert(id >= 0 && id < rows && !seen[id], "sort output is a permutation of the rows")
		seen[id] = true
		ids = append(ids, id)
		for k := 0; k < n; k++ {
			v, err := t.GetVal(names[k+1], r)
			vzMust(err, "GetVal")
			vzAssert(vzSame(v, vals[id][k]), "cells move with their row")
		}
	}
	for r := 1; r < rows; r++ {
		// not (row r strictly before row r-1)
		before := false
		eq := true
		for _, k := range order {
			a, b := vals[ids[r]][k], vals[ids[r-1]][k]
			if rev[k] {
				a, b = b, a
			}
			before = vzOr(before, vzAnd(eq, vzLess(a, b)))
			eq = vzAnd(eq, vzEq(a, b))
		}
		vzAssert(!before, "rows are in lexicographic order of the keys")
	}
	vzReach("sorted")
}

func vzC05_two_int_string()  { vzC05multi([]string{"int", "string"}, 2, 0) }
func vzC05_two_float_bool()  { vzC05multi([]string{"float64", "bool"}, 2, 0) }
func vzC05_two_args()        { vzC05multi([]string{"uint8", "int16"}, 2, 1) }
func vzC05_two_simple()      { vzC05multi([]string{"int64", "uint64"}, 2, 2) }
func vzC05_three()           { vzC05multi([]string{"bool", "int8", "uint32"}, 3, 0) }
func vzC05_one_args()        { vzC05multi([]string{"string"}, 1, 1) }
func vzC05_one_simple()      { vzC05multi([]string{"float32"}, 1, 2) }

// many rows of a small key domain: the library's large-input sorting code on the real swap
func vzC05_rows() {
	rows := 5 + 2*vzTier()
	t, err := NewTableFromMetadata("T", []string{"id", "k"}, []string{"int", "bool"})
	vzMust(err, "NewTableFromMetadata")
	var keys []bool
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		b := vzBool("k")
		keys = append(keys, b)
		vzMust(t.SetInt("id", r, r), "SetInt")
		vzMust(t.SetBool("k", r, b), "SetBool")
	}
	vzMust(t.Sort("k"), "Sort")
	seen := make([]bool, rows)
	prev := false
	for r := 0; r < rows; r++ {
		id, err := t.GetInt("id", r)
		vzMust(err, "GetInt")
		vzAssert(!seen[id], "permutation")
		seen[id] = true
		b, err := t.GetBool("k", r)
		vzMust(err, "GetBool")
		vzAssert(b == keys[id], "key cell moves with its row")
		vzAssert(vzImplies(prev, b), "ascending order")
		prev = b
	}
	vzReach("sorted")
}

// 13 rows: beyond the insertion-sort threshold of the library sort
func vzC05_rows13() {
	rows := 13
	t, err := NewTableFromMetadata("T", []string{"id", "k"}, []string{"int", "int8"})
	vzMust(err, "NewTableFromMetadata")
	var keys []int8
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		b := int8((r * 5) % rows)
		if r%6 == 5 {
			b = vzInt8("k")
		}
		keys = append(keys, b)
		vzMust(t.SetInt("id", r, r), "SetInt")
		vzMust(t.SetInt8("k", r, b), "SetInt8")
	}
	vzMust(t.Sort("k"), "Sort")
	seen := make([]bool, rows)
	var prev int8
	for r := 0; r < rows; r++ {
		id, err := t.GetInt("id", r)
		vzMust(err, "GetInt")
		vzAssert(!seen[id], "permutation")
		seen[id] = true
		b, err := t.GetInt8("k", r)
		vzMust(err, "GetInt8")
		vzAssert(b == keys[id], "key cell moves with its row")
		vzAssert(r == 0 || prev <= b, "ascending order")
		prev = b
	}
	vzReach("sorted")
}

func vzC05_empty() {
	t, err := NewTableFromMetadata("T", []string{"a", "s"}, []string{"int", "string"})
	vzMust(err, "NewTableFromMetadata")
	vzAssert(t.Sort() != nil, "sorting without sort keys is an error")
	vzAssert(t.SortSimple() != nil, "sorting without sort keys is an error")
	vzMust(t.Sort("a"), "sorting an empty table")
	vzAssert(t.RowCount() == 0, "an empty table stays empty")
	name := vzStr("name", vzRange("len", 0, 1))
	vzAssume(vzAnd(name != "a", name != "s"))
	vzMust(t.AppendRow(), "AppendRow")
	vzMust(t.AppendRow(), "AppendRow")
	vzMust(t.SetInt("a", 0, vzInt("v")), "SetInt")
	want := vzSnap(t)
	vzAssert(t.Sort(name) != nil, "sorting by an unknown column is an error")
	vzAssert(t.SortSimple(name) != nil, "sorting by an unknown column is an error")
	vzAssert(t.Sort("s", name) != nil, "sorting by an unknown column is an error")
	vzAssert(vzSnapData(vzSnap(t), want), "a refused sort leaves the rows as they were")
	vzReach("end")
}

// rows beyond every threshold of the library sort, many of them with equal keys, in any direction
func vzC05_big() {
	rows := []int{14, 25, 40, 60}[vzRange("rows", 0, 1+2*vzTier())]
	ki := vzRange("key", 0, 4)
	typ := []string{"int16", "string", "uint64", "float32", "bool"}[ki]
	t, err := NewTableFromMetadata("T", []string{"id", "k", "l"}, []string{"int", typ, "int8"})
	vzMust(err, "NewTableFromMetadata")
	at := []int{0, rows / 2, rows - 1}[vzRange("at", 0, 2)]
	var ks, ls []interface{}
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		n := (r * 11) % 9
		var k interface{}
		switch typ {
		case "int16":
			k = int16(n - 4)
		case "string":
			k = []string{"", "a", "B", "b", "aa", "A", "Z", "_", "10"}[n]
		case "uint64":
			k = uint64(n) << 61
		case "float32":
			k = float32(n)/8 - 0.5
		case "bool":
			k = n%2 == 0
		}
		l := interface{}(int8((r * 5) % 4))
		if r == at {
			k = vzCellN(typ, "k", 1)
			vzAssume(vzNotNaN(k))
			if s, ok := k.(string); ok {
				vzASCII(s)
			}
		}
		ks, ls = append(ks, k), append(ls, l)
		vzMust(t.SetInt("id", r, r), "SetInt")
		vzMust(t.SetVal("k", r, k), "SetVal")
		vzMust(t.SetVal("l", r, l), "SetVal")
	}
	rk, rl := vzRange("rk", 0, 1) == 1, vzRange("rl", 0, 1) == 1
	vzMust(t.SetSortKeys("k", "l"), "SetSortKeys")
	if rk {
		vzMust(t.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	if rl {
		vzMust(t.SetSortKeysReverse("l"), "SetSortKeysReverse")
	}
	vzMust(t.Sort(), "Sort")
	vzAssert(t.RowCount() == rows, "sort keeps the number of rows")
	seen := make([]bool, rows)
	prev := -1
	for r := 0; r < rows; r++ {
		id, err := t.GetInt("id", r)
		vzMust(err, "GetInt")
		vzAssert(id >= 0 && id < rows && !seen[id], "sort output is a permutation of the rows")
		seen[id] = true
		k, err := t.GetVal("k", r)
		vzMust(err, "GetVal")
		l, err := t.GetVal("l", r)
		vzMust(err, "GetVal")
		vzAssert(vzAnd(vzSame(k, ks[id]), vzSame(l, ls[id])), "cells move with their row")
		if prev >= 0 {
			a, b, c, d := ks[id], ks[prev], ls[id], ls[prev]
			if rk {
				a, b = b, a
			}
			if rl {
				c, d = d, c
			}
			vzAssert(!vzOr(vzLess(a, b), vzAnd(vzEq(a, b), vzLess(c, d))), "rows are in lexicographic order of the keys")
		}
		prev = id
	}
	vzReach("sorted")
}

// many keys: every one of them counts
func vzC05_many() {
	n := []int{5, 9, 17}[vzRange("keys", 0, 1+vzTier())]
	at := vzRange("at", 0, n-1)
	rows := 3
	t, keys := vzManyKeys("T", "id", n, at, rows, false)
	rev := vzManyRev(t, keys, at)
	want := vzSnap(t)
	vzMust(t.Sort(), "Sort")
	got := vzSnap(t)
	vzAssert(len(got.cells) == rows, "sort keeps the number of rows")
	seen := make([]bool, rows)
	for r, row := range got.cells {
		id := row[0].(int)
		vzAssert(!seen[id], "sort output is a permutation of the rows")
		seen[id] = true
		vzAssert(vzSameCells([][]interface{}{row}, [][]interface{}{want.cells[id]}), "cells move with their row")
		if r > 0 {
			less, _ := vzManyLess(row[1:], got.cells[r-1][1:], rev)
			vzAssert(!less, "rows are in lexicographic order of the keys")
		}
	}
	vzReach("sorted")
}
