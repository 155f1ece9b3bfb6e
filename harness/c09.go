//go:build go1.21

package gotables

import "time"

// Merge and SortUnique against a per-key specification.

// vzMissing: a cell that the other table may fill in.
func vzMissing(typ string, v interface{}) bool {
	switch x := v.(type) {
	case float32:
		return vzOr(x == 0, x != x)
	case float64:
		return vzOr(x == 0, x != x)
	case time.Time:
		return vzOr(x.IsZero(), x.Equal(MinTime))
	case string:
		return x == ""
	case []byte:
		return len(x) == 0
	case bool:
		return !x
	case *Table:
		is, err := x.IsNilTable()
		vzMust(err, "IsNilTable")
		return is
	}
	return vzSame(v, vzZeroNum(typ))
}

func vzIsNaN(v interface{}) bool { return !vzNotNaN(v) }

type vzC09in struct {
	t    *Table
	snap *vzSnapT
}

func (in vzC09in) col(name string) int {
	for i, n := range in.snap.names {
		if n == name {
			return i
		}
	}
	return -1
}

// vzC09check: merged is the merge of the tables in order of precedence, by the given keys.
func vzC09check(merged *Table, in []vzC09in, keys []string, revs []bool) {
	vzInv(merged, "merged table")
	types := map[string]string{}
	var cols []string
	for _, x := range in {
		for i, n := range x.snap.names {
			if types[n] == "" {
				cols = append(cols, n)
			}
			types[n] = x.snap.types[i]
		}
	}
	vzAssert(merged.ColCount() == len(cols), "merged table has the union of the columns")
	for _, c := range cols {
		ty, err := merged.ColType(c)
		vzAssert(err == nil && ty == types[c], "merged columns keep their names and types")
	}
	m := vzSnap(merged)
	mcol := map[string]int{}
	for i, n := range m.names {
		mcol[n] = i
	}
	kn, kr := vzKeys(merged)
	vzAssert(vzSameStrs(kn, keys), "merged table has the sort keys")
	for i := range kr {
		vzAssert(kr[i] == revs[i], "merged table has the sort directions")
	}
	// strictly increasing by the keys: sorted and one row per key
	for r := 0; r+1 < len(m.cells); r++ {
		less, eq := false, true
		for i, k := range keys {
			a, b := m.cells[r][mcol[k]], m.cells[r+1][mcol[k]]
			if revs[i] {
				a, b = b, a
			}
			less = vzOr(less, vzAnd(eq, vzLess(a, b)))
			eq = vzAnd(eq, vzEq(a, b))
		}
		vzAssert(less, "merged rows are sorted and have distinct keys")
	}
	match := func(row []interface{}, x vzC09in, r int) bool {
		ok := true
		for _, k := range keys {
			ok = vzAnd(ok, vzEq(row[mcol[k]], x.snap.cells[r][x.col(k)]))
		}
		return ok
	}
	for _, x := range in {
		for r := range x.snap.cells {
			some := false
			for _, row := range m.cells {
				some = vzOr(some, match(row, x, r))
			}
			vzAssert(some, "every key of either table is in the merged table")
		}
	}
	for _, row := range m.cells {
		some := false
		for _, x := range in {
			for r := range x.snap.cells {
				some = vzOr(some, match(row, x, r))
			}
		}
		vzAssert(some, "every merged row comes from one of the tables")
		for _, c := range cols {
			got := row[mcol[c]]
			var cand []interface{} // values that may be in the cell
			zero := false          // float: some candidate is zero, not NaN
			for _, x := range in {
				if len(cand) > 0 || x.col(c) < 0 {
					continue
				}
				for r := range x.snap.cells {
					if match(row, x, r) {
						v := x.snap.cells[r][x.col(c)]
						if vzMissing(types[c], v) {
							zero = vzOr(zero, vzNotNaN(v))
						} else {
							cand = append(cand, v)
						}
					}
				}
			}
			if len(cand) > 0 {
				some := false
				for _, v := range cand {
					some = vzOr(some, vzSame(got, v))
				}
				vzAssert(some, "a cell takes the first table's value, or the second's where that is missing")
			} else {
				vzAssert(vzMissing(types[c], got), "a cell missing from both tables stays missing")
				if types[c] == "float32" || types[c] == "float64" {
					vzAssert(vzIsNaN(got) == !zero, "zero takes precedence over NaN")
				}
			}
		}
	}
}

func vzC09table(name string, cols, types []string, rows int) vzC09in {
	t, err := NewTableFromMetadata(name, cols, types)
	vzMust(err, "NewTableFromMetadata")
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		for c := range cols {
			if cols[c][0] == 'k' { // sort keys: no NaN, ASCII
				v := vzCellN(types[c], name+"."+cols[c], 1)
				vzAssume(vzNotNaN(v))
				if s, ok := v.(string); ok {
					vzASCII(s)
				}
				vzMust(t.SetVal(cols[c], r, v), "SetVal")
				continue
			}
			if types[c] == "*Table" && vzRange(name+".nil", 0, 1) == 1 {
				continue // stays the empty table
			}
			if types[c] == "string" || types[c] == "[]byte" || types[c] == "[]uint8" {
				vzMust(t.SetVal(cols[c], r, vzCell(types[c], name+"."+cols[c], 1)), "SetVal")
				continue
			}
			vzMust(t.SetVal(cols[c], r, vzCellN(types[c], name+"."+cols[c], 1)), "SetVal")
		}
	}
	return vzC09in{t: t}
}

func vzC09merge(kt, at, xt, yt string, n1, n2 int, keysIn int, rev bool) {
	ac, atypes := []string{"x", "k", "v"}, []string{xt, kt, at}
	bc, btypes := []string{"v", "k", "y"}, []string{at, kt, yt}
	if xt == "" { // no columns of their own
		ac, atypes, bc, btypes = ac[1:], atypes[1:], bc[:2], btypes[:2]
	}
	a := vzC09table("A", ac, atypes, n1)
	b := vzC09table("B", bc, btypes, n2)
	kt1 := a.t
	if keysIn == 1 {
		kt1 = b.t
	}
	vzMust(kt1.SetSortKeys("k"), "SetSortKeys")
	if rev {
		vzMust(kt1.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	a.snap, b.snap = vzSnap(a.t), vzSnap(b.t)
	m, err := a.t.Merge(b.t)
	vzMust(err, "Merge of tables that share the sort key")
	vzAssert(vzSnapData(vzSnap(a.t), a.snap), "Merge does not change the first table's data")
	vzAssert(vzSnapData(vzSnap(b.t), b.snap), "Merge does not change the second table's data")
	vzAssert(m != a.t && m != b.t, "Merge returns a new table")
	vzC09check(m, []vzC09in{a, b}, []string{"k"}, []bool{rev})
	vzReach("end")
}

// all value types, one row each
func vzC09_types() {
	vzC09merge("int8", vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)], "string", "float32", 1, 1, 0, false)
}

// all key types
func vzC09_keytypes() {
	vzC09merge(vzSortTypes[vzRange("type", 0, len(vzSortTypes)-1)], "uint16", "", "", 1, 1+vzTier(), vzRange("keysin", 0, 1), vzRange("rev", 0, 1) == 1)
}

// sizes, with duplicates and empty tables
func vzC09_sizes() {
	n1, n2 := vzRange("n1", 0, 2), vzRange("n2", 0, 2)
	rev := vzRange("rev", 0, 1) == 1
	switch n1 + n2 {
	case 4:
		vzAssume(vzAnd(vzTier() == 1, !rev))
		vzC09merge("uint8", "int", "", "", n1, n2, 0, rev)
	case 3:
		vzC09merge("int8", []string{"float64", "bool"}[vzRange("type", 0, vzTier())], "", "", n1, n2, vzRange("keysin", 0, vzTier()), rev)
	default:
		vzC09merge("int16", []string{"float64", "bool", "int64"}[vzRange("type", 0, 2)], "int8", "float64", n1, n2, vzRange("keysin", 0, 1), rev)
	}
}

// composite keys
func vzC09_twokeys() {
	a := vzC09table("A", []string{"k1", "k2", "v"}, []string{"bool", "uint", "int"}, 1+vzTier())
	b := vzC09table("B", []string{"k2", "v", "k1"}, []string{"uint", "int", "bool"}, 2)
	vzMust(a.t.SetSortKeys("k2", "k1"), "SetSortKeys")
	rev := vzRange("rev", 0, 1) == 1
	if rev {
		vzMust(a.t.SetSortKeysReverse("k1"), "SetSortKeysReverse")
	}
	a.snap, b.snap = vzSnap(a.t), vzSnap(b.t)
	m, err := a.t.Merge(b.t)
	vzMust(err, "Merge of tables that share both sort keys")
	vzAssert(vzSnapData(vzSnap(a.t), a.snap) && vzSnapData(vzSnap(b.t), b.snap), "Merge does not change its inputs' data")
	vzC09check(m, []vzC09in{a, b}, []string{"k2", "k1"}, []bool{false, rev})
	vzReach("end")
}

// SortUnique
func vzC09_unique() {
	n := vzRange("n", 0, 2+vzTier())
	a := vzC09table("A", []string{"v", "k", "w"}, []string{"float64", []string{"int8", "string"}[vzRange("kt", 0, 1)], "int"}, n)
	a.snap = vzSnap(a.t)
	mode := vzRange("mode", 0, 2)
	var u *Table
	var err error
	if mode == 0 {
		u, err = a.t.SortUnique("k")
	} else {
		vzMust(a.t.SetSortKeys("k"), "SetSortKeys")
		if mode == 2 {
			vzMust(a.t.SetSortKeysReverse("k"), "SetSortKeysReverse")
		}
		u, err = a.t.SortUnique()
	}
	vzMust(err, "SortUnique by an existing column")
	vzAssert(vzSnapData(vzSnap(a.t), a.snap), "SortUnique does not change the table's data")
	vzAssert(u != a.t && u.Name() == "A", "SortUnique returns a new table of the same name")
	vzC09check(u, []vzC09in{a}, []string{"k"}, []bool{mode == 2})
	vzReach("end")
}

// three rows of one key or of several
func vzC09_unique3() {
	a := vzC09table("A", []string{"v", "k"}, []string{"int", "int8"}, 3)
	a.snap = vzSnap(a.t)
	u, err := a.t.SortUnique("k")
	vzMust(err, "SortUnique by an existing column")
	vzAssert(vzSnapData(vzSnap(a.t), a.snap), "SortUnique does not change the table's data")
	vzC09check(u, []vzC09in{a}, []string{"k"}, []bool{false})
	vzReach("end")
}

// refusals
func vzC09_errors() {
	a := vzC09table("A", []string{"k", "v"}, []string{"int8", "int"}, vzRange("n1", 0, 1))
	b := vzC09table("B", []string{"j", "v", "k"}, []string{"int8", []string{"int", "uint8"}[vzRange("vt", 0, 1)], []string{"int8", "uint"}[vzRange("kt", 0, 1)]}, vzRange("n2", 0, 1))
	ty, err := b.t.ColType("v")
	vzMust(err, "ColType")
	tk, err := b.t.ColType("k")
	vzMust(err, "ColType")
	key := vzRange("key", 0, 3)
	switch key {
	case 1:
		vzMust(a.t.SetSortKeys("k"), "SetSortKeys")
	case 2:
		vzMust(b.t.SetSortKeys("j"), "SetSortKeys")
	case 3:
		vzMust(a.t.SetSortKeys("v"), "SetSortKeys")
		vzMust(b.t.SetSortKeys("j"), "SetSortKeys")
	}
	a.snap, b.snap = vzSnap(a.t), vzSnap(b.t)
	m, err := a.t.Merge(b.t)
	bad := key == 0 || ty != "int" || tk != "int8" || (key == 2 && a.t.RowCount()*b.t.RowCount() > 0)
	if bad {
		vzAssert(err != nil, "Merge without a shared sort key, or with clashing column types, is refused")
	}
	if err != nil {
		vzAssert(m == nil, "a refused Merge returns no table")
		vzAssert(vzSnapSame(vzSnap(a.t), a.snap), "a refused Merge does not change the first table")
		vzAssert(vzSnapSame(vzSnap(b.t), b.snap), "a refused Merge does not change the second table")
	}
	_, err = a.t.Merge(nil)
	vzAssert(err != nil, "Merge with a nil table is refused")
	var no *Table
	_, err = no.Merge(a.t)
	vzAssert(err != nil, "Merge of a nil table is refused")
	_, err = no.SortUnique("k")
	vzAssert(err != nil, "SortUnique of a nil table is refused")
	_, err = a.t.SortUnique("zz")
	vzAssert(err != nil, "SortUnique by an unknown column is refused")
	vzReach("end")
}

// many rows and columns: fixed but for one key on each side
func vzC09_big() {
	mk := func(name string, cols, types []string, rows, mul, at int) vzC09in {
		t := vzBigNamed(name, cols, types, rows)
		for r := 0; r < rows; r++ {
			k := int8((r*mul)%9 - 4)
			if r == at {
				k = vzInt8(name + ".k")
			}
			vzMust(t.SetInt8("k", r, k), "SetInt8")
			if r%3 == 1 { // missing cells
				vzMust(t.SetString("s", r, ""), "SetString")
				vzMust(t.SetCellToZeroValue("f", r), "SetCellToZeroValue")
			}
			if r%3 == 2 {
				vzMust(t.SetFloatCellToNaN("f", r), "SetFloatCellToNaN")
			}
		}
		return vzC09in{t: t}
	}
	n := 6 + 4*vzTier()
	a := mk("A", []string{"k", "s", "f", "a1", "a2", "a3", "a4", "a5", "a6"}, []string{"int8", "string", "float64", "int", "bool", "rune", "time.Time", "uint64", "[]byte"}, n, 5, vzRange("ata", 0, 1)*(n-1))
	b := mk("B", []string{"b1", "f", "b2", "k", "b3", "s", "b4", "b5"}, []string{"byte", "float64", "int64", "int8", "*Table", "string", "float32", "uint"}, n-1, 2, vzRange("atb", 0, vzTier())*(n-2))
	who := []*Table{a.t, b.t}[vzRange("keysin", 0, 1)]
	vzMust(who.SetSortKeys("k"), "SetSortKeys")
	rev := vzRange("rev", 0, 1) == 1
	if rev {
		vzMust(who.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	a.snap, b.snap = vzSnap(a.t), vzSnap(b.t)
	m, err := a.t.Merge(b.t)
	vzMust(err, "Merge of tables that share the sort key")
	vzAssert(vzSnapData(vzSnap(a.t), a.snap) && vzSnapData(vzSnap(b.t), b.snap), "Merge does not change its inputs' data")
	vzC09check(m, []vzC09in{a, b}, []string{"k"}, []bool{rev})
	vzReach("end")
}

// many keys: every one of them counts
func vzC09_many() {
	n := []int{5, 9}[vzRange("keys", 0, 1)]
	at := []int{0, n / 2, n - 2, n - 1}[vzRange("at", 0, 3)]
	ta, keys := vzManyKeys("A", "v", n, at, 1+vzTier(), true)
	tb, _ := vzManyKeys("B", "v", n, at, 1, true)
	rev := vzManyRev(ta, keys, at)
	a, b := vzC09in{ta, vzSnap(ta)}, vzC09in{tb, vzSnap(tb)}
	m, err := ta.Merge(tb)
	vzMust(err, "Merge of tables that share the sort keys")
	vzC09check(m, []vzC09in{a, b}, keys, rev)
	vzReach("merged")
}

func vzC09_manyunique() {
	n := []int{5, 9}[vzRange("keys", 0, 1)]
	at := []int{0, n / 2, n - 2, n - 1}[vzRange("at", 0, 3)]
	t, keys := vzManyKeys("A", "v", n, at, 2, true)
	rev := vzManyRev(t, keys, at)
	a := vzC09in{t, vzSnap(t)}
	u, err := t.SortUnique()
	vzMust(err, "SortUnique")
	vzC09check(u, []vzC09in{a}, keys, rev)
	vzReach("unique")
}
