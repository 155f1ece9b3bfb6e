//go:build go1.21

package gotables

// Sort-key bookkeeping.

type vzKeyModel struct {
	names []string
	revs  []bool
}

func vzC32check(t *Table, m vzKeyModel, types map[string]string) {
	kt, err := t.GetSortKeysAsTable()
	vzMust(err, "GetSortKeysAsTable")
	vzAssert(kt.RowCount() == len(m.names) && t.SortKeyCount() == len(m.names), "number of sort keys")
	vzAssume(kt.RowCount() == len(m.names))
	for i := range m.names {
		n, err := kt.GetString("colName", i)
		vzAssert(err == nil && n == m.names[i], "sort keys in the order set")
		ty, err := kt.GetString("colType", i)
		vzAssert(err == nil && ty == types[m.names[i]], "sort keys carry their column's type")
		r, err := kt.GetBool("reverse", i)
		vzAssert(err == nil && r == m.revs[i], "sort keys have the directions set")
		ix, err := kt.GetInt("index", i)
		vzAssert(err == nil && ix == i, "sort key index")
	}
	for _, c := range []string{"a", "b", "c", "u"} {
		in := false
		for _, n := range m.names {
			in = in || n == c
		}
		is, err := t.IsSortKey(c)
		vzAssert(err == nil && is == in, "IsSortKey tells exactly the sort keys")
	}
	_, err = t.IsSortKey("zz")
	vzAssert(err != nil, "IsSortKey of an unknown column is an error")
}

// histories of sort-key operations against a list model
func vzC32hist(steps int) {
	t, err := NewTableFromMetadata("T", []string{"a", "b", "c", "u"}, []string{"int", "string", "float64", "[]byte"})
	vzMust(err, "NewTableFromMetadata")
	types := map[string]string{"a": "int", "b": "string", "c": "float64", "u": "[]byte"}
	cols := []string{"a", "b", "c", "zz", "u"} // zz: unknown, u: not sortable
	want := vzSnap(t)
	var m vzKeyModel
	for k := 0; k < steps; k++ {
		i := vzRange("col", 0, 4)
		c := cols[i]
		switch vzRange("op", 0, 4) {
		case 0: // append
			err := t.AppendSortKey(c)
			if i >= 3 {
				vzAssert(err != nil, "an unknown or unsortable column is refused")
			} else {
				vzMust(err, "AppendSortKey")
				m.names, m.revs = append(m.names, c), append(m.revs, false)
			}
		case 1: // set two
			d := cols[vzRange("col2", 0, 3)]
			err := t.SetSortKeys(c, d)
			if i >= 3 || d == "zz" {
				vzAssert(err != nil, "an unknown or unsortable column is refused")
			} else {
				vzMust(err, "SetSortKeys")
				m = vzKeyModel{[]string{c, d}, []bool{false, false}}
			}
		case 2: // reverse
			err := t.SetSortKeysReverse(c)
			in := false
			for j := range m.names {
				if m.names[j] == c {
					m.revs[j] = true
					in = true
				}
			}
			vzAssert((err == nil) == in, "reversing a column that is not a sort key is refused")
		case 3: // delete
			err := t.DeleteSortKey(c)
			at := -1
			for j := range m.names {
				if m.names[j] == c && at < 0 {
					at = j
				}
			}
			vzAssert((err == nil) == (at >= 0), "deleting a column that is not a sort key is refused")
			if at >= 0 {
				m.names = append(append([]string{}, m.names[:at]...), m.names[at+1:]...)
				m.revs = append(append([]bool{}, m.revs[:at]...), m.revs[at+1:]...)
			}
		case 4: // clear
			vzMust(t.SetSortKeys(), "SetSortKeys()")
			m = vzKeyModel{}
		}
		vzC32check(t, m, types)
	}
	vzAssert(vzSnapData(vzSnap(t), want), "sort key operations change no column or cell")
	vzReach("end")
}

func vzC32_hist2() { vzC32hist(2 + vzTier()) }

// copying the keys from another table
func vzC32_from() {
	mk := func() *Table {
		t, err := NewTableFromMetadata("T", []string{"a", "b", "c"}, []string{"int", "string", "float64"})
		vzMust(err, "NewTableFromMetadata")
		return t
	}
	src, dst := mk(), mk()
	lacks := vzRange("lacks", 0, 1) == 1
	if lacks {
		vzMust(dst.DeleteCol("b"), "DeleteCol")
	}
	var m vzKeyModel
	sel := [][]string{{}, {"a"}, {"b"}, {"c", "a"}, {"b", "c"}, {"a", "b", "c"}, {"c", "b", "a"}}[vzRange("keys", 0, 6)]
	vzMust(src.SetSortKeys(sel...), "SetSortKeys")
	hasB := false
	for _, c := range sel {
		r := vzRange("rev", 0, 1) == 1
		if r {
			vzMust(src.SetSortKeysReverse(c), "SetSortKeysReverse")
		}
		m.names, m.revs = append(m.names, c), append(m.revs, r)
		hasB = hasB || c == "b"
	}
	vzMust(dst.SetSortKeys("c"), "SetSortKeys")
	err := dst.SetSortKeysFromTable(src)
	types := map[string]string{"a": "int", "b": "string", "c": "float64"}
	n, r := vzKeys(src)
	vzAssert(vzSameStrs(n, m.names), "the source keeps its keys")
	if len(sel) == 0 || (lacks && hasB) {
		vzAssert(err != nil, "copying no keys, or keys of columns the table lacks, is refused")
		n, r = vzKeys(dst)
		vzAssert(vzSameStrs(n, []string{"c"}) && !r[0], "refused copy changes nothing")
		return
	}
	vzMust(err, "SetSortKeysFromTable")
	n, r = vzKeys(dst)
	vzAssert(vzSameStrs(n, m.names), "the keys are copied in order")
	for i := range r {
		vzAssert(r[i] == m.revs[i], "the directions are copied")
	}
	// and independent of the source
	vzMust(src.SetSortKeysReverse(sel[0]), "SetSortKeysReverse")
	vzMust(src.SetSortKeys(), "SetSortKeys")
	n, r = vzKeys(dst)
	vzAssert(vzSameStrs(n, m.names) && r[0] == m.revs[0], "copied keys are independent of the source")
	_ = types
	vzReach("end")
}

// ordering the columns by the keys, keys possibly repeated
func vzC32_order() {
	t := vzBuild("T", []string{"a", "b", "c", "d"}, []string{"int8", "string", "float64", "rune"}, 1, 1)
	var keys []string
	n := vzRange("n", 0, 3)
	for i := 0; i < n; i++ {
		keys = append(keys, []string{"a", "b", "c"}[vzRange("k", 0, 2)])
	}
	vzMust(t.SetSortKeys(keys...), "SetSortKeys")
	want := vzSnap(t)
	vzMust(t.OrderColsBySortKeys(), "OrderColsBySortKeys")
	var o []string
	used := map[string]bool{}
	for _, k := range append(append([]string{}, keys...), want.names...) {
		if !used[k] {
			used[k] = true
			o = append(o, k)
		}
	}
	got := vzSnap(t)
	vzAssert(vzSameStrs(got.names, o), "key columns first, in key order, the rest in their order")
	vzAssert(vzSameStrs(got.keys, want.keys), "ordering columns keeps the keys")
	for _, c := range want.names {
		for i, x := range want.names {
			if x == c {
				v, err := t.GetVal(c, 0)
				vzMust(err, "GetVal")
				vzAssert(vzSame(v, want.cells[0][i]), "cells stay with their column")
			}
		}
	}
	vzReach("end")
}

// many keys
func vzC32_big() {
	n := 12
	types := vzBigTypes([]string{"int", "string", "float64", "bool", "uint8", "int16", "uint64"}, 0, n)
	t := vzBig("T", types, 3)
	want := vzSnap(t)
	var m vzKeyModel
	var keys []string
	for i := 0; i < n; i++ {
		k := "c" + vzDec((i*5+3)%n)
		keys = append(keys, k)
		m.names, m.revs = append(m.names, k), append(m.revs, false)
	}
	vzMust(t.SetSortKeys(keys...), "SetSortKeys")
	a, b := vzRange("a", 0, n-1), vzRange("b", 0, n-1)
	vzMust(t.SetSortKeysReverse(keys[a]), "SetSortKeysReverse")
	m.revs[a] = true
	switch vzRange("op", 0, 2) {
	case 0:
		vzMust(t.DeleteSortKey(keys[b]), "DeleteSortKey")
		m.names = append(append([]string{}, m.names[:b]...), m.names[b+1:]...)
		m.revs = append(append([]bool{}, m.revs[:b]...), m.revs[b+1:]...)
	case 1:
		o := vzBig("O", types, 0)
		vzMust(o.SetSortKeysFromTable(t), "SetSortKeysFromTable")
		kn, kr := vzKeys(o)
		vzAssert(vzSameStrs(kn, m.names), "the keys are copied in order")
		for i := range kr {
			vzAssert(kr[i] == m.revs[i], "the directions are copied")
		}
		want = vzSnap(t)
	case 2:
		vzMust(t.SetSortKeysReverse(keys[b]), "SetSortKeysReverse")
		m.revs[b] = true
	}
	kn, kr := vzKeys(t)
	vzAssert(vzSameStrs(kn, m.names), "sort keys in the order set")
	for i := range kr {
		vzAssert(kr[i] == m.revs[i], "sort keys have the directions set")
	}
	vzAssert(vzSnapData(vzSnap(t), want), "sort key operations change no column or cell")
	if len(kn) == n {
		vzMust(t.OrderColsBySortKeys(), "OrderColsBySortKeys")
		got := vzSnap(t)
		vzAssert(vzSameStrs(got.names, keys), "key columns in key order")
		for c := 0; c < n; c++ {
			for r := range got.cells {
				vzAssert(vzSame(got.cells[r][c], want.cells[r][(c*5+3)%n]), "cells stay with their column")
			}
		}
	}
	vzReach("end")
}

// tables of every shape: every column type as key, zero to many rows, one or two keys either way round
func vzC32_shapes() {
	sortable := []string{"bool", "float32", "float64", "int", "int16", "int32", "int64", "int8", "string", "uint", "uint16", "uint32", "uint64", "uint8"}
	n := vzRange("cols", 1, 4+vzTier())
	off := vzRange("off", 0, len(sortable)-1)
	rows := []int{0, 1, 3, 10}[(off+n)%4]
	if vzTier() == 1 {
		rows = []int{0, 1, 3, 10}[vzRange("rows", 0, 3)]
	}
	types := vzBigTypes(sortable, off, n)
	t := vzBig("T", types, rows)
	vzMust(t.SetStructShape((off+n/2)%2 == 1), "SetStructShape")
	want := vzSnap(t)
	name := func(k int) string { return "c" + vzDec(k) }
	var m vzKeyModel
	m.names, m.revs = []string{name(vzRange("k1", 0, n-1))}, []bool{vzRange("r1", 0, 1) == 1}
	if k2 := vzRange("k2", -1, n-1); k2 >= 0 {
		vzAssume(name(k2) != m.names[0])
		m.names, m.revs = append(m.names, name(k2)), append(m.revs, vzRange("r2", 0, 1) == 1)
	}
	vzMust(t.SetSortKeys(m.names...), "SetSortKeys")
	for i, r := range m.revs {
		if r {
			vzMust(t.SetSortKeysReverse(m.names[i]), "SetSortKeysReverse")
		}
	}
	last := len(m.names) - 1
	o := t
	switch vzRange("op", 0, 4) {
	case 0:
		vzMust(t.DeleteSortKey(m.names[last]), "DeleteSortKey")
		m.names, m.revs = m.names[:last], m.revs[:last]
	case 1:
		c := name(n - 1)
		vzMust(t.AppendSortKey(c), "AppendSortKey")
		m.names, m.revs = append(m.names, c), append(m.revs, false)
	case 2:
		o = vzBig("O", types, 1)
		vzMust(o.SetSortKeysFromTable(t), "SetSortKeysFromTable")
	case 3:
		vzMust(t.OrderColsBySortKeys(), "OrderColsBySortKeys")
		var ord []int
		used := map[string]bool{}
		for _, c := range append(append([]string{}, m.names...), want.names...) {
			for k := 0; k < n; k++ {
				if name(k) == c && !used[c] {
					used[c] = true
					ord = append(ord, k)
				}
			}
		}
		w := &vzSnapT{}
		*w = *want
		w.names, w.types, w.cells = nil, nil, nil
		for _, k := range ord {
			w.names, w.types = append(w.names, want.names[k]), append(w.types, want.types[k])
		}
		for r := range want.cells {
			var row []interface{}
			for _, k := range ord {
				row = append(row, want.cells[r][k])
			}
			w.cells = append(w.cells, row)
		}
		want = w
	case 4:
		vzMust(t.DeleteSortKey(m.names[0]), "DeleteSortKey")
		m.names, m.revs = m.names[1:], m.revs[1:]
	}
	kn, kr := vzKeys(o)
	vzAssert(vzSameStrs(kn, m.names), "sort keys in the order set")
	for i := range kr {
		vzAssert(kr[i] == m.revs[i], "sort keys have the directions set")
	}
	vzAssert(vzSnapData(vzSnap(t), want), "sort key operations change no cell")
	for k := 0; k < n; k++ {
		in := false
		for _, c := range m.names {
			in = in || c == name(k)
		}
		is, err := o.IsSortKey(name(k))
		vzAssert(err == nil && is == in, "IsSortKey tells exactly the sort keys")
	}
	vzReach("end")
}
