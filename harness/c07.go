//go:build go1.21

package gotables

// Search, SearchFirst, SearchLast, SearchRange on a sorted table.

// vzC07check searches for x in a table whose key column holds v (already in table order) and compares with a linear scan.
func vzC07check(t *Table, match []bool, x ...interface{}) {
	first, last, n := -1, -1, len(match)
	_ = n
	snap := vzSnap(t)
	f0, err0 := t.Search(x...)
	f1, err1 := t.SearchFirst(x...)
	l1, err2 := t.SearchLast(x...)
	rf, rl, err3 := t.SearchRange(x...)
	for r := range match {
		if match[r] {
			if first < 0 {
				first = r
			}
			last = r
		}
	}
	if first < 0 {
		vzAssert(err0 != nil && err1 != nil && err2 != nil && err3 != nil, "searching for an absent value is an error")
		vzReach("absent")
	} else {
		vzAssert(err0 == nil && err1 == nil && err2 == nil && err3 == nil, "searching for a present value succeeds")
		vzAssert(f0 == first, "Search finds the first matching row")
		vzAssert(f1 == first, "SearchFirst finds the first matching row")
		vzAssert(l1 == last, "SearchLast finds the last matching row")
		vzAssert(rf == first && rl == last, "SearchRange finds exactly the matching rows")
		vzReach("found")
	}
	sub, err := t.NewTableFromRowsBySearchRange("Sub", x...)
	if first < 0 {
		vzAssert(err != nil, "extracting the rows of an absent value is an error")
	} else {
		vzMust(err, "NewTableFromRowsBySearchRange")
		vzAssert(vzSameCells(vzSnap(sub).cells, snap.cells[first:last+1]), "extraction gives exactly the matching rows")
	}
	vzAssert(vzSnapSame(vzSnap(t), snap), "searching changes nothing")
}

func vzC07one(typ string, rows, maxLen int) {
	rows = vzRange("rows", 0, rows)
	t, err := NewTableFromMetadata("T", []string{"k"}, []string{typ})
	vzMust(err, "NewTableFromMetadata")
	rev := vzRange("rev", 0, 1) == 1
	var v []interface{}
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		x := vzSortCell(typ, "k", maxLen)
		if r > 0 {
			if rev {
				vzAssume(!vzLess(v[r-1], x))
			} else {
				vzAssume(!vzLess(x, v[r-1]))
			}
		}
		v = append(v, x)
		vzMust(t.SetVal("k", r, x), "SetVal")
	}
	vzMust(t.SetSortKeys("k"), "SetSortKeys")
	if rev {
		vzMust(t.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	x := vzSortCell(typ, "x", maxLen)
	match := make([]bool, rows)
	for r := range v {
		match[r] = vzEq(v[r], x)
	}
	vzC07check(t, match, x)
}

func vzC07_bool()    { vzC07one("bool", 4, 0) }
func vzC07_float32() { vzC07one("float32", 3, 0) }
func vzC07_float64() { vzC07one("float64", 3, 0) }
func vzC07_int()     { vzC07one("int", 4+2*vzTier(), 0) }
func vzC07_int16()   { vzC07one("int16", 3, 0) }
func vzC07_int32()   { vzC07one("int32", 3, 0) }
func vzC07_int64()   { vzC07one("int64", 3, 0) }
func vzC07_int8()    { vzC07one("int8", 5+vzTier(), 0) }
func vzC07_string()  { vzC07one("string", 2+vzTier(), 1+vzTier()) }
func vzC07_uint()    { vzC07one("uint", 3, 0) }
func vzC07_uint16()  { vzC07one("uint16", 3, 0) }
func vzC07_uint32()  { vzC07one("uint32", 3, 0) }
func vzC07_uint64()  { vzC07one("uint64", 3, 0) }
func vzC07_uint8()   { vzC07one("uint8", 3, 0) }

// two keys, each ascending or descending
func vzC07_two() {
	rows := 3 + vzTier()
	t, err := NewTableFromMetadata("T", []string{"a", "b"}, []string{"int16", "bool"})
	vzMust(err, "NewTableFromMetadata")
	ra, rb := vzRange("ra", 0, 1) == 1, vzRange("rb", 0, 1) == 1
	var a []int16
	var b []bool
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		a = append(a, vzInt16("a"))
		b = append(b, vzBool("b"))
		if r > 0 {
			lt, gt := a[r-1] < a[r], a[r] < a[r-1]
			if ra {
				lt, gt = gt, lt
			}
			bl := vzImplies(b[r-1], b[r])
			if rb {
				bl = vzImplies(b[r], b[r-1])
			}
			vzAssume(vzOr(lt, vzAnd(!gt, bl)))
		}
		vzMust(t.SetInt16("a", r, a[r]), "SetInt16")
		vzMust(t.SetBool("b", r, b[r]), "SetBool")
	}
	vzMust(t.SetSortKeys("a", "b"), "SetSortKeys")
	if ra {
		vzMust(t.SetSortKeysReverse("a"), "SetSortKeysReverse")
	}
	if rb {
		vzMust(t.SetSortKeysReverse("b"), "SetSortKeysReverse")
	}
	x, y := vzInt16("x"), vzBool("y")
	match := make([]bool, rows)
	for r := range a {
		match[r] = vzAnd(a[r] == x, b[r] == y)
	}
	vzC07check(t, match, x, y)
}

func vzC07bad(t *Table, x ...interface{}) {
	_, err := t.Search(x...)
	vzAssert(err != nil, "bad search arguments are an error (Search)")
	_, err = t.SearchFirst(x...)
	vzAssert(err != nil, "bad search arguments are an error (SearchFirst)")
	_, err = t.SearchLast(x...)
	vzAssert(err != nil, "bad search arguments are an error (SearchLast)")
	_, _, err = t.SearchRange(x...)
	vzAssert(err != nil, "bad search arguments are an error (SearchRange)")
	_, err = t.NewTableFromRowsBySearchRange("S", x...)
	vzAssert(err != nil, "bad search arguments are an error (NewTableFromRowsBySearchRange)")
}

// wrong number or type of search values
func vzC07_args() {
	ki := vzRange("key", 0, len(vzSortTypes)-1)
	typ := vzSortTypes[ki]
	t := vzBuild("T", []string{"k", "z"}, []string{typ, "int8"}, vzRange("rows", 0, 1), 1)
	v := vzCellN(typ, "v", 1)
	vzC07bad(t, v) // no sort keys
	vzMust(t.SetSortKeys("k"), "SetSortKeys")
	vzC07bad(t)
	vzC07bad(t, v, v)
	vzC07bad(t, nil)
	for _, other := range vzAllTypes {
		if !vzAliasTypes(other, typ) {
			vzC07bad(t, vzCellN(other, "o", 1))
		}
	}
	vzMust(t.SetSortKeys("k", "z"), "SetSortKeys")
	vzC07bad(t, v)
	vzC07bad(t, v, "s")
	vzReach("end")
}

// many rows, with runs of equal keys; an arbitrary value is searched
func vzC07_big() {
	rows := vzRange("rows", 11, 17)
	if vzTier() > 0 {
		rows = vzRange("rows+", 11, 40)
	}
	typ := []string{"int8", "string", "float32", "uint64"}[vzRange("type", 0, 3)]
	rev := vzRange("rev", 0, 1) == 1
	t, err := NewTableFromMetadata("T", []string{"k", "p"}, []string{typ, "int"})
	vzMust(err, "NewTableFromMetadata")
	var v []interface{}
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		n := r
		if rev {
			n = rows - 1 - r
		}
		n = []int{0, 0, 0, 1, 3, 4, 4, 5, 7, 7, 7, 7, 8, 9, 10, 10, 12, 12, 12, 12, 12, 13, 14, 14, 15, 16, 16, 17, 18, 19, 20, 20, 20, 21, 22, 23, 24, 25, 25, 25}[n]
		var x interface{}
		switch typ {
		case "int8":
			x = int8(2*n - 9)
		case "string":
			x = string(rune('A' + n))
		case "float32":
			x = float32(n) - 3.5
		case "uint64":
			x = uint64(n) << 60 / 2 // (beyond the signed range)
		}
		v = append(v, x)
		vzMust(t.SetVal("k", r, x), "SetVal")
		vzMust(t.SetInt("p", r, r), "SetInt")
	}
	if typ == "uint64" {
		for r := 1; r < rows; r++ {
			a, b := v[r-1], v[r]
			if rev {
				a, b = b, a
			}
			if vzLess(b, a) { // wrapped round
				return
			}
		}
	}
	vzMust(t.SetSortKeys("k"), "SetSortKeys")
	if rev {
		vzMust(t.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	x := vzCellN(typ, "x", 1)
	vzAssume(vzNotNaN(x))
	if s, ok := x.(string); ok {
		vzASCII(s)
	}
	match := make([]bool, rows)
	for r := range v {
		match[r] = vzEq(v[r], x)
	}
	vzC07check(t, match, x)
}

// many keys: every one of them counts
func vzC07_many() {
	n := []int{5, 9, 17}[vzRange("keys", 0, 1+vzTier())]
	at := vzRange("at", 0, n-1)
	rows := 2
	t, keys := vzManyKeys("T", "id", n, at, rows, true)
	rev := vzManyRev(t, keys, at)
	s := vzSnap(t)
	for r := 1; r < rows; r++ {
		less, _ := vzManyLess(s.cells[r][1:], s.cells[r-1][1:], rev)
		vzAssume(!less)
	}
	x := append([]interface{}{}, s.cells[0][1:]...)
	x[at] = vzSortCell(vzManyTypes[at], "x", 1)
	if o := []int{at, 0, n - 1}[vzRange("other", 0, 2)]; o != at {
		x[o] = vzSortCell(vzManyTypes[o], "y", 1)
	}
	match := make([]bool, rows)
	for r := range match {
		_, match[r] = vzManyLess(s.cells[r][1:], x, rev)
	}
	vzC07check(t, match, x...)
}
