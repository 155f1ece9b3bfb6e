//go:build go1.21

package gotables

// CompareRows: a consistent order that agrees with Sort.

func vzC06one(typ string, maxLen int) {
	t, err := NewTableFromMetadata("T", []string{"p", "k"}, []string{"int8", typ})
	vzMust(err, "NewTableFromMetadata")
	var v []interface{}
	for r := 0; r < 3; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		x := vzSortCell(typ, "k", maxLen)
		v = append(v, x)
		vzMust(t.SetVal("k", r, x), "SetVal")
		vzMust(t.SetInt8("p", r, vzInt8("p")), "SetInt8")
	}
	vzMust(t.SetSortKeys("k"), "SetSortKeys")
	rev := vzRange("rev", 0, 1) == 1
	if rev {
		vzMust(t.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	want := vzSnap(t)
	var c [3][3]int
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			x, err := t.CompareRows(i, j)
			vzMust(err, "CompareRows of existing rows")
			vzAssert(x == -1 || x == 0 || x == 1, "CompareRows is -1, 0 or 1")
			c[i][j] = x
		}
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "comparing changes nothing")
	for i := 0; i < 3; i++ {
		vzAssert(c[i][i] == 0, "a row equals itself")
		for j := 0; j < 3; j++ {
			vzAssert(c[i][j] == -c[j][i], "antisymmetric")
			vzAssert((c[i][j] == 0) == vzEq(v[i], v[j]), "zero exactly when the key cells are equal")
			if rev {
				vzAssert((c[i][j] < 0) == vzLess(v[j], v[i]), "reversed key: descending order")
			} else {
				vzAssert((c[i][j] < 0) == vzLess(v[i], v[j]), "ascending order")
			}
			for k := 0; k < 3; k++ {
				vzAssert(vzImplies(c[i][j] <= 0 && c[j][k] <= 0, c[i][k] <= 0), "transitive")
			}
		}
	}
	vzMust(t.Sort(), "Sort")
	for i := 0; i < 2; i++ {
		x, err := t.CompareRows(i, i+1)
		vzMust(err, "CompareRows after Sort")
		vzAssert(x <= 0, "after sorting no row compares greater than its successor")
	}
	vzReach("end")
}

func vzC06_bool()    { vzC06one("bool", 0) }
func vzC06_float32() { vzC06one("float32", 0) }
func vzC06_float64() { vzC06one("float64", 0) }
func vzC06_int()     { vzC06one("int", 0) }
func vzC06_int16()   { vzC06one("int16", 0) }
func vzC06_int32()   { vzC06one("int32", 0) }
func vzC06_int64()   { vzC06one("int64", 0) }
func vzC06_int8()    { vzC06one("int8", 0) }
func vzC06_string()  { vzC06one("string", 1+vzTier()) }
func vzC06_uint()    { vzC06one("uint", 0) }
func vzC06_uint16()  { vzC06one("uint16", 0) }
func vzC06_uint32()  { vzC06one("uint32", 0) }
func vzC06_uint64()  { vzC06one("uint64", 0) }
func vzC06_uint8()   { vzC06one("uint8", 0) }

// two keys, any direction: lexicographic
func vzC06_two() {
	t, err := NewTableFromMetadata("T", []string{"a", "b"}, []string{"int16", "string"})
	vzMust(err, "NewTableFromMetadata")
	var a [2]int16
	var b [2]string
	for r := 0; r < 2; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		a[r] = vzInt16("a")
		b[r] = vzStr("b", vzRange("len", 0, 1))
		vzASCII(b[r])
		vzMust(t.SetInt16("a", r, a[r]), "SetInt16")
		vzMust(t.SetString("b", r, b[r]), "SetString")
	}
	vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
	ra, rb := vzRange("ra", 0, 1) == 1, vzRange("rb", 0, 1) == 1
	if ra {
		vzMust(t.SetSortKeysReverse("a"), "SetSortKeysReverse")
	}
	if rb {
		vzMust(t.SetSortKeysReverse("b"), "SetSortKeysReverse")
	}
	x, err := t.CompareRows(0, 1)
	vzMust(err, "CompareRows")
	lb, gb := vzLess(b[0], b[1]), vzLess(b[1], b[0])
	la, ga := a[0] < a[1], a[1] < a[0]
	if ra {
		la, ga = ga, la
	}
	if rb {
		lb, gb = gb, lb
	}
	less := vzOr(lb, vzAnd(!gb, la))
	greater := vzOr(gb, vzAnd(!lb, ga))
	vzAssert((x < 0) == less, "less: lexicographic over the keys")
	vzAssert((x > 0) == greater, "greater: lexicographic over the keys")
	vzReach("end")
}

func vzC06_errors() {
	t := vzBuild("T", []string{"a"}, []string{"int"}, 2, 0)
	i, j := vzInt("i"), vzInt("j")
	_, err := t.CompareRows(i, j)
	vzAssert(err != nil, "comparing without sort keys is an error")
	vzMust(t.SetSortKeys("a"), "SetSortKeys")
	_, err = t.CompareRows(i, j)
	in := vzAnd(vzAnd(0 <= i, i <= 1), vzAnd(0 <= j, j <= 1))
	vzAssert((err == nil) == in, "comparing rows outside the table is an error")
	vzReach("end")
}

// many keys: every one of them counts
func vzC06_many() {
	n := []int{5, 9, 17}[vzRange("keys", 0, 1+vzTier())]
	at := vzRange("at", 0, n-1)
	t, keys := vzManyKeys("T", "id", n, at, 2, vzRange("same", 0, 1) == 1)
	rev := vzManyRev(t, keys, at)
	s := vzSnap(t)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			x, err := t.CompareRows(i, j)
			vzMust(err, "CompareRows of existing rows")
			less, eq := vzManyLess(s.cells[i][1:], s.cells[j][1:], rev)
			vzAssert((x < 0) == less && (x == 0) == eq, "CompareRows is lexicographic over the keys")
		}
	}
	vzReach("end")
}
