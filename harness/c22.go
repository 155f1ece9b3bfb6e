//go:build go1.21

package gotables

// A failed operation leaves the table exactly as it was.

func vzC22op(lo, hi int) {
	t := vzBuild("T", []string{"a", "b", "f"}, []string{"int", "string", "float64"}, 2, 1)
	switch vzRange("prekeys", 0, 1+vzTier()) {
	case 1:
		vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
		vzMust(t.SetSortKeysReverse("b"), "SetSortKeysReverse")
	case 2:
		vzMust(t.SetSortKeys("a", "b"), "SetSortKeys")
	}
	want := vzSnap(t)
	op := vzRange("op", lo, hi)
	err := vzOp(t, op)
	if err == nil {
		vzReach("ok")
		return
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "a failed operation leaves the table unchanged")
	vzInv(t, "after a failed operation")
	vzReach("failed")
}

func vzC22_cols()  { vzC22op(0, 4) }
func vzC22_order() { vzC22op(5, 8) }
func vzC22_rows()  { vzC22op(9, 15) }
func vzC22_keys()  { vzC22op(16, 21) }
func vzC22_sort()  { vzC22op(22, 26) }
func vzC22_from()  { vzC22op(27, 28) }
func vzC22_zero()  { vzC22op(29, 37) }

// a table of twelve rows and columns
func vzC22_big() {
	t := vzBigNamed("T", []string{"a", "b", "f", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11"}, append([]string{"int", "string", "float64"}, vzBigTypes(vzAllTypes, 4, 9)...), 12)
	vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
	want := vzSnap(t)
	if vzOp(t, vzRange("op", 0, vzOpsN-1)) == nil {
		vzReach("ok")
		return
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "a failed operation leaves the table unchanged")
	vzReach("failed")
}

// an operation that fails at a late column, key or name has not done the earlier ones
func vzC22_late() {
	n := 11
	at := vzRange("at", 0, n-1)
	names := []string{"a", "b", "f", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10"}
	types := []string{"int", "string", "float64", "bool", "uint8", "int32", "uint64", "int8", "string", "float32", "uint"}
	t := vzBigNamed("T", names, types, 3)
	vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
	vzMust(t.SetSortKeysReverse("a"), "SetSortKeysReverse")
	want := vzSnap(t)
	bad := append([]string{}, names...)
	bad[at] = "zz"
	dup := append([]string{}, names...)
	dup[at] = names[(at+1)%n]
	clash := append([]string{}, types...)
	clash[at] = "[]byte"
	var err error
	switch vzRange("op", 0, 9) {
	case 0:
		err = t.SetSortKeys(bad...)
	case 1:
		vzMust(t.SetSortKeys(names...), "SetSortKeys")
		want = vzSnap(t)
		err = t.SetSortKeysReverse(bad...)
	case 2:
		err = t.ReorderCols(bad...)
	case 3:
		err = t.ReorderCols(dup...)
	case 4:
		ix := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
		ix[at] = vzInt("ix")
		vzAssume(ix[at] != at)
		err = t.ReorderColsByColIndex(ix...)
	case 5:
		err = t.AppendColsFromTable(vzBigNamed("O", names, clash, 1))
	case 6: // new columns before the clash
		more := append([]string{}, names...)
		for i := 0; i < at; i++ {
			more[i] = "new" + vzDec(i)
		}
		err = t.AppendColsFromTable(vzBigNamed("O", more, clash, 1))
	case 7:
		err = t.AppendRowsFromTable(vzBigNamed("O", names, clash, 12), 0, at)
	case 8:
		err = t.AppendRowsFromTable(vzBigNamed("O", bad, types, 12), 0, at)
	case 9:
		o := vzBigNamed("O", bad, types, 1)
		vzMust(o.SetSortKeys(bad...), "SetSortKeys")
		err = t.SetSortKeysFromTable(o)
	}
	vzAssert(err != nil, "a bad column or key among good ones is refused")
	vzAssert(vzSnapSame(vzSnap(t), want), "a failed operation leaves the table unchanged")
	vzReach("end")
}
