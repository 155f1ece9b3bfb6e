//go:build go1.21

package gotables

// One arbitrary public operation on a table, with arbitrary (valid and invalid) arguments.
// Shared by the history (C01) and failure-atomicity (C22) harnesses.

var vzOpCols = []string{"a", "b", "f", "n", "int", ""} // existing: a b f (f may be renamed or deleted), new: n, invalid: int, ""

const vzOpsN = 38

func vzOpCol(name string) string { return vzOpCols[vzRange(name, 0, len(vzOpCols)-1)] }

// vzOpExist: mostly existing or plausible column names.
func vzOpExist(name string) string { return []string{"a", "b", "f", "n"}[vzRange(name, 0, 3)] }

func vzOpVal(name string) interface{} {
	switch vzRange(name+".k", 0, 4) {
	case 0:
		return vzInt(name + ".i")
	case 1:
		return vzStr(name+".s", 1)
	case 2:
		return vzFloat64(name + ".f")
	case 3:
		return nil
	default:
		return []byte{1}
	}
}

// vzOpOther makes another table: kind 0 has fewer columns, 1 more, 2 a clash of types in its second column, 3 is empty, 4 is nil
func vzOpOther(kind int) *Table {
	var t *Table
	switch kind {
	case 0:
		t = vzBuild("O", []string{"b"}, []string{"string"}, 2, 1)
	case 1:
		t = vzBuild("O", []string{"b", "n", "a"}, []string{"string", "bool", "int"}, 2, 1)
	case 2:
		t = vzBuild("O", []string{"n", "b", "m"}, []string{"int8", "int", "uint"}, 2, 1)
	case 3:
		t = vzBuild("O", []string{"a", "b", "f"}, []string{"int", "string", "float64"}, 0, 1)
	default:
		return nil
	}
	return t
}

// vzOpKeys: a short list of sort key names, some unknown.
func vzOpKeys(name string) []string {
	return [][]string{{}, {"a"}, {"b", "a"}, {"f", "zz"}, {"n"}, {"a", "b", "f"}}[vzRange(name, 0, 5)]
}

// vzOp performs operation op on t; it tells the operation's error and whether the operation may have been a success with a partial effect.
func vzOp(t *Table, op int) error { return vzOpDraw(op)(t) }

// vzOpDraw draws the arguments of operation op.
func vzOpDraw(op int) func(t *Table) error {
	type T = *Table
	switch op {
	case 0:
		c, y := vzOpCol("op.col"), []string{"int", "string", "zork", "[]byte"}[vzRange("op.type", 0, 3)]
		return func(t T) error { return t.AppendCol(c, y) }
	case 1:
		c := vzOpCol("op.col")
		return func(t T) error { return t.DeleteCol(c) }
	case 2:
		c := vzInt("op.ci")
		return func(t T) error { return t.DeleteColByColIndex(c) }
	case 3:
		c, n := vzOpExist("op.col"), vzOpCol("op.new")
		return func(t T) error { return t.RenameCol(c, n) }
	case 4:
		c, n := vzInt("op.ci"), vzOpCol("op.new")
		return func(t T) error { return t.RenameColByColIndex(c, n) }
	case 5:
		o := [][]string{{"b", "a", "f"}, {"f", "a", "b"}, {"a", "a", "b"}, {"a", "b"}, {"a", "zz", "f"}, {}}[vzRange("op.order", 0, 5)]
		return func(t T) error { return t.ReorderCols(o...) }
	case 6:
		a, b, c := vzInt("op.o0"), vzInt("op.o1"), vzInt("op.o2")
		return func(t T) error { return t.ReorderColsByColIndex(a, b, c) }
	case 7:
		c, n := vzOpExist("op.col"), vzOpCol("op.new")
		return func(t T) error { return t.SwapCols(c, n) }
	case 8:
		a, b := vzInt("op.ci"), vzInt("op.ci2")
		return func(t T) error { return t.SwapColsByColIndex(a, b) }
	case 9:
		return func(t T) error { return t.AppendRow() }
	case 10:
		n := vzRange("op.n", -1, 2)
		return func(t T) error { return t.AppendRows(n) }
	case 11:
		r := vzInt("op.ri")
		return func(t T) error { return t.DeleteRow(r) }
	case 12:
		a, b := vzInt("op.ri"), vzInt("op.ri2")
		return func(t T) error { return t.DeleteRows(a, b) }
	case 13:
		return func(t T) error { return t.DeleteRowsAll() }
	case 14:
		c, r, v := vzOpExist("op.col"), vzInt("op.ri"), vzOpVal("op.val")
		return func(t T) error { return t.SetVal(c, r, v) }
	case 15:
		c, r, v := vzInt("op.ci"), vzInt("op.ri"), vzOpVal("op.val")
		return func(t T) error { return t.SetValByColIndex(c, r, v) }
	case 16:
		k := vzOpKeys("op.keys")
		return func(t T) error { return t.SetSortKeys(k...) }
	case 17:
		k := vzOpKeys("op.keys")
		return func(t T) error { return t.SetSortKeysReverse(k...) }
	case 18:
		c := vzOpCol("op.col")
		return func(t T) error { return t.AppendSortKey(c) }
	case 19:
		c := vzOpCol("op.col")
		return func(t T) error { return t.DeleteSortKey(c) }
	case 20:
		o := vzOpOther(vzRange("op.other", 0, 4))
		if o != nil && vzRange("op.okeys", 0, 1) == 1 {
			vzMust(o.SetSortKeys("b"), "SetSortKeys of the other table")
			vzMust(o.SetSortKeysReverse("b"), "SetSortKeysReverse of the other table")
			if has, _ := o.HasCol("n"); has {
				vzMust(o.AppendSortKey("n"), "AppendSortKey of the other table")
			}
		}
		return func(t T) error { return t.SetSortKeysFromTable(o) }
	case 21:
		return func(t T) error { return t.OrderColsBySortKeys() }
	case 22:
		k := vzOpKeys("op.keys")
		return func(t T) error { vzC22num(t); return t.Sort(k...) }
	case 23:
		k := vzOpKeys("op.keys")
		return func(t T) error { vzC22num(t); return t.SortSimple(k...) }
	case 24:
		return func(t T) error { return t.Reverse() }
	case 25:
		n := []string{"N", "", "int", "9x", "a b"}[vzRange("op.name", 0, 4)]
		return func(t T) error { return t.SetName(n) }
	case 26:
		b := vzRange("op.struct", 0, 1) == 1
		return func(t T) error { return t.SetStructShape(b) }
	case 27:
		o, a, b := vzOpOther(vzRange("op.other", 0, 4)), vzRange("op.from", -1, 2), vzRange("op.to", -1, 2)
		return func(t T) error { return t.AppendRowsFromTable(o, a, b) }
	case 28:
		o := vzOpOther(vzRange("op.other", 0, 4))
		return func(t T) error { return t.AppendColsFromTable(o) }
	case 29:
		c, r := vzOpExist("op.col"), vzInt("op.ri")
		return func(t T) error { return t.SetCellToZeroValue(c, r) }
	case 30:
		c := vzOpExist("op.col")
		return func(t T) error { return t.SetColCellsToZeroValue(c) }
	case 31:
		c := vzOpExist("op.col")
		return func(t T) error { return t.SetColFloatCellsToNaN(c) }
	case 32:
		r := vzInt("op.ri")
		return func(t T) error { return t.SetRowFloatCellsToNaN(r) }
	case 33:
		r := vzInt("op.ri")
		return func(t T) error { return t.SetRowCellsToZeroValue(r) }
	case 34:
		c, r, v := vzOpExist("op.col"), vzInt("op.ri"), vzInt("op.v")
		return func(t T) error { return t.SetInt(c, r, v) }
	case 35:
		c, r, v := vzInt("op.ci"), vzInt("op.ri"), vzStr("op.v", 1)
		return func(t T) error { return t.SetStringByColIndex(c, r, v) }
	case 36:
		c, r := vzInt("op.ci"), vzInt("op.ri")
		return func(t T) error { return t.SetFloatCellToNaNByColIndex(c, r) }
	case 37:
		c, r := vzInt("op.ci"), vzInt("op.ri")
		return func(t T) error { return t.SetCellToZeroValueByColIndex(c, r) }
	}
	panic("vzOp")
}

// vzC22num: sorting is only specified without NaN.
func vzC22num(t *Table) {
	for c := 0; c < t.ColCount(); c++ {
		for r := 0; r < t.RowCount(); r++ {
			v, err := t.GetValByColIndex(c, r)
			vzMust(err, "GetValByColIndex")
			vzAssume(vzNotNaN(v))
			if s, ok := v.(string); ok {
				vzASCII(s)
			}
		}
	}
}
