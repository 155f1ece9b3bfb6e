//go:build go1.21

package gotables

// Reverse and shuffle permute rows and nothing else.

func vzC26_reverse() {
	rows := vzRange("rows", 0, 4+3*vzTier())
	t := vzBuild("T", []string{"i", "s", "b"}, []string{"int64", "string", "[]byte"}, rows, 1)
	vzMust(t.SetSortKeys("s", "i"), "SetSortKeys")
	want := vzSnap(t)
	exp := *want
	exp.cells = nil
	for r := rows - 1; r >= 0; r-- {
		exp.cells = append(exp.cells, want.cells[r])
	}
	vzMust(t.Reverse(), "Reverse")
	vzAssert(vzSnapSame(vzSnap(t), &exp), "reversing puts exactly the same rows in the opposite order")
	vzInv(t, "after Reverse")
	vzMust(t.Reverse(), "Reverse")
	vzAssert(vzSnapSame(vzSnap(t), want), "reversing twice restores the table")
	vzReach("end")
}

// vzIsPerm: b is a permutation of the rows of a (whole rows, with multiplicity); no forking on cell values.
func vzIsPerm(a, b [][]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	same := func(x, y []interface{}) bool { return vzSameCells([][]interface{}{x}, [][]interface{}{y}) }
	ok := true
	for i := range a {
		n, m := 0, 0
		for j := range a {
			n += vzB2I(same(a[i], a[j]))
			m += vzB2I(same(a[i], b[j]))
		}
		ok = vzAnd(ok, n == m)
	}
	return ok
}

func vzC26shuffle(rows int, types []string) {
	vzFlag("rand", 1)
	t := vzBuild("T", []string{"p", "q"}, types, rows, 1)
	vzMust(t.SetSortKeys("q"), "SetSortKeys")
	want := vzSnap(t)
	if vzRange("how", 0, 1) == 0 {
		vzMust(t.ShuffleRandom(), "ShuffleRandom")
	} else {
		vzMust(t.ShufflePseudorandom(), "ShufflePseudorandom")
	}
	got := vzSnap(t)
	vzAssert(vzIsPerm(want.cells, got.cells), "shuffling yields a permutation of the rows")
	exp := *want
	exp.cells = got.cells
	vzAssert(vzSnapSame(got, &exp), "shuffling keeps name, columns and sort keys")
	vzReach("end")
}

func vzC26_shuffle01() { vzC26shuffle(vzRange("rows", 0, 1), []string{"int64", "string"}) }
func vzC26_shuffle2()  { vzC26shuffle(2, []string{"int64", "string"}) }
func vzC26_shuffle3()  { vzC26shuffle(3, []string{"uint8", "bool"}) }
func vzC26_shuffle4()  { vzC26shuffle(4+vzTier(), []string{"int16", "int8"}) }

// many rows
func vzC26_big() {
	types, _ := vzBigShape("big", vzAllTypes)
	rows := []int{9, 12, 13, 33}[vzRange("rows", 0, 3)]
	t := vzBig("T", types, rows)
	want := vzSnap(t)
	exp := *want
	exp.cells = nil
	for r := rows - 1; r >= 0; r-- {
		exp.cells = append(exp.cells, want.cells[r])
	}
	vzMust(t.Reverse(), "Reverse")
	vzAssert(vzSnapSame(vzSnap(t), &exp), "reversing puts exactly the same rows in the opposite order")
	vzReach("end")
}

// the pseudorandom order depends on the number of rows only
func vzC26_same() {
	vzFlag("rand", 1)
	n := vzRange("rows", 0, 4)
	if n > 1 && vzReplayed() {
		n = 40 // different orders of few rows may be equal by chance
	}
	mk := func(cell string, typ string) *Table {
		t := vzBuild("T", []string{"i", "c"}, []string{"int", typ}, 0, 1)
		for r := 0; r < n; r++ {
			vzMust(t.AppendRow(), "AppendRow")
			vzMust(t.SetInt("i", r, r), "SetInt")
			vzMust(t.SetVal("c", r, vzCellN(typ, cell, 1)), "SetVal")
		}
		return t
	}
	typ := []string{"int", "string", "bool"}[vzRange("type", 0, 2)]
	a, b := mk("a", "int"), mk("b", typ)
	vzMust(a.ShufflePseudorandom(), "ShufflePseudorandom")
	switch vzRange("between", 0, 3) {
	case 1:
		other := mk("o", "int")
		vzMust(other.ShuffleRandom(), "ShuffleRandom")
	case 2:
		other := mk("o", "int")
		vzMust(other.AppendRows(vzRange("more", 0, 1)), "AppendRows")
		vzMust(other.ShufflePseudorandom(), "ShufflePseudorandom")
	case 3:
		vzMust(b.SetSortKeys("c"), "SetSortKeys")
	}
	vzMust(b.ShufflePseudorandom(), "ShufflePseudorandom")
	for r := 0; r < n; r++ {
		x, err := a.GetInt("i", r)
		vzMust(err, "GetInt")
		y, err := b.GetInt("i", r)
		vzMust(err, "GetInt")
		vzAssert(x == y, "tables of the same size are shuffled pseudorandomly into the same order")
	}
	vzReach("end")
}
