//go:build go1.21

package gotables

// Cell setters and getters: round trip, frame, rejection.

// vzC02rt: any setter at any cell, then every getter at every cell.
func vzC02rt(typ string) {
	rows := 2 + vzTier()
	t := vzBuild("T", []string{"a", "x", "y", "b"}, []string{"int8", typ, typ, "string"}, rows, 1)
	vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
	acc := vzAccOf(typ)
	sets := append(append([]vzSetF{}, acc.set...), vzGenSet...)
	gets := append(append([]vzGetF{}, acc.get...), vzGenGet...)
	how := vzRange("setter", 0, len(sets)-1)
	if how%2 == 1 {
		vzMust(t.SetSortKeysReverse("a"), "SetSortKeysReverse")
	}
	if how%3 == 1 {
		vzMust(t.SetStructShape(true), "SetStructShape")
	}
	want := vzSnap(t)
	ci := vzRange("col", 1, 2)
	r := vzRange("row", 0, rows-1)
	v := vzCell(typ, "new", 2)
	vzMust(sets[how](t, want.names[ci], ci, r, v), "set an existing cell to a value of its type")
	want.cells[r][ci] = vzKeep(v)
	vzAssert(vzSnapSame(vzSnap(t), want), "after a set the table differs in exactly the cell set")
	for rr := 0; rr < rows; rr++ {
		for c := 1; c <= 2; c++ {
			for _, g := range gets {
				got, err := g(t, want.names[c], c, rr)
				vzMust(err, "every getter of the type reads an existing cell")
				vzAssert(vzSame(got, want.cells[rr][c]), "getter returns the cell's value")
			}
		}
	}
	has, err := t.HasCell(want.names[ci], r)
	vzAssert(has && err == nil, "HasCell of an existing cell")
	has, err = t.HasCellByColIndex(ci, r)
	vzAssert(has && err == nil, "HasCellByColIndex of an existing cell")
	vzReach("end")
}

// vzC02oor: any accessor with a row, a column index or a column name outside the table.
func vzC02oor(typ string) {
	rows := vzRange("rows", 0, 1)
	t := vzBuild("T", []string{"x", "a"}, []string{typ, "int8"}, rows, 1)
	acc := vzAccOf(typ)
	sets := append(append([]vzSetF{}, acc.set...), vzGenSet...)
	gets := append(append([]vzGetF{}, acc.get...), vzGenGet...)
	want := vzSnap(t)
	name, ci, r := "x", 0, 0
	bad := vzRange("bad", 0, 1)
	badName := true
	if bad == 0 {
		r = vzInt("row")
		vzAssume(vzOr(r < 0, r >= rows))
	} else {
		ci = vzInt("col")
		vzAssume(vzOr(ci < 0, ci > 1))
		name = vzStr("name", vzRange("namelen", 0, 1))
		vzAssume(vzAnd(name != "x", name != "a"))
		badName = true
	}
	_ = badName
	v := vzCell(typ, "new", 1)
	for _, s := range sets {
		vzAssert(s(t, name, ci, r, v) != nil, "setting a cell outside the table is an error")
	}
	for _, g := range gets {
		_, err := g(t, name, ci, r)
		vzAssert(err != nil, "getting a cell outside the table is an error")
	}
	has, err := t.HasCell(name, r)
	vzAssert(!has && err != nil, "HasCell outside the table")
	has, err = t.HasCellByColIndex(ci, r)
	vzAssert(!has && err != nil, "HasCellByColIndex outside the table")
	vzAssert(vzSnapSame(vzSnap(t), want), "a refused access changes nothing")
	vzReach("end")
}

// vzC02mis: accessors of one type on a column of every type.
func vzC02mis(typ string) {
	var names []string
	for i := range vzAllTypes {
		names = append(names, "c"+string(rune('a'+i)))
	}
	t, err := NewTableFromMetadata("T", names, vzAllTypes)
	vzMust(err, "NewTableFromMetadata")
	vzMust(t.AppendRow(), "AppendRow")
	acc := vzAccOf(typ)
	for c, ct := range vzAllTypes {
		vzMust(t.SetVal(names[c], 0, vzCellN(ct, "old", 1)), "SetVal")
	}
	v := vzCell(typ, "new", 1)
	want := vzSnap(t)
	for c, ct := range vzAllTypes {
		if vzAliasTypes(typ, ct) {
			continue
		}
		for _, s := range acc.set {
			vzAssert(s(t, names[c], c, 0, v) != nil, "typed setter refuses a column of another type")
		}
		for _, s := range vzGenSet {
			vzAssert(s(t, names[c], c, 0, v) != nil, "generic setter refuses a value of another type")
		}
		for _, g := range acc.get {
			_, err := g(t, names[c], c, 0)
			vzAssert(err != nil, "typed getter refuses a column of another type")
		}
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "refused accesses change nothing")
	for c, ct := range vzAllTypes {
		if !vzAliasTypes(typ, ct) {
			continue
		}
		for k, s := range append(append([]vzSetF{}, acc.set...), vzGenSet...) {
			v := vzCellN(typ, "ali", 1)
			vzMust(s(t, names[c], c, 0, v), "setter accepts its type's alias")
			want.cells[0][c] = vzKeep(v)
			for _, g := range acc.get {
				got, err := g(t, names[c], c, 0)
				vzMust(err, "getter accepts its type's alias")
				vzAssert(vzSame(got, v), "getter returns the alias cell's value")
			}
			_ = k
		}
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "only the cells set have changed")
	vzReach("end")
}

// a larger table: one cell set at any position, nothing else changes
func vzC02_big() {
	types, rows := vzBigShape("big", vzAllTypes)
	t := vzBig("T", types, rows)
	want := vzSnap(t)
	c, r := vzRange("c", 0, len(types)-1), vzRange("r", 0, rows-1)
	vzAssume(vzOr(c == 0, vzOr(c == len(types)-1, vzOr(r == 0, r == rows-1))))
	v := vzCellN(types[c], "v", 1)
	acc := vzAccOf(types[c])
	sets := append(append([]vzSetF{}, vzGenSet...), acc.set...)
	by := vzRange("by", 0, len(sets)-1)
	if by > 1 && vzTier() == 0 { // the typed ones: around the middle and the corners
		vzAssume(vzOr(vzAnd(vzOr(c == 0, c == len(types)-1), vzOr(r == 0, r == rows-1)), vzOr(c == len(types)/2, r == rows/2)))
	}
	vzMust(sets[by](t, "c"+vzDec(c), c, r, v), "set an existing cell to a value of its type")
	want.cells[r][c] = vzKeep(v)
	for _, p := range [][2]int{{c, r}, {0, 0}, {len(types) - 1, rows - 1}, {len(types) - 1, 0}, {0, rows - 1}} {
		for _, g := range append(append([]vzGetF{}, vzAccOf(types[p[0]]).get...), vzGenGet...) {
			got, err := g(t, "c"+vzDec(p[0]), p[0], p[1])
			vzMust(err, "every getter of the type reads an existing cell")
			vzAssert(vzSame(got, want.cells[p[1]][p[0]]), "getter returns the cell's value")
		}
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "setting a cell changes that cell only")
	vzReach("end")
}
