//go:build go1.21

package gotables

// NewTreeTable grows a tree out of a table: each NilTable cell gets a copy of the table, to a given depth.

type vzC95node struct {
	name  string
	cols  []string
	types []string
	shape bool
	cells [][]interface{} // nil: NilTable; *vzC95node: nested table
	at    *Table
}

func vzC95note(t *Table) *vzC95node {
	s := vzSnap(t)
	n := &vzC95node{s.name, s.names, s.types, s.shape, nil, t}
	for _, row := range s.cells {
		out := []interface{}{}
		for _, v := range row {
			if x, ok := v.(*Table); ok {
				is, err := x.IsNilTable()
				vzMust(err, "IsNilTable")
				v = nil
				if !is {
					v = vzC95note(x)
				}
			}
			out = append(out, v)
		}
		n.cells = append(n.cells, out)
	}
	return n
}

// vzC95tree: t is what n was, with orig in its empty cells, depth deep; seen has every table met so far.
func vzC95tree(t *Table, n, orig *vzC95node, depth int, seen map[*Table]bool) {
	vzAssert(!seen[t], "no table occurs twice in the tree")
	seen[t] = true
	if depth >= 0 && n != orig || depth < 0 {
		vzAssert(t != orig.at, "a table of the tree is no other table")
	}
	g := vzSnap(t)
	same := vzAnd(g.name == n.name, vzAnd(g.shape == n.shape, len(g.cells) == len(n.cells)))
	vzAssert(vzAnd(same, vzAnd(vzSameStrs(g.names, n.cols), vzSameStrs(g.types, n.types))), "a table of the tree has the name, columns, types and rows of the original")
	for r := range n.cells {
		for c, want := range n.cells[r] {
			got := g.cells[r][c]
			x, is := got.(*Table)
			if !is {
				vzAssert(vzSame(got, want), "a table of the tree has the cells of the original")
				continue
			}
			nilT, err := x.IsNilTable()
			vzMust(err, "IsNilTable")
			if w, ok := want.(*vzC95node); ok {
				vzAssert(!nilT, "nested tables stay")
				vzC95tree(x, w, orig, -1, seen)
			} else if depth > 0 {
				vzAssert(!nilT, "an empty cell is filled")
				vzC95tree(x, orig, orig, depth-1, seen)
			} else {
				vzAssert(nilT, "no cell below the depth is filled, nor any in tables that were nested before")
			}
		}
	}
}

func vzC95check(t *Table, depth int) {
	orig := vzC95note(t)
	keys, revs := vzKeys(t)
	tree, err := t.NewTreeTable(depth)
	vzMust(err, "NewTreeTable")
	vzAssert(tree == t, "the tree grows in the table itself")
	seen := map[*Table]bool{}
	orig.at = nil
	vzC95tree(t, orig, orig, depth, seen)
	k, r := vzKeys(t)
	vzAssert(vzSameStrs(k, keys), "the sort keys stay")
	for i := range r {
		vzAssert(r[i] == revs[i], "the sort keys stay")
	}
	vzInv(t, "tree")
	ok, err := t.IsValidTableNesting()
	vzAssert(ok && err == nil, "a tree has no circular reference")
	vzReach("end")
}

// vzC95cell fills a cell: nothing, a table, or a table with an empty and a full cell of its own.
func vzC95cell(t *Table, col string, row int, what int) {
	switch what {
	case 1:
		vzMust(t.SetTable(col, row, vzBuild("L", []string{"x"}, []string{"int16"}, 1, 1)), "SetTable")
	case 2:
		m := vzBuild("M", []string{"n", "x", "m"}, []string{"*Table", "bool", "*Table"}, 0, 1)
		vzMust(m.AppendRow(), "AppendRow")
		vzMust(m.SetTable("m", 0, vzBuild("T", []string{"n"}, []string{"string"}, 0, 1)), "SetTable")
		vzMust(t.SetTable(col, row, m), "SetTable")
	}
}

func vzC95_tree() {
	t := vzBuild("T", []string{"a", "n", "b"}, []string{"string", "*Table", "int64"}, 0, 1)
	rows := vzRange("rows", 0, 2)
	vzMust(t.AppendRows(rows), "AppendRows")
	for r := 0; r < rows; r++ {
		vzMust(t.SetString("a", r, vzStr("a", 1)), "SetString")
		vzMust(t.SetInt64("b", r, vzInt64("b")), "SetInt64")
		vzC95cell(t, "n", r, vzRange("cell", 0, 2))
	}
	if vzBool("keys") {
		vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
		vzMust(t.SetSortKeysReverse("a"), "SetSortKeysReverse")
	}
	vzC95check(t, vzRange("depth", 0, 2+vzTier()))
}

func vzC95_cols() {
	t := vzBuild("T", []string{"n", "m"}, []string{"*Table", "*Table"}, 0, 1)
	rows := vzRange("rows", 0, 2)
	vzMust(t.AppendRows(rows), "AppendRows")
	for r := 0; r < rows; r++ {
		vzC95cell(t, "n", r, vzRange("n", 0, 1))
		vzC95cell(t, "m", r, vzRange("m", 0, 1))
	}
	if rows == 1 {
		vzMust(t.SetStructShape(vzBool("shape")), "SetStructShape")
	}
	vzC95check(t, vzRange("depth", 0, 2))
}

// deep and wide
func vzC95_big() {
	t := vzBuild("T", []string{"v", "n"}, []string{"uint8", "*Table"}, 0, 1)
	if vzBool("deep") {
		vzMust(t.AppendRow(), "AppendRow")
		vzC95check(t, vzRange("depth", 3, 9))
		return
	}
	vzMust(t.AppendRows(vzRange("rows", 3, 9)), "AppendRows")
	vzC95cell(t, "n", 2, vzRange("cell", 0, 2))
	vzC95check(t, 1)
}

// what NewTreeTable refuses it leaves as it was
func vzC95_refused() {
	t := vzBuild("T", []string{"n", "v"}, []string{"*Table", "int"}, 0, 1)
	vzMust(t.AppendRows(2), "AppendRows")
	depth := vzInt("depth")
	if vzBool("cycle") {
		if vzBool("self") {
			_ = t.SetTable("n", 1, t)
		} else {
			u := vzBuild("U", []string{"n"}, []string{"*Table"}, 0, 1)
			vzMust(u.AppendRow(), "AppendRow")
			_ = t.SetTable("n", 1, u)
			_ = u.SetTable("n", 0, t)
		}
		has, _ := t.HasCircularReference()
		vzAssume(has)
		vzAssume(vzAnd(depth > -3, depth < 3))
	} else {
		vzAssume(depth < 0)
	}
	before := vzSnap(t)
	_, err := t.NewTreeTable(depth)
	if depth != 0 {
		vzAssert(err != nil, "a negative depth, or a table that contains itself, is refused")
	}
	after := vzSnap(t)
	vzAssert(vzSameStrs(after.names, before.names) && len(after.cells) == len(before.cells), "what is refused changes nothing")
	for r := range before.cells {
		vzAssert(after.cells[r][0].(*Table) == before.cells[r][0].(*Table) && vzSame(after.cells[r][1], before.cells[r][1]), "what is refused changes nothing")
	}
	vzReach("end")
}
