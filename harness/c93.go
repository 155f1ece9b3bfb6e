//go:build go1.21

package gotables

import "strings"

// The nested text form shows a table and every table nested in it, each once, as a table set that can be read.

// vzC93expect: the nested tables in the order they are shown: by column, then by row, each followed by its own.
func vzC93expect(t *Table, out []*Table) []*Table {
	out = append(out, t)
	for c := 0; c < t.ColCount(); c++ {
		for r := 0; r < t.RowCount(); r++ {
			v, err := t.GetValByColIndex(c, r)
			vzMust(err, "GetValByColIndex")
			if n, ok := v.(*Table); ok {
				out = vzC93expect(n, out)
			}
		}
	}
	return out
}

func vzC93leaf(name string, typ string) *Table {
	rows := vzRange(name+".rows", 0, 1)
	t := vzBuild(name, []string{"v"}, []string{typ}, rows, 1)
	if rows == 1 && vzRange(name+".shape", 0, 1) == 1 {
		vzMust(t.SetStructShape(true), "SetStructShape")
	}
	return t
}

// vzC93fill puts a leaf, a table with two more nested tables, or nothing in a cell.
func vzC93fill(t *Table, col string, row int, name string, typ string, deep int) {
	switch vzRange(name, 0, 1+deep) {
	case 1:
		vzMust(t.SetTable(col, row, vzC93leaf(name, typ)), "SetTable")
	case 2:
		mid := vzBuild(name, []string{"n", "s", "m"}, []string{"*Table", "string", "*Table"}, 0, 1)
		vzMust(mid.AppendRow(), "AppendRow")
		vzMust(mid.SetString("s", 0, name), "SetString")
		vzC93fill(mid, "n", 0, name+"n", typ, deep-1)
		vzC93fill(mid, "m", 0, "A", typ, 0)
		vzMust(t.SetTable(col, row, mid), "SetTable")
	}
}

func vzC93check(t *Table) {
	want := vzC93expect(t, nil)
	var before []*vzSnapT
	for _, w := range want {
		before = append(before, vzSnap(w))
	}
	s := t.StringNested()
	for i, w := range want {
		vzAssert(vzSnapSame(vzSnap(w), before[i]), "formatting changes nothing")
	}
	set, err := NewTableSetFromString(s)
	vzMust(err, "the nested text form can be read as a table set")
	vzAssert(set.TableCount() == len(want), "the nested text form shows each table once")
	for i, w := range want {
		got, err := set.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzInv(got, "table read from the nested text form")
		if i == 0 {
			vzAssert(got.Name() == w.Name(), "the outermost table keeps its name")
		}
		vzAssert(strings.HasPrefix(got.Name(), w.Name()), "a nested table is shown under a name that begins with its own")
		g, x := vzSnap(got), before[i]
		vzAssert(vzSameStrs(g.names, x.names) && vzSameStrs(g.types, x.types) && g.shape == x.shape, "each table is shown with its columns and shape")
		vzAssert(len(g.cells) == len(x.cells), "each table is shown with its rows")
		for r := range g.cells {
			for c := range g.cells[r] {
				if n, ok := x.cells[r][c].(*Table); ok {
					m, ok := g.cells[r][c].(*Table)
					vzAssert(ok && m.Name() == n.Name(), "a cell with a nested table is shown with its name")
				} else {
					vzAssert(vzSame(g.cells[r][c], x.cells[r][c]), "each table is shown with its cells")
				}
			}
		}
	}
	vzReach("end")
}

func vzC93_one() {
	t := vzBuild("T", []string{"a", "n", "b"}, []string{"string", "*Table", "bool"}, 0, 1)
	rows := vzRange("rows", 0, 1+vzTier())
	typ := []string{"int16", "string", "[]byte", "uint64"}[vzRange("type", 0, 3)]
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.SetString("a", r, vzStr("a", 1)), "SetString")
		if r == 0 {
			vzC93fill(t, "n", r, "L", typ, 0)
		} else {
			vzC93fill(t, "n", r, "Same", "bool", 0)
		}
	}
	vzC93check(t)
}

func vzC93_deep() {
	t := vzBuild("T", []string{"n", "m"}, []string{"*Table", "*Table"}, 0, 1)
	vzMust(t.AppendRows(2), "AppendRows")
	vzC93fill(t, "n", 0, "A", "bool", 2)
	if vzTier() > 0 {
		vzC93fill(t, "n", 1, "B", "bool", 1)
	}
	vzC93fill(t, "m", 1, "A", "bool", 0)
	vzC93check(t)
}

// many rows, columns and levels; the same name everywhere
func vzC93_big() {
	t := vzBuild("T", []string{"v"}, []string{"uint8"}, 1, 1)
	names := vzRange("names", 1, 2)
	for i, n := 0, vzRange("levels", 1, 5); i < n; i++ {
		up := vzBuild([]string{"T", "U"}[i%names], []string{"v", "n"}, []string{"bool", "*Table"}, 0, 1)
		vzMust(up.AppendRow(), "AppendRow")
		vzMust(up.SetBool("v", 0, i%3 == 0), "SetBool")
		vzMust(up.SetTable("n", 0, t), "SetTable")
		t = up
	}
	if vzRange("wide", 0, 1) == 1 {
		wide := vzBuild("W", []string{"c0", "c1", "c2"}, []string{"*Table", "*Table", "*Table"}, 0, 1)
		vzMust(wide.AppendRows(11), "AppendRows")
		for c := 0; c < 3; c++ {
			for r := 0; r < 11; r++ {
				if (c+r)%3 > 0 {
					vzMust(wide.SetTableByColIndex(c, r, vzBig("L", []string{"uint16", "string"}, 1)), "SetTable")
				}
			}
		}
		vzMust(wide.SetTableByColIndex(1, 10, t), "SetTable")
		t = wide
	}
	vzC93check(t)
}
