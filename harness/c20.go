//go:build go1.21

package gotables

import (
	"fmt"
	"strings"
)

// Nesting never creates a table that contains itself unnoticed.

// vzC20same: the table is as remembered, its nested tables being the very same tables.
func vzC20same(t *Table, s *vzSnapT) bool {
	n := vzSnap(t)
	if n.name != s.name || !vzSameStrs(n.names, s.names) || !vzSameStrs(n.types, s.types) || len(n.cells) != len(s.cells) || len(n.keys) != 0 {
		return false
	}
	for r := range n.cells {
		for c := range n.cells[r] {
			if n.cells[r][c] != s.cells[r][c] {
				return false
			}
		}
	}
	return true
}

// vzC20graph: an arbitrary nesting graph over n tables; slots[i] is the number of table cells of table i.
func vzC20graph(n int, slots []int) {
	T := make([]*Table, n)
	edges := make([][]int, n)
	for i := range T {
		t, err := NewTable("T" + string(rune('0'+i)))
		vzMust(err, "NewTable")
		vzMust(t.AppendCol("x", "int8"), "AppendCol")
		vzMust(t.AppendCol("n", "*Table"), "AppendCol")
		if i == 1 { // nested side by side, the others one below the other
			vzMust(t.AppendCol("m", "*Table"), "AppendCol")
			vzMust(t.AppendRow(), "AppendRow")
		} else {
			vzMust(t.AppendRows(slots[i]), "AppendRows")
		}
		T[i] = t
	}
	col := func(i, k int) (c, r int) {
		if i == 1 {
			return 1 + k, 0
		}
		return 1, k
	}
	how := vzRange("how", 0, 2)
	for i := range T {
		for k := 0; k < slots[i]; k++ {
			to := vzRange("edge"+string(rune('0'+i))+string(rune('0'+k)), -1, n-1)
			edges[i] = append(edges[i], -1)
			if to < 0 {
				continue
			}
			c, r := col(i, k)
			before := vzSnap(T[i])
			var err error
			switch how {
			case 0:
				err = T[i].SetTableByColIndex(c, r, T[to])
			case 1:
				err = T[i].SetTable([]string{"", "n", "m"}[c], r, T[to])
			case 2:
				err = T[i].SetVal([]string{"", "n", "m"}[c], r, T[to])
			}
			if err != nil { // refused: only as a circular reference, and the table is unchanged
				vzAssert(HasCircRefError(err), "storing a table is refused only as a circular reference")
				vzAssert(vzC20same(T[i], before), "a refused table leaves the table unchanged")
				continue
			}
			edges[i][k] = to
		}
	}
	// the truth about the graph reachable from T0
	times := make([]int, n)
	cyclic := false
	var visit func(i int, on []bool)
	visit = func(i int, on []bool) {
		if on[i] {
			cyclic = true
			return
		}
		times[i]++
		on[i] = true
		for _, j := range edges[i] {
			if j >= 0 {
				visit(j, on)
			}
		}
		on[i] = false
	}
	visit(0, make([]bool, n))
	once := !cyclic
	for _, k := range times {
		if k > 1 {
			once = false
		}
	}
	before := make([]*vzSnapT, n)
	for i := range T {
		before[i] = vzSnap(T[i])
	}
	root := T[0]
	valid, verr := root.IsValidTableNesting()
	circ, cerr := root.HasCircularReference()
	_, copyErr := root.Copy()
	_, deepErr := root.CopyDeep()
	_, jsonErr := root.GetTableAsJSON()
	set, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	vzMust(set.AppendTable(root), "AppendTable")
	_, mapErr := set.GetTableSetAsMap()
	_, setJSONErr := set.GetTableSetAsJSON()
	visits := 0
	walkErr := root.Walk(true, make(WalkSafe), func(*Table) error { visits++; return nil }, nil, nil)
	if cyclic {
		vzAssert(!valid && HasCircRefError(verr) && GetCircRefError(verr) != nil, "IsValidTableNesting reports a cycle as a circular reference")
		for _, e := range []error{verr, cerr, copyErr, deepErr, walkErr} {
			ce := GetCircRefError(e)
			vzAssert(ce != nil && ce.Error() != "", "a circular reference is reported as a CircRefError")
			vzAssume(ce != nil)
			named := false
			for i := range T {
				named = named || (times[i] > 0 && ce.CircTable() == T[i])
			}
			vzAssert(named, "the error holds a table that is met again")
		}
		vzAssert(circ && HasCircRefError(cerr), "HasCircularReference reports a cycle as a circular reference")
		vzAssert(HasCircRefError(copyErr), "Copy of a cycle is a circular-reference error")
		vzAssert(HasCircRefError(deepErr), "CopyDeep of a cycle is a circular-reference error")
		vzAssert(jsonErr != nil && setJSONErr != nil, "encoding a cycle as JSON is an error")
		vzAssert(mapErr != nil, "encoding a cycle as a map is an error")
		doc, yamlErr := set.GetTableSetAsYAML()
		vzAssert(yamlErr != nil && doc == "", "encoding a cycle as YAML is an error")
		vzAssert(HasCircRefError(walkErr), "a deep walk of a cycle is a circular-reference error")
		vzReach("cyclic")
	} else if once {
		vzAssert(valid && verr == nil, "nesting in which every table occurs once is valid")
		vzAssert(!circ && cerr == nil, "nesting in which every table occurs once has no circular reference")
		vzAssert(copyErr == nil && deepErr == nil, "nesting in which every table occurs once can be copied")
		vzAssert(jsonErr == nil && setJSONErr == nil, "nesting in which every table occurs once can be encoded as JSON")
		vzAssert(mapErr == nil, "nesting in which every table occurs once can be encoded as a map")
		vzAssert(walkErr == nil, "nesting in which every table occurs once can be walked")
		want := 0
		for i, k := range times {
			want += k
			if k > 0 {
				for _, j := range edges[i] {
					if j < 0 {
						want++
					}
				}
			}
		}
		vzAssert(visits == want, "a deep walk visits every nested table once")
		vzReach("once")
	} else {
		vzAssert(mapErr == nil || verr != nil, "nesting is refused only as a circular reference")
		vzReach("shared")
	}
	if how == 0 && n == 3 {
		vzAssert(root.StringNested() != "", "a nested table can be printed")
	}
	for i := range T {
		vzAssert(vzC20same(T[i], before[i]), "checking, copying and encoding change no table")
	}
}

func vzC20_three() { vzC20graph(3, []int{2, 2, 1}) }
func vzC20_four() {
	if vzTier() > 0 {
		vzC20graph(4, []int{2, 2, 1, 1})
	} else {
		vzC20graph(4, []int{1, 2, 1, 1})
	}
}

// vzC20_chain: the cycle closes at an arbitrary place of a chain of arbitrary length.
func vzC20_chain() {
	const max = 12
	n := vzRange("n", 1, max)
	T := make([]*Table, n)
	for i := range T {
		t, err := NewTable("T")
		vzMust(err, "NewTable")
		vzMust(t.AppendCol("n", "*Table"), "AppendCol")
		vzMust(t.AppendRow(), "AppendRow")
		T[i] = t
		if i > 0 {
			vzMust(T[i-1].SetTable("n", 0, t), "SetTable of another table")
		}
	}
	back := vzRange("back", -1, n-1)
	var err error
	if back >= 0 {
		err = T[n-1].SetTable("n", 0, T[back])
	}
	refused := back >= 0 && err != nil
	if refused {
		vzAssert(HasCircRefError(err), "a table is refused only as a circular reference")
	}
	valid, verr := T[0].IsValidTableNesting()
	vzAssert(valid == (back < 0 || refused), "nesting is valid exactly when it has no cycle")
	vzAssert((verr == nil) == valid, "an error is returned exactly with invalid nesting")
	if !valid {
		vzAssert(HasCircRefError(verr), "the error is a circular-reference error")
	}
	vzReach("end")
}

// the error itself: found however deeply wrapped, and it gives back its tables
func vzC20_error() {
	a, err := NewTable("Aa")
	vzMust(err, "NewTable")
	b, err := NewTable("Bb")
	vzMust(err, "NewTable")
	msg := vzStr("msg", vzRange("len", 0, 2))
	ce := NewCircRefError(a, b, msg)
	vzAssert(ce.RootTable() == a && ce.CircTable() == b, "the error has the tables it was made with")
	if msg != "" {
		vzAssert(strings.HasSuffix(ce.Error(), msg), "the error has the message it was made with")
	} else {
		vzAssert(strings.Contains(ce.Error(), "[Aa]") && strings.Contains(ce.Error(), "[Bb]"), "the error names its tables")
	}
	var e error = ce
	n := vzRange("wraps", 0, 3)
	for i := 0; i < n; i++ {
		e = fmt.Errorf("op%d: %w", i, e)
	}
	vzAssert(HasCircRefError(e) && GetCircRefError(e) == ce, "a wrapped circular-reference error is found")
	o := fmt.Errorf("%s", ce.Error())
	vzAssert(!HasCircRefError(o) && GetCircRefError(o) == nil, "another error is not a circular-reference error")
	vzAssert(!HasCircRefError(nil) && GetCircRefError(nil) == nil, "no error is not a circular-reference error")
	vzReach("end")
}
