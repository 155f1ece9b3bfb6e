//go:build go1.21

package gotables

// Histories of operations, successful or not, keep the table sound.

func vzC01start(rows int) *Table {
	return vzBuild("T", []string{"a", "b", "f"}, []string{"int", "string", "float64"}, rows, 1)
}

// one arbitrary operation on a table with sort keys
func vzC01one(lo, hi int) {
	t := vzC01start(vzRange("rows", 0, 2))
	if vzRange("prekeys", 0, 1) == 1 {
		vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
		vzMust(t.SetSortKeysReverse("b"), "SetSortKeysReverse")
	}
	vzOp(t, vzRange("op", lo, hi))
	vzInv(t, "after one operation")
	vzReach("end")
}

func vzC01_one_a() { vzC01one(0, 8) }
func vzC01_one_b() { vzC01one(9, 21) }
func vzC01_one_c() { vzC01one(22, 37) }

// histories of operations that change columns, rows and keys
func vzC01hist(steps int, ops []int) {
	t := vzC01start(1)
	vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
	for i := 0; i < steps; i++ {
		vzOp(t, ops[vzRange("op", 0, len(ops)-1)])
		vzInv(t, "after a history of operations")
	}
	// the table can still be used
	vzC22num(t)
	if t.SortKeyCount() > 0 {
		vzMust(t.Sort(), "Sort after a history of operations")
	}
	vzInv(t, "after sorting")
	vzReach("end")
}

func vzC01_hist_cols() { vzC01hist(2+vzTier(), []int{0, 1, 3, 7}) }
func vzC01_hist_mix()  { vzC01hist(2, []int{2, 5, 9, 11, 16, 21, 30}) }
func vzC01_hist_from() { vzC01hist(2, []int{1, 12, 18, 20, 24, 27, 28}) }

// one operation on a table of twelve rows and columns
func vzC01_big() {
	t := vzBigNamed("T", []string{"a", "b", "f", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11"}, append([]string{"int", "string", "float64"}, vzBigTypes(vzAllTypes, 4, 9)...), 12)
	vzMust(t.SetSortKeys("b", "a"), "SetSortKeys")
	vzOp(t, vzRange("op", 0, vzOpsN-1))
	vzInv(t, "after one operation on a larger table")
	vzReach("end")
}
