//go:build go1.21

package gotables

// Zero-value and NaN setters touch exactly the cells named.

// vzC28run: a table of the given column types; one of the setters with arbitrary arguments.
func vzC28run(types []string, rows int, lo, hi int) {
	cols := vzNames20[:len(types)]
	t := vzBuild("T", cols, types, rows, 2)
	vzMust(t.SetSortKeys(cols[0]), "SetSortKeys")
	want := vzSnapDeep(t)
	ci, ri := 0, 0
	name := "zz"
	setter := vzRange("setter", lo, hi)
	if setter != 3 && setter != 8 && setter != 9 { // needs a column
		ci = vzInt("ci")
		if setter == 1 || setter == 5 || setter == 7 || setter == 11 {
			ci = vzRange("cin", -1, len(types)-1)
			if ci >= 0 {
				name = cols[ci]
			}
		}
	}
	if setter == 0 || setter == 1 || setter == 3 || setter == 6 || setter == 7 || setter == 8 {
		ri = vzInt("ri")
	}
	colOK := vzAnd(0 <= ci, ci < len(types))
	rowOK := vzAnd(0 <= ri, ri < rows)
	nan := setter >= 6
	var err error
	var hit func(r, c int) bool
	ok := false
	switch setter {
	case 0:
		err, ok = t.SetCellToZeroValueByColIndex(ci, ri), colOK && rowOK
		hit = func(r, c int) bool { return vzAnd(r == ri, c == ci) }
	case 1:
		err, ok = t.SetCellToZeroValue(name, ri), colOK && rowOK
		hit = func(r, c int) bool { return vzAnd(r == ri, c == ci) }
	case 3:
		err, ok = t.SetRowCellsToZeroValue(ri), rowOK
		hit = func(r, c int) bool { return r == ri }
	case 4:
		err, ok = t.SetColCellsToZeroValueByColIndex(ci), colOK
		hit = func(r, c int) bool { return c == ci }
	case 5:
		err, ok = t.SetColCellsToZeroValue(name), colOK
		hit = func(r, c int) bool { return c == ci }
	case 6:
		err, ok = t.SetFloatCellToNaNByColIndex(ci, ri), colOK && rowOK
		hit = func(r, c int) bool { return vzAnd(r == ri, c == ci) }
	case 7:
		err, ok = t.SetFloatCellToNaN(name, ri), colOK && rowOK
		hit = func(r, c int) bool { return vzAnd(r == ri, c == ci) }
	case 8:
		err, ok = t.SetRowFloatCellsToNaN(ri), rowOK
		hit = func(r, c int) bool { return vzAnd(r == ri, types[c][0] == 'f') }
	case 9:
		err, ok = t.SetAllFloatCellsToNaN(), true
		hit = func(r, c int) bool { return types[c][0] == 'f' }
	case 10:
		err, ok = t.SetColFloatCellsToNaNByColIndex(ci), colOK
		hit = func(r, c int) bool { return c == ci }
	case 11:
		err, ok = t.SetColFloatCellsToNaN(name), colOK
		hit = func(r, c int) bool { return c == ci }
	default:
		return
	}
	if ok && nan && setter != 8 && setter != 9 {
		ok = types[ci][0] == 'f'
	}
	got := vzSnap(t)
	if !ok {
		vzAssert(err != nil, "a cell outside the table or a column of the wrong type is an error")
		vzAssert(vzSnapSame(got, want), "a refused setter changes nothing")
		vzReach("refused")
		return
	}
	vzMust(err, "the setter succeeds on existing cells of an eligible type")
	vzAssert(got.name == want.name && vzSameStrs(got.names, want.names) && vzSameStrs(got.types, want.types) && vzSameStrs(got.keys, want.keys) && len(got.cells) == rows, "columns, row count and sort keys are kept")
	for r := range got.cells {
		for c := range types {
			if hit(r, c) {
				if nan {
					vzAssert(!vzNotNaN(got.cells[r][c]) && vzTypeOK(types[c], got.cells[r][c]), "each named cell holds NaN of its type")
				} else {
					vzAssert(vzZero(types[c], got.cells[r][c]), "each named cell holds the zero value of its type")
				}
			} else {
				vzAssert(vzSame(got.cells[r][c], want.cells[r][c]), "every other cell keeps its value")
			}
		}
	}
	vzReach("set")
}

var vzC28mixed = []string{"float32", "int", "float64", "string"}

func vzC28_zeroAllTypes() { vzC28run(vzAllTypes, 1+vzTier(), 0, 1) }
func vzC28_zeroRow()      { vzC28run(vzAllTypes, 2, 3, 3) }
func vzC28_zeroCol()      { vzC28run(vzAllTypes, 2, 4, 5) }
func vzC28_nanAllTypes()  { vzC28run(vzAllTypes, 1, 6, 11) }
func vzC28_mixed()        { vzC28run(vzC28mixed, 3, 0, 5) }
func vzC28_nanMixed()     { vzC28run(vzC28mixed, 3, 6, 11) }
func vzC28_noRows()       { vzC28run(vzC28mixed, 0, 0, 11) }

// vzC28_wide: twenty columns or twelve rows.
func vzC28_wide() {
	if vzBool("rows") {
		vzC28run(vzC28mixed[:3], 12, 0, 11)
		return
	}
	types := make([]string, 20)
	for c := range types {
		types[c] = vzC28mixed[c%4]
		if c > 6 && c < 12 {
			types[c] = "float64"
		}
	}
	vzC28run(types, 1, 0, 11)
}
