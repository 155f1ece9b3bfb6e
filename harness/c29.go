//go:build go1.21

package gotables

// Cell text conversion is faithful for every type.

func vzC29run(types []string, rows int, maxLen int) {
	vzFlag("fltint", 3)
	typ := types[vzRange("type", 0, len(types)-1)]
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("pad", "int8"), "AppendCol")
	vzMust(t.AppendCol("c", typ), "AppendCol")
	vals := make([]interface{}, rows)
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.SetInt8("pad", r, int8(r)), "SetInt8")
		vals[r] = vzTextCell(typ, "v"+string(rune('0'+r)), maxLen)
		vzMust(t.SetVal("c", r, vals[r]), "SetVal")
	}
	want := vzSnap(t)
	ri := vzRange("ri", -1, rows)
	s, err := t.GetValAsString("c", ri)
	s2, err2 := t.GetValAsStringByColIndex(1, ri)
	if ri < 0 || ri >= rows {
		vzAssert(err != nil && err2 != nil, "a cell outside the table has no text")
		vzReach("outside")
		return
	}
	vzMust(err, "GetValAsString of an existing cell succeeds")
	vzMust(err2, "GetValAsStringByColIndex of an existing cell succeeds")
	vzAssert(s == s2, "by name and by index give the same text")
	vzAssert(vzReads(typ, s, vals[ri]), "the text reads back as exactly the cell's value")
	vzAssert(vzSnapSame(vzSnap(t), want), "conversion changes nothing")
	vzReach("text")
}

func vzC29_ints() {
	vzC29run([]string{"byte", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}, 2, 0)
}
func vzC29_floats32() {
	vzFlag("flthard", 9)
	vzC29run([]string{"float32"}, 1, 0)
}
func vzC29_floats64() {
	vzFlag("flthard", 9)
	vzC29run([]string{"float64"}, 1, 0)
}
func vzC29_texts()    { vzC29run([]string{"string", "bool", "rune"}, 2, 3+vzTier()) }
func vzC29_slices()  { vzC29run([]string{"[]byte", "[]uint8"}, 1, 2+vzTier()) }
func vzC29_times()   { vzC29run([]string{"time.Time"}, 1, 0) }

// vzC29_nested: a nested table is named, a nil one is empty brackets.
func vzC29_nested() {
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("c", "*Table"), "AppendCol")
	vzMust(t.AppendRow(), "AppendRow")
	in, err := NewTable("Inner")
	vzMust(err, "NewTable")
	vzMust(t.SetTable("c", 0, in), "SetTable")
	s, err := t.GetValAsString("c", 0)
	vzMust(err, "GetValAsString")
	vzAssert(s == "[Inner]", "a nested table's text is its name in brackets")
	vzReach("nested")
}

// vzC29_join: joined column texts are the cells' texts in row order with the separator between.
func vzC29_join() {
	vzFlag("fltint", 1)
	typ := []string{"string", "bool", "rune", "int8"}[vzRange("type", 0, 3)]
	rows := vzRange("rows", 0, 2+vzTier())
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("pad", "string"), "AppendCol")
	vzMust(t.AppendCol("c", typ), "AppendCol")
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.SetVal("c", r, vzTextCell(typ, "v"+string(rune('0'+r)), 1)), "SetVal")
	}
	sep := vzStr("sep", vzRange("seplen", 0, 2))
	texts, err := t.GetColValsAsStrings("c")
	vzMust(err, "GetColValsAsStrings of an existing column succeeds")
	vzAssert(len(texts) == rows, "one text per row")
	j1, err := t.JoinColVals("c", sep)
	vzMust(err, "JoinColVals of an existing column succeeds")
	j2, err := t.JoinColValsByColIndex(1, sep)
	vzMust(err, "JoinColValsByColIndex of an existing column succeeds")
	want := ""
	for r := 0; r < rows; r++ {
		s, err := t.GetValAsString("c", r)
		vzMust(err, "GetValAsString of an existing cell succeeds")
		vzAssert(texts[r] == s, "the column's texts are the cells' texts in row order")
		if r > 0 {
			want += sep
		}
		want += s
	}
	vzAssert(vzAnd(j1 == want, j2 == want), "joining puts the separator between consecutive texts and nowhere else")
	vzReach("joined")
}
