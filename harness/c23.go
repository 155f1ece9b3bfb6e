//go:build go1.21

package gotables

import "math"

// CSV output carries every cell.

// vzRecords reads RFC 4180 text: records end with a line feed, a field is either quoted with doubled quotes or free of quotes,
// commas and line ends.
func vzRecords(s string) (recs [][]string, ok bool) {
	var rec []string
	for i := 0; i < len(s); {
		field := ""
		if s[i] == '"' {
			for i++; ; i++ {
				if i >= len(s) {
					return nil, false
				}
				if s[i] == '"' {
					if i+1 >= len(s) || s[i+1] != '"' {
						break
					}
					i++
				}
				field += s[i : i+1]
			}
			i++
		} else {
			for ; i < len(s) && s[i] != ',' && s[i] != '\n'; i++ {
				if s[i] == '"' || s[i] == '\r' {
					return nil, false
				}
				field += s[i : i+1]
			}
		}
		rec = append(rec, field)
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '\n' {
			recs = append(recs, rec)
			rec = nil
		} else if s[i] != ',' {
			return nil, false
		} else if i+1 < len(s) && s[i+1] == '\n' { // a trailing comma: one more, empty, field
			recs = append(recs, append(rec, ""))
			rec = nil
			i++
		}
		i++
	}
	return recs, rec == nil
}

func vzNaN(v interface{}) bool {
	switch x := v.(type) {
	case float32:
		return x != x
	case float64:
		return x != x
	}
	return false
}

// vzCSV checks the CSV text of a table against its cells; heads are the wanted headings.
func vzCSV(t *Table, csv string, heads []string, types []string, vals [][]interface{}) {
	recs, ok := vzRecords(csv)
	vzAssert(ok, "the output is CSV")
	vzAssert(len(recs) == 1+len(vals), "one record for the headings and one per row")
	if !ok || len(recs) != 1+len(vals) {
		return
	}
	for _, r := range recs {
		vzAssert(len(r) == len(types), "every record has a field per column")
		if len(r) != len(types) {
			return
		}
	}
	for c := range types {
		vzAssert(recs[0][c] == heads[c], "the headings are the column names or their substitutes")
		for r := range vals {
			got := recs[r+1][c]
			if vzNaN(vals[r][c]) {
				vzAssert(got == "", "NaN is an empty field")
				vzReach("nan")
			} else {
				vzAssert(vzReads(types[c], got, vals[r][c]), "each field is the text of its cell")
			}
		}
	}
	vzReach("read back")
}

func vzC23table(types []string, rows, maxLen int) (*Table, [][]interface{}) {
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	for i, typ := range types {
		vzMust(t.AppendCol(string(rune('a'+i)), typ), "AppendCol")
	}
	vals := make([][]interface{}, rows)
	for r := range vals {
		vzMust(t.AppendRow(), "AppendRow")
		for c, typ := range types {
			v := vzTextCell(typ, "v"+string(rune('0'+r))+string(rune('a'+c)), maxLen)
			vals[r] = append(vals[r], v)
			vzMust(t.SetValByColIndex(c, r, v), "SetValByColIndex")
		}
	}
	return t, vals
}

// vzC23_strings: two columns of arbitrary strings.
func vzC23_strings() {
	types := []string{"string", "string"}[:vzRange("cols", 1, 2)]
	rows := vzRange("rows", 0, 1)
	t, vals := vzC23table(types, rows, 3-len(types)+vzTier())
	want := vzSnap(t)
	csv, err := t.GetTableAsCSV()
	vzMust(err, "GetTableAsCSV")
	vzCSV(t, csv, []string{"a", "b"}, types, vals)
	vzAssert(vzSnapSame(vzSnap(t), want), "conversion changes nothing")
}

// vzC23_long: one longer string beside a number.
func vzC23_long() {
	types := []string{"int8", "string"}
	if vzBool("first") {
		types = []string{"string", "int8"}
	}
	t, vals := vzC23table(types, 1, 4+vzTier())
	for _, v := range vals[0] {
		if s, ok := v.(string); ok {
			for i := 0; i < len(s); i++ {
				vzAssume(s[i] < 0x80)
			}
		}
	}
	csv, err := t.GetTableAsCSV()
	vzMust(err, "GetTableAsCSV")
	vzCSV(t, csv, []string{"a", "b"}, types, vals)
}

// vzC23_types: a column of every other type, in a table with several rows.
func vzC23_types() {
	vzFlag("fltint", 2)
	vzFlag("flthard", 9)
	typ := vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)]
	if typ == "*Table" || typ == "string" {
		return
	}
	types := []string{"bool", typ}
	t, vals := vzC23table(types, 1+vzRange("more", 0, vzTier()), 2)
	csv, err := t.GetTableAsCSV()
	vzMust(err, "GetTableAsCSV")
	vzCSV(t, csv, []string{"a", "b"}, types, vals)
}

// vzC23_rows: rows and columns keep their places.
func vzC23_rows() {
	types := []string{"int8", "string", "rune"}[:vzRange("cols", 1, 3)]
	rows := vzRange("rows", 0, 2+vzTier())
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	for i, typ := range types {
		vzMust(t.AppendCol(string(rune('a'+i)), typ), "AppendCol")
	}
	vals := make([][]interface{}, rows)
	for r := range vals {
		vzMust(t.AppendRow(), "AppendRow")
		for c, typ := range types {
			var v interface{}
			switch typ {
			case "int8":
				v = int8(r)
				if r == 0 {
					v = vzInt8("n")
				}
			case "string":
				v = []string{"", ",", "\"", "a\nb", "x"}[vzRange("s"+string(rune('0'+r)), 0, 4)]
			case "rune":
				v = []rune{'x', '"', ',', '\n', 'é'}[vzRange("r", 0, 4)]
			}
			vals[r] = append(vals[r], v)
			vzMust(t.SetValByColIndex(c, r, v), "SetValByColIndex")
		}
	}
	csv, err := t.GetTableAsCSV()
	vzMust(err, "GetTableAsCSV")
	vzCSV(t, csv, []string{"a", "b", "c"}, types, vals)
}

// vzC23_heads: substitute headings, empty ones keeping the column's name; a wrong number of them is refused.
func vzC23_heads() {
	types := []string{"int8", "bool", "string"}[:vzRange("cols", 1, 3)]
	t, vals := vzC23table(types, 1, 0)
	n := vzRange("heads", 1, 4)
	var heads, want []string
	for i := 0; i < n; i++ {
		h := []string{"", "\"", "h"}[vzRange("h"+string(rune('0'+i)), 0, 2)]
		if i == 1 {
			h = vzStr("h", vzRange("hlen", 0, 1+vzTier()))
		}
		heads = append(heads, h)
		if h == "" {
			h = string(rune('a' + i))
		}
		want = append(want, h)
	}
	csv, err := t.GetTableAsCSV(heads...)
	vzAssert((err == nil) == (n == len(types)), "substitute headings must be one per column")
	if err == nil {
		vzCSV(t, csv, want, types, vals)
	} else {
		vzAssert(csv == "", "a refusal gives no text")
		vzReach("refused")
	}
}

// vzC23_nested: a nested table's field is its bracketed name.
func vzC23_nested() {
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("c", "*Table"), "AppendCol")
	vzMust(t.AppendRow(), "AppendRow")
	want := "[]"
	if vzBool("named") {
		in, err := NewTable("Inner")
		vzMust(err, "NewTable")
		vzMust(t.SetTable("c", 0, in), "SetTable")
		want = "[Inner]"
	}
	csv, err := t.GetTableAsCSV()
	vzMust(err, "GetTableAsCSV")
	vzAssert(csv == "c\n"+want+"\n", "a nested table's field is its bracketed name")
	vzReach("nested")
}

// vzC23_wide: up to twelve columns and rows, NaN and numbers in any order.
func vzC23_wide() {
	vzFlag("fltint", 1)
	vzFlag("fltfrac", 0)
	ncols := []int{1, 2, 5, 12}[vzRange("cols", 0, 3)]
	nrows := []int{2, 3, 12}[vzRange("rows", 0, 2)]
	at := []int{0, ncols - 1}[vzRange("at", 0, 1)]
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	var heads, types []string
	for c := 0; c < ncols; c++ {
		typ := []string{"int", "float64", "string", "float32"}[c%4]
		if c == at {
			typ = []string{"float64", "float32"}[vzRange("wide", 0, 1)]
		}
		heads, types = append(heads, vzNames20[c]), append(types, typ)
		vzMust(t.AppendCol(heads[c], typ), "AppendCol")
	}
	vals := make([][]interface{}, nrows)
	nan := vzRange("nan", 0, nrows-1)
	nan2 := vzRange("nan2", 0, 2)
	for r := range vals {
		vzMust(t.AppendRow(), "AppendRow")
		for c, typ := range types {
			f := float64(r*20 + c)
			if c == at && (r == nan || r == nan2) {
				f = math.NaN()
			}
			var v interface{}
			switch typ {
			case "int":
				v = r*20 + c
			case "float64":
				v = f
			case "float32":
				v = float32(f)
			case "string":
				v = string(rune('a'+r)) + "," + string(rune('a'+c))
			}
			vals[r] = append(vals[r], v)
			vzMust(t.SetValByColIndex(c, r, v), "SetValByColIndex")
		}
	}
	csv, err := t.GetTableAsCSV()
	vzMust(err, "GetTableAsCSV")
	vzCSV(t, csv, heads, types, vals)
}
