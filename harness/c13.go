//go:build go1.21

package gotables

import (
	"math"
	"time"

	yaml "gopkg.in/yaml.v3"
)

// YAML round trip preserves table sets.

// vzYAMLsame: as cells go through text without the sign of zero.
func vzSameYAML(got, want *vzSnapT) bool {
	return vzAnd(vzSnapData(got, want), got.shape == want.shape)
}

func vzYAMLset(t *Table) *TableSet {
	set, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	vzMust(set.Append(t), "Append")
	return set
}

// vzYAMLtext: the document, from GetTableSetAsYAML or from the map.
func vzYAMLtext(set *TableSet, asMap bool) string {
	if asMap {
		m, err := set.GetTableSetAsMap()
		vzMust(err, "a table set can be encoded as a map")
		b, err := yaml.Marshal(m)
		vzMust(err, "the map can be encoded")
		return string(b)
	}
	text, err := set.GetTableSetAsYAML()
	vzMust(err, "a table set can be encoded as YAML")
	return text
}

func vzYAML(t *Table, asMap bool) {
	set := vzYAMLset(t)
	want := vzSnapDeep(t)
	text := vzYAMLtext(set, asMap)
	vzAssert(vzSnapSame(vzSnap(t), want), "encoding changes nothing")
	got, err := NewTableSetFromYAML(text)
	vzMust(err, "what was encoded decodes")
	vzAssert(got.Name() == "S", "the table set name is kept")
	vzAssert(got.TableCount() == 1, "the number of tables is kept")
	if got.TableCount() == 1 {
		t2, err := got.GetTableByTableIndex(0)
		vzMust(err, "GetTableByTableIndex")
		vzInv(t2, "decoded table")
		vzAssert(vzSameYAML(vzSnap(t2), want), "the decoded table equals the encoded one")
		vzReach("round trip")
	}
}

func vzYAMLcells(types []string, rows, maxLen int) {
	typ := types[vzRange("type", 0, len(types)-1)]
	asMap := vzBool("map")
	var vals [][]interface{}
	for r := 0; r < rows; r++ {
		id := "v" + string(rune('0'+r))
		var v interface{}
		if typ == "time.Time" {
			v = vzTextCell(typ, id, maxLen)
		} else {
			v = vzCell(typ, id, maxLen)
		}
		switch x := v.(type) {
		case float64:
			vzAssume(vzOr(x != 0, !math.Signbit(x)))
		case float32:
			vzAssume(vzOr(x != 0, !math.Signbit(float64(x))))
		case string:
			if asMap { // multi-line text is left to the caller's encoder
				for i := 0; i < len(x); i++ {
					vzAssume(x[i] != '\n')
				}
			}
		}
		vals = append(vals, []interface{}{v, int8(r)})
	}
	t := vzRoundTable([]string{typ, "int8"}, vals)
	vzMust(t.SetStructShape(vzBool("struct")), "SetStructShape")
	vzYAML(t, asMap)
}

func vzC13_ints() {
	vzYAMLcells([]string{"bool", "byte", "int", "int16", "int32", "int64", "int8", "rune", "uint", "uint16", "uint32", "uint64", "uint8"}, vzRange("rows", 0, 2+vzTier()), 0)
}
func vzC13_strings()  { vzYAMLcells([]string{"string"}, 1, 3+vzTier()) }
func vzC13_strings2() { vzYAMLcells([]string{"string"}, 2, 1) }
func vzC13_slices()   { vzYAMLcells([]string{"[]byte", "[]uint8"}, 2, 2+vzTier()) }
func vzC13_times()    { vzYAMLcells([]string{"time.Time"}, 1, 0) }
func vzC13_floats()   { vzYAMLcells([]string{"float32", "float64"}, 1, 0) }

// vzC13_fixed: floats at the limits of the type and of what yaml.v3 writes without decimals.
func vzC13_fixed() {
	f64 := []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 123456789.123456789, -1e-10, 1e22, 999999, 1e6, -7, math.NaN(), math.Inf(-1)}
	f32 := []float32{math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 1.0 / 3, 16777216, -1e-10, 7.038531e-26, 999999, 1e6, -7, float32(math.NaN()), float32(math.Inf(1))}
	vzYAML(vzRoundTable([]string{"float64", "float32"}, [][]interface{}{{f64[vzRange("i", 0, 11)], f32[vzRange("j", 0, 11)]}}), vzBool("map"))
}

// vzC13_nested: nested tables, nil, empty or filled, two levels deep.
func vzC13_nested() {
	in := vzRoundTable([]string{"int64", "string", "float64"}, nil)
	vzMust(in.SetName("In"), "SetName")
	for r := vzRange("inrows", 0, 2); r > 0; r-- {
		vzMust(in.AppendRow(), "AppendRow")
		vzMust(in.SetInt64("a", in.RowCount()-1, vzInt64("x"+string(rune('0'+r)))), "SetInt64")
		vzMust(in.SetString("b", in.RowCount()-1, " a\n b"), "SetString")
		vzMust(in.SetFloat64("c", in.RowCount()-1, float64(r)), "SetFloat64")
	}
	vzMust(in.SetStructShape(vzBool("instruct")), "SetStructShape")
	mid, err := NewTable("Mid")
	vzMust(err, "NewTable")
	vzMust(mid.AppendCol("n", "*Table"), "AppendCol")
	vzMust(mid.AppendRow(), "AppendRow")
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("n", "*Table"), "AppendCol")
	vzMust(t.AppendCol("k", "uint16"), "AppendCol")
	vzMust(t.AppendRow(), "AppendRow")
	vzMust(t.AppendRow(), "AppendRow")
	vzMust(t.SetUint16("k", 1, vzUint16("k")), "SetUint16")
	at := vzRange("at", 0, 1)
	if vzBool("deep") {
		vzMust(mid.SetTable("n", 0, in), "SetTable")
		vzMust(t.SetTable("n", at, mid), "SetTable")
	} else {
		vzMust(t.SetTable("n", at, in), "SetTable")
		if vzBool("mid") {
			vzMust(t.SetTable("n", 1-at, mid), "SetTable")
		}
	}
	vzYAML(t, false)
}

// vzC13_wide: all types side by side.
func vzC13_wide() {
	types := []string{"int8", "string", "bool", "rune", "[]byte", "time.Time", "uint64", "byte", "float64", "[]uint8", "int64", "float32"}
	one := map[string]interface{}{"int8": int8(-128), "string": []string{"true", "1", "", "null", " \n\t", "\xff"}[vzRange("s", 0, 5)], "bool": true, "rune": '\'', "[]byte": []byte{}, "time.Time": time.Unix(1582934400, 120).UTC(), "uint64": ^uint64(0), "byte": byte(255), "float64": 28.0, "[]uint8": []byte{0, 255}, "int64": int64(math.MinInt64), "float32": float32(1e-7)}
	lo := vzRange("lo", 0, len(types)-1)
	n := vzRange("n", 0, 5)
	types = append(append([]string{}, types[lo:]...), types[:lo]...)[:n]
	var vals [][]interface{}
	rows := vzRange("rows", 0, 2)
	for r := 0; r < rows; r++ {
		var row []interface{}
		for _, typ := range types {
			row = append(row, one[typ])
		}
		vals = append(vals, row)
	}
	t := vzRoundTable(types, vals)
	vzMust(t.SetStructShape(vzBool("struct")), "SetStructShape")
	vzYAML(t, false)
}

// vzC13_set: table sets, named or not.
func vzC13_set() {
	set, err := NewTableSet([]string{"", "S", "null"}[vzRange("set", 0, 2)])
	vzMust(err, "NewTableSet")
	var want []*vzSnapT
	n := vzRange("tables", 0, 3)
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		t, err := NewTable("T" + id)
		vzMust(err, "NewTable")
		if vzBool("cols" + id) {
			vzMust(t.AppendCol("a", "int16"), "AppendCol")
			vzMust(t.AppendCol("true", "string"), "AppendCol")
			for r := vzRange("rows"+id, 0, 2-i/2); r > 0; r-- {
				vzMust(t.AppendRow(), "AppendRow")
				vzMust(t.SetVal("a", t.RowCount()-1, int16(i*100-r)), "SetVal")
				vzMust(t.SetVal("true", t.RowCount()-1, []string{"", "[U]", "#"}[r]), "SetVal")
			}
		}
		vzMust(t.SetStructShape(vzBool("struct"+id)), "SetStructShape")
		vzMust(set.AppendTable(t), "AppendTable")
		want = append(want, vzSnap(t))
	}
	got, err := NewTableSetFromYAML(vzYAMLtext(set, vzBool("map")))
	vzMust(err, "the YAML of a table set can be decoded")
	vzAssert(got.Name() == set.Name(), "the YAML of a table set carries its name")
	vzAssert(got.TableCount() == n, "the YAML of a table set carries all its tables")
	if got.TableCount() == n {
		for i := range want {
			t, err := got.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			vzInv(t, "decoded table")
			vzAssert(vzSameYAML(vzSnap(t), want[i]), "each table of the set is decoded as an equal table, in order")
		}
	}
	vzReach("set")
}

func vzYAMLjunk(n int) interface{} {
	m := func(kv ...interface{}) interface{} {
		out := map[string]interface{}{}
		for i := 0; i < len(kv); i += 2 {
			out[kv[i].(string)] = kv[i+1]
		}
		return out
	}
	l := func(e ...interface{}) interface{} { return e }
	return []interface{}{nil, true, 1, -1, 300, 1.5, 1e300, int64(math.MaxInt64), uint64(math.MaxUint64), "", "x", "ab", "int", "\"int\"",
		time.Unix(0, 0).UTC(), l(), l(1), l(300), l("x"), l(l()), l(l(1)), l(l(1, 2)), l(nil), m(), m("a", 1), m("a", "int"), m("a", 1, "b", 2), l(m()), l(m("a", 1)), l(m("a", "int")),
		m("tableName", ""), m("tableName", "N", "metadata", l()), l(m("tableName", "N", "metadata", l(m("x", "int"))))}[n]
}

func vzYAMLdoc(doc interface{}) {
	b, err := yaml.Marshal(doc)
	vzMust(err, "yaml.Marshal")
	var set *TableSet
	vzAssert(!vzTry(func() { set, err = NewTableSetFromYAML(string(b)) }), "decoding never panics")
	var v interface{}
	vzMust(yaml.Unmarshal(b, &v), "Unmarshal")
	vzDocCheck(v, false, set, err)
	if err != nil {
		vzReach("refused")
		return
	}
	vzAssert(set != nil, "no error means a table set")
	if set == nil {
		return
	}
	for i := 0; i < set.TableCount(); i++ {
		t, err := set.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzInv(t, "decoded table")
	}
	vzReach("accepted")
}

// vzC13_docs: any part of a document replaced by anything else: an error or a valid table set, never a panic.
func vzC13_docs() {
	part := vzRange("part", 0, 9)
	junk := vzYAMLjunk(vzRange("junk", 0, 32))
	typ := "int"
	if part == 7 {
		typ = vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)]
	}
	val := func(n int, v interface{}) interface{} {
		if n == part {
			return junk
		}
		return v
	}
	row := []interface{}{val(7, 7)}
	if part == 6 {
		row = append(row, junk)
	}
	table := map[string]interface{}{"tableName": val(3, "T"), "isStructShape": val(8, true), "metadata": val(4, []interface{}{val(9, map[string]interface{}{"a": typ})}), "data": val(2, []interface{}{val(5, row)})}
	doc := map[string]interface{}{"tableSetName": val(0, "S"), "tables": val(1, []interface{}{table})}
	vzYAMLdoc(doc)
}

// vzC13_docs2: documents of two tables, with names that clash and rows too short or too long.
func vzC13_docs2() { vzYAMLdoc(vzDocTwo(false)) }

// vzC13_left: a document with parts left out.
func vzC13_left() {
	put := func(m map[string]interface{}, k string, v interface{}) {
		if vzBool("has " + k) {
			m[k] = v
		}
	}
	table := map[string]interface{}{}
	put(table, "tableName", "T")
	put(table, "metadata", []interface{}{map[string]interface{}{"a": "int"}, map[string]interface{}{"b": "string"}})
	row := []interface{}{7, "x", nil}[:vzRange("cells", 0, 3)]
	put(table, "data", []interface{}{row})
	doc := map[string]interface{}{}
	put(doc, "tableSetName", "")
	if vzBool("direct") {
		doc["tables"] = table
	} else {
		put(doc, "tables", []interface{}{table})
	}
	vzYAMLdoc(doc)
}

// vzC13_range: a number in a column of any integer type is stored exactly or refused.
func vzC13_range() {
	types := []string{"byte", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}
	typ := types[vzRange("type", 0, len(types)-1)]
	bits, signed := vzIntBits(typ)
	var cell interface{}
	var v uint64
	fits := true
	if vzBool("unsigned") {
		v = vzUint64("u")
		cell = v
		if signed {
			bits--
		}
		if bits < 64 {
			fits = v < 1<<bits
		}
	} else {
		x := vzInt64("v")
		cell, v = x, uint64(x)
		if signed {
			fits = vzAnd(x >= -1<<(bits-1), x <= 1<<(bits-1)-1)
		} else {
			fits = x >= 0
			if bits < 64 {
				fits = vzAnd(fits, x < 1<<bits)
			}
		}
	}
	b, err := yaml.Marshal(map[string]interface{}{"tableSetName": "", "tables": []interface{}{map[string]interface{}{"tableName": "T", "metadata": []interface{}{map[string]interface{}{"a": typ}}, "data": []interface{}{[]interface{}{cell}}}}})
	vzMust(err, "yaml.Marshal")
	set, err := NewTableSetFromYAML(string(b))
	vzAssert((err == nil) == fits, "a number is accepted exactly when its column can hold it")
	if err == nil {
		t, err := set.GetTable("T")
		vzMust(err, "GetTable")
		x, err := t.GetVal("a", 0)
		vzMust(err, "GetVal")
		vzAssert(vzBitsOf(x) == v, "the number is stored exactly")
	}
	vzReach("number")
}

// larger tables
func vzC13_big() {
	t, v := vzBigOne(vzTextTypes)
	asMap := vzBool("map")
	if s, ok := v.(string); ok && asMap {
		vzAssume(s != "\n") // multi-line text is left to the caller's encoder
	}
	vzYAML(t, asMap)
}
func vzC13_long() { vzYAML(vzBigLong(), false) }
func vzC13_bigSet() {
	set := vzBigSet(vzTextTypes)
	got, err := NewTableSetFromYAML(vzYAMLtext(set, vzBool("map")))
	vzMust(err, "what was encoded decodes")
	vzSameSets(set, got, vzSameYAML)
	vzReach("set")
}
