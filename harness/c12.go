//go:build go1.21

package gotables

import (
	"strings"
	"encoding/json"
	"math"
	"time"
	"unicode/utf8"
)

// JSON round trip preserves tables.

func vzSameJSON(got, want *vzSnapT) bool {
	return vzAnd(vzSnapData(got, want), got.shape == want.shape)
}

// vzJSON: encode and decode one table, alone; ok false when encoding is refused.
func vzJSON(t *Table) (ok bool) {
	want := vzSnapDeep(t)
	var text string
	var err error
	form := vzRange("form", 0, 1+vzTier()) // plain, or indented and picked by name
	if form == 1 {
		text, err = t.GetTableAsJSONIndent()
	} else {
		text, err = t.GetTableAsJSON()
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "encoding changes nothing")
	if err != nil {
		vzReach("refused")
		return false
	}
	vzAssert(json.Valid([]byte(text)), "the encoder writes valid JSON")
	var got *Table
	if form >= 1 {
		got, err = NewTableFromJSONByTableName(text, t.Name())
	} else {
		got, err = NewTableFromJSON(text)
	}
	vzMust(err, "what was encoded decodes")
	vzInv(got, "decoded table")
	vzAssert(vzSameJSON(vzSnap(got), want), "the decoded table equals the encoded one")
	vzReach("round trip")
	return true
}

// vzJSONcan: JSON can carry the value.
func vzJSONcan(v interface{}) bool {
	switch x := v.(type) {
	case float32:
		return !vzNonFinite(float64(x))
	case float64:
		return !vzNonFinite(x)
	case string:
		return utf8.ValidString(x)
	}
	return true
}

func vzNonFinite(f float64) bool { return vzOr(math.IsNaN(f), math.IsInf(f, 0)) }

func vzJSONcells(types []string, rows, maxLen int) {
	typ := types[vzRange("type", 0, len(types)-1)]
	can := true
	var vals [][]interface{}
	for r := 0; r < rows; r++ {
		id := "v" + string(rune('0'+r))
		var v interface{}
		if typ == "rune" || typ == "time.Time" {
			v = vzTextCell(typ, id, maxLen)
		} else {
			v = vzCell(typ, id, maxLen)
		}
		can = vzAnd(can, vzJSONcan(v))
		vals = append(vals, []interface{}{v, int8(r)})
	}
	t := vzRoundTable([]string{typ, "int8"}, vals)
	vzMust(t.SetStructShape(vzBool("struct")), "SetStructShape")
	if can {
		vzAssert(vzJSON(t), "a table whose cells JSON can carry is encoded")
		return
	}
	vzAssert(!vzJSON(t), "a table with a cell that JSON cannot carry is refused")
}

func vzC12_ints() {
	vzJSONcells([]string{"bool", "byte", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}, vzRange("rows", 0, 1+vzTier()), 0)
}
func vzC12_ints2()    { vzJSONcells([]string{"int8", "uint64"}, 2, 0) }
func vzC12_strings()  { vzJSONcells([]string{"string"}, 1, 3+vzTier()) }
func vzC12_strings2() { vzJSONcells([]string{"string"}, 2, 1) }
func vzC12_runes()    { vzJSONcells([]string{"rune"}, 1, 0) }
func vzC12_slices()   { vzJSONcells([]string{"[]byte", "[]uint8"}, 1, 2+vzTier()) }
func vzC12_times()    { vzJSONcells([]string{"time.Time"}, 1, 0) }

func vzC12_floats() {
	vzFlag("fltint", 2)
	vzFlag("fltfrac", 2)
	vzJSONcells([]string{"float32", "float64"}, 1, 0)
}

// vzC12_fixed: concrete floats whose digits reach the limits of the type.
func vzC12_fixed() {
	f64 := []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 123456789.123456789, -1e-10, 1e22, math.Copysign(0, -1)}
	f32 := []float32{math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 1.0 / 3, 16777216, -1e-10, 1e10, 0}
	vzAssert(vzJSON(vzRoundTable([]string{"float64", "float32"}, [][]interface{}{{f64[vzRange("i", 0, 7)], f32[vzRange("j", 0, 7)]}})), "finite floats can be encoded")
}

// vzC12_runebad: runes that are no Unicode character are refused or round trip.
func vzC12_runebad() {
	t := vzRoundTable([]string{"rune"}, [][]interface{}{{'x'}})
	r := vzRune("r")
	vzAssume(vzOr(vzOr(r < 0, r > 0x10FFFF), vzAnd(r >= 0xD800, r <= 0xDFFF)))
	vzMust(t.SetRune("a", 0, r), "SetRune")
	vzJSON(t)
}

// vzC12_nested: nested tables, nil, empty or filled, two levels deep.
func vzC12_nested() {
	in := vzRoundTable([]string{"int64", "string"}, nil)
	vzMust(in.SetName("In"), "SetName")
	for r := vzRange("inrows", 0, 2); r > 0; r-- {
		vzMust(in.AppendRow(), "AppendRow")
		x := int64(math.MinInt64)
		if r == 1 {
			x = int64(vzInt8("x")) << 50
		}
		vzMust(in.SetInt64("a", in.RowCount()-1, x), "SetInt64")
		vzMust(in.SetString("b", in.RowCount()-1, "\x01\"\\"), "SetString")
	}
	vzMust(in.SetStructShape(vzBool("instruct")), "SetStructShape")
	mid, err := NewTable("Mid")
	vzMust(err, "NewTable")
	vzMust(mid.AppendCol("n", "*Table"), "AppendCol")
	vzMust(mid.AppendRow(), "AppendRow")
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("n", "*Table"), "AppendCol")
	vzMust(t.AppendCol("k", "uint16"), "AppendCol")
	vzMust(t.AppendRow(), "AppendRow")
	vzMust(t.AppendRow(), "AppendRow")
	vzMust(t.SetUint16("k", 1, 65535), "SetUint16")
	at := vzRange("at", 0, 1)
	if vzBool("deep") {
		vzMust(mid.SetTable("n", 0, in), "SetTable")
		vzMust(t.SetTable("n", at, mid), "SetTable")
	} else {
		vzMust(t.SetTable("n", at, in), "SetTable")
		if vzBool("midnil") {
			vzMust(t.SetTable("n", 1-at, mid), "SetTable")
		}
	}
	vzAssert(vzJSON(t), "nested tables can be encoded")
}

// vzC12_wide: all types side by side.
func vzC12_wide() {
	types := []string{"int8", "string", "bool", "rune", "[]byte", "time.Time", "uint64", "byte", "float64", "[]uint8", "int64", "float32"}
	one := map[string]interface{}{"int8": int8(-128), "string": "\x00\"\\/\u2028\U0001F600<&>", "bool": true, "rune": '\'', "[]byte": []byte{}, "time.Time": time.Unix(1582934400, 120).UTC(), "uint64": ^uint64(0), "byte": byte(255), "float64": -0.5, "[]uint8": []byte{0, 255}, "int64": int64(math.MinInt64), "float32": float32(1e-7)}
	lo := vzRange("lo", 0, len(types)-1)
	n := vzRange("n", 0, 5)
	types = append(append([]string{}, types[lo:]...), types[:lo]...)[:n]
	var vals [][]interface{}
	rows := vzRange("rows", 0, 2)
	for r := 0; r < rows; r++ {
		var row []interface{}
		for _, typ := range types {
			row = append(row, one[typ])
		}
		vals = append(vals, row)
	}
	t := vzRoundTable(types, vals)
	vzMust(t.SetStructShape(vzBool("struct")), "SetStructShape")
	vzAssert(vzJSON(t), "the table can be encoded")
}

// vzC12_set: table sets, named or not.
func vzC12_set() {
	set, err := NewTableSet([]string{"", "S", "_s1"}[vzRange("set", 0, 2)])
	vzMust(err, "NewTableSet")
	var want []*vzSnapT
	n := vzRange("tables", 0, 3)
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		t, err := NewTable("T" + id)
		vzMust(err, "NewTable")
		if vzBool("cols" + id) {
			vzMust(t.AppendCol("a", "int16"), "AppendCol")
			vzMust(t.AppendCol("b", "string"), "AppendCol")
			for r := vzRange("rows"+id, 0, 2-i/2); r > 0; r-- {
				vzMust(t.AppendRow(), "AppendRow")
				vzMust(t.SetVal("a", t.RowCount()-1, int16(i*100-r)), "SetVal")
				vzMust(t.SetVal("b", t.RowCount()-1, []string{"", "[U]", "#"}[r]), "SetVal")
			}
		}
		vzMust(t.SetStructShape(vzBool("struct"+id)), "SetStructShape")
		vzMust(set.AppendTable(t), "AppendTable")
		want = append(want, vzSnap(t))
	}
	var text string
	if vzBool("indent") {
		text, err = set.GetTableSetAsJSONIndent()
	} else {
		text, err = set.GetTableSetAsJSON()
	}
	vzMust(err, "the table set can be encoded")
	vzAssert(json.Valid([]byte(text)), "the encoder writes valid JSON")
	got, err := NewTableSetFromJSON(text)
	vzMust(err, "the JSON of a table set can be decoded")
	vzAssert(got.Name() == set.Name(), "the JSON of a table set carries its name")
	vzAssert(got.TableCount() == n, "the JSON of a table set carries all its tables")
	if got.TableCount() == n {
		for i := range want {
			t, err := got.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			vzInv(t, "decoded table")
			vzAssert(vzSameJSON(vzSnap(t), want[i]), "each table of the set is decoded as an equal table, in order")
		}
	}
	vzReach("set")
}

var vzJSONjunk = []string{"null", "true", "1", "-1", "1.5", "300", "1e2", "1e400", "9223372036854775808", "18446744073709551615", "\"\"", "\"x\"", "\"ab\"", "\"int\"", "\"2020-01-01T00:00:00Z\"", "[]", "[1]", "[300]", "[\"x\"]", "{}", "{\"a\":1}", "{\"a\":\"int\"}", "{\"a\":1,\"b\":2}", "[[]]", "[{}]", "[{\"a\":1}]", "[[{\"a\":1}]]", "[[{\"a\":1},{\"b\":2}]]", "", "]", "{\"tableName\":\"N\",\"metadata\":[]}", "[{\"a\":\"int\"}]"}

// vzC12_docs: any part of a document replaced by anything else, or left out: an error or a valid table, never a panic.
func vzC12_docs() {
	part := vzRange("part", 0, 11)
	junk := vzJSONjunk[vzRange("junk", 0, len(vzJSONjunk)-1)]
	typ := "int"
	if part == 8 {
		typ = vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)]
	}
	val := func(n int, s string) string {
		if n == part {
			return junk
		}
		return s
	}
	cell := val(7, "{\"a\":"+val(8, "7")+"}")
	row := val(5, "["+cell+val(6, "")+"]")
	table := val(2, "{\"tableName\":"+val(3, "\"T\"")+",\"isStructShape\":"+val(9, "true")+",\"metadata\":"+val(4, "[{\"a\":\""+typ+"\"}]")+",\"data\":"+val(10, "["+row+"]")+"}")
	if part == 6 {
		row = "[" + cell + "," + junk + "]"
		table = "{\"tableName\":\"T\",\"metadata\":[{\"a\":\"int\"}],\"data\":[" + row + "]}"
	}
	doc := "{\"tableSetName\":" + val(0, "\"S\"") + ",\"tables\":" + val(1, "["+table+"]") + "}"
	vzJSONdoc(doc + val(11, " "))
}

// vzC12_docs2: documents of two tables, with names that clash and rows too short or too long.
func vzC12_docs2() { vzJSONdoc(vzDocJSON(vzDocTwo(true))) }

func vzJSONdoc(doc string) {
	var set *TableSet
	var err error
	vzAssert(!vzTry(func() { set, err = NewTableSetFromJSON(doc) }), "decoding never panics")
	if !json.Valid([]byte(doc)) {
		vzAssert(err != nil, "a text that is not JSON is refused")
	} else {
		var v interface{}
		d := json.NewDecoder(strings.NewReader(doc))
		d.UseNumber()
		vzMust(d.Decode(&v), "Decode")
		vzDocCheck(v, true, set, err)
	}
	if err != nil {
		vzReach("refused")
		return
	}
	vzAssert(set != nil, "no error means a table set")
	if set == nil {
		return
	}
	for i := 0; i < set.TableCount(); i++ {
		t, err := set.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzInv(t, "decoded table")
	}
	vzReach("accepted")
}

// vzC12_left: a document with parts left out.
func vzC12_left() {
	opt := func(name, s string) string {
		if vzBool(name) {
			return s
		}
		return ""
	}
	cells := opt("c0", "{\"a\":7}") + opt("comma", ",") + opt("c1", "{\"b\":\"x\"}") + opt("c2", ",{\"c\":null}")
	table := "{" + opt("name", "\"tableName\":\"T\",") + opt("meta", "\"metadata\":[{\"a\":\"int\"},{\"b\":\"string\"}],") + opt("data", "\"data\":[["+cells+"]],") + "\"isStructShape\":false}"
	vzJSONdoc("{" + opt("set", "\"tableSetName\":\"\",") + opt("tables", "\"tables\":["+table+"],") + "\"x\":1}")
}

// vzC12_range: a number in a column of any integer type is stored exactly or refused.
func vzC12_range() {
	types := []string{"byte", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}
	typ := types[vzRange("type", 0, len(types)-1)]
	v := vzInt64("v")
	src := vzRoundTable([]string{"int64"}, [][]interface{}{{v}})
	text, err := src.GetTableAsJSON()
	vzMust(err, "GetTableAsJSON")
	doc := ""
	for i := 0; i+7 <= len(text); i++ {
		if text[i:i+7] == "\"int64\"" {
			doc = text[:i] + "\"" + typ + "\"" + text[i+7:]
			break
		}
	}
	bits, signed := vzIntBits(typ)
	fits := true
	if signed {
		fits = vzAnd(v >= -1<<(bits-1), v <= 1<<(bits-1)-1)
	} else {
		fits = v >= 0
		if bits < 64 {
			fits = vzAnd(fits, v < 1<<bits)
		}
	}
	got, err := NewTableFromJSON(doc)
	vzAssert((err == nil) == fits, "a number is accepted exactly when its column can hold it")
	if err == nil {
		x, err := got.GetVal("a", 0)
		vzMust(err, "GetVal")
		vzAssert(vzBitsOf(x) == uint64(v), "the number is stored exactly")
	}
	vzReach("number")
}

// larger tables
func vzC12_big() {
	t, v := vzBigOne(vzTextTypes)
	vzAssert(vzJSON(t) == vzJSONcan(v), "exactly the tables whose cells JSON can carry are encoded")
}
func vzC12_long() { vzAssert(vzJSON(vzBigLong()), "a table whose cells JSON can carry is encoded") }
func vzC12_bigSet() {
	set := vzBigSet(vzTextTypes)
	text, err := set.GetTableSetAsJSON()
	vzMust(err, "a set whose cells JSON can carry is encoded")
	got, err := NewTableSetFromJSON(text)
	vzMust(err, "what was encoded decodes")
	vzSameSets(set, got, vzSameJSON)
	vzReach("set")
}
