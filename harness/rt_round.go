//go:build go1.21

package gotables

import (
	"math"
	"time"
)

// Text round trip, shared by the padded and the unpadded form.

var vzTextTypes = []string{"bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "rune", "string", "uint", "uint16", "uint32", "uint64", "uint8", "[]byte", "[]uint8", "time.Time"}

// vzTextShape: the shape text can carry - struct shape shows for at most one row and at least one column.
func vzTextShape(s *vzSnapT) bool { return s.shape && len(s.cells) <= 1 && len(s.names) > 0 }

func vzSameText(got, want *vzSnapT) bool {
	return vzAnd(vzSnapData(got, want), got.shape == vzTextShape(want))
}

// vzRound: the text of t reads back as t, alone and as a set.
func vzRound(t *Table, format func(*Table) string) {
	want := vzSnap(t)
	text := format(t)
	vzAssert(vzSnapSame(vzSnap(t), want), "formatting changes nothing")
	got, err := NewTableFromString(text)
	vzMust(err, "the text of a table can be read back")
	vzInv(got, "table read back")
	vzAssert(vzSameText(vzSnap(got), want), "the text reads back as an equal table")
	vzReach("round trip")
}

func vzRoundTable(types []string, vals [][]interface{}) *Table {
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	for i, typ := range types {
		vzMust(t.AppendCol(string(rune('a'+i)), typ), "AppendCol")
	}
	for r := range vals {
		vzMust(t.AppendRow(), "AppendRow")
		for c := range types {
			vzMust(t.SetValByColIndex(c, r, vals[r][c]), "SetValByColIndex")
		}
	}
	return t
}

// vzRoundCells: a column of one type with arbitrary cells, beside another column, in either shape.
func vzRoundCells(types []string, rows, maxLen int, format func(*Table) string) {
	typ := types[vzRange("type", 0, len(types)-1)]
	left := vzBool("left")
	var vals [][]interface{}
	for r := 0; r < rows; r++ {
		v := vzTextCell(typ, "v"+string(rune('0'+r)), maxLen)
		if left {
			vals = append(vals, []interface{}{v, "p q"})
		} else {
			vals = append(vals, []interface{}{"p q", v})
		}
	}
	cols := []string{"string", typ}
	if left {
		cols = []string{typ, "string"}
	}
	t := vzRoundTable(cols, vals)
	if rows < 2 {
		vzMust(t.SetStructShape(vzBool("struct")), "SetStructShape")
	}
	vzRound(t, format)
}

// vzRoundFloats: an arbitrary float above others of every width.
func vzRoundFloats(format func(*Table) string) {
	vzFlag("fltint", 2)
	vzFlag("fltfrac", 2)
	is64 := vzRange("type", 0, 1)
	typ := []string{"float32", "float64"}[is64]
	other0 := vzRange("other", 0, 5+2*vzTier())
	f := []float64{0.125, math.NaN(), 10, math.Inf(-1), -1.5, math.Inf(1), math.Copysign(0, -1), 0}[other0]
	last := (is64+other0)%2 == 1 // quick: one order per pair
	if vzTier() > 0 {
		last = vzBool("last")
	}
	var vals [][]interface{}
	other := interface{}(f)
	if typ == "float32" {
		other = float32(f)
	}
	vals = append(vals, []interface{}{vzTextCell(typ, "v", 0), int8(1)}, []interface{}{other, int8(-128)})
	if last {
		for _, row := range vals {
			row[0], row[1] = row[1], row[0]
		}
		vzRound(vzRoundTable([]string{"int8", typ}, vals), format)
		return
	}
	vzRound(vzRoundTable([]string{typ, "int8"}, vals), format)
}

// vzRoundFixed: concrete floats whose digits reach the limits of the type, in every order.
func vzRoundFixed(format func(*Table) string) {
	f64 := []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 123456789.123456789, -1e-10, 1e22, math.NaN(), math.Inf(-1)}
	f32 := []float32{math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 1.0 / 3, 16777216, -1e-10, 1e10, float32(math.NaN()), float32(math.Inf(1))}
	i, j := vzRange("i", 0, 8), vzRange("j", 0, 8)
	vzRound(vzRoundTable([]string{"float64", "float32"}, [][]interface{}{{f64[i], f32[j]}, {f64[j], f32[i]}}), format)
}

// vzRoundWide: all types side by side, in any shape and with 0, 1 or 2 rows.
func vzRoundWide(format func(*Table) string) {
	types := []string{"int8", "string", "bool", "rune", "[]byte", "time.Time", "uint64", "byte", "float64", "[]uint8"}
	lo := vzRange("lo", 0, len(types)-1)
	n := vzRange("n", 0, 4)
	types = append(append([]string{}, types[lo:]...), types[:lo]...)[:n]
	rows := vzRange("rows", 0, 2)
	if n == 0 {
		rows = 0
	}
	at := time.Unix(1582934400, 120).UTC()
	one := map[string]interface{}{"int8": int8(-128), "string": "# \" = [x]", "bool": true, "rune": '\'', "[]byte": []byte{}, "time.Time": at, "uint64": ^uint64(0), "byte": byte(255), "float64": -0.5, "[]uint8": []byte{0, 255}}
	two := map[string]interface{}{"int8": int8(7), "string": "", "bool": false, "rune": '世', "[]byte": []byte{1}, "time.Time": at.Add(time.Second), "uint64": uint64(0), "byte": byte(0), "float64": math.NaN(), "[]uint8": []byte{}}
	var vals [][]interface{}
	for r := 0; r < rows; r++ {
		pick := one
		if vzBool("two" + string(rune('0'+r))) {
			pick = two
		}
		var row []interface{}
		for _, typ := range types {
			row = append(row, pick[typ])
		}
		vals = append(vals, row)
	}
	t := vzRoundTable(types, vals)
	vzMust(t.SetStructShape(vzBool("struct")), "SetStructShape")
	vzRound(t, format)
}

// vzRoundSet: table sets, named or not, with tables of any size and shape.
func vzRoundSet(format func(*TableSet) string) {
	set, err := NewTableSet([]string{"", "S", "_s1"}[vzRange("set", 0, 2)])
	vzMust(err, "NewTableSet")
	var want []*vzSnapT
	n := vzRange("tables", 0, 3)
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		t, err := NewTable("T" + id)
		vzMust(err, "NewTable")
		if vzBool("cols" + id) {
			vzMust(t.AppendCol("a", "int16"), "AppendCol")
			vzMust(t.AppendCol("b", "string"), "AppendCol")
			for r := vzRange("rows"+id, 0, 2-i/2); r > 0; r-- {
				vzMust(t.AppendRow(), "AppendRow")
				vzMust(t.SetVal("a", t.RowCount()-1, int16(i*100-r)), "SetVal")
				vzMust(t.SetVal("b", t.RowCount()-1, []string{"", "[U]", "#"}[r]), "SetVal")
			}
		}
		vzMust(t.SetStructShape(vzBool("struct"+id)), "SetStructShape")
		vzMust(set.AppendTable(t), "AppendTable")
		want = append(want, vzSnap(t))
	}
	got, err := NewTableSetFromString(format(set))
	vzMust(err, "the text of a table set can be read back")
	vzAssert(got.Name() == set.Name(), "the text of a table set carries its name")
	vzAssert(got.TableCount() == n, "the text of a table set carries all its tables")
	if got.TableCount() == n {
		for i := range want {
			t, err := got.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			vzInv(t, "table read back")
			vzAssert(vzSameText(vzSnap(t), want[i]), "each table of the set reads back as an equal table, in order")
		}
	}
	vzReach("set")
}

// vzRoundNested: a nested table's place holder reads back with its name.
func vzRoundNested(format func(*Table) string) {
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("k", "int8"), "AppendCol")
	vzMust(t.AppendCol("n", "*Table"), "AppendCol")
	vzMust(t.AppendRow(), "AppendRow")
	name := ""
	if vzBool("named") {
		name = "In_1"
		in, err := NewTable(name)
		vzMust(err, "NewTable")
		vzMust(t.SetTable("n", 0, in), "SetTable")
	}
	vzMust(t.SetStructShape(vzBool("struct")), "SetStructShape")
	got, err := NewTableFromString(format(t))
	vzMust(err, "the text of a table can be read back")
	vzInv(got, "table read back")
	in, err := got.GetTable("n", 0)
	vzMust(err, "the place holder is a table")
	vzAssert(in.Name() == name, "the place holder has the nested table's name")
	vzReach("nested")
}

func vzRoundBig(format func(*Table) string) {
	t, _ := vzBigOne(vzTextTypes)
	vzRound(t, format)
}

func vzRoundLong(format func(*Table) string) { vzRound(vzBigLong(), format) }

func vzRoundBigSet(format func(*TableSet) string) {
	set := vzBigSet(vzTextTypes)
	got, err := NewTableSetFromString(format(set))
	vzMust(err, "the text of a table set can be read back")
	vzSameSets(set, got, vzSameText)
	vzReach("set")
}

// vzSameSets: the same tables in the same order.
func vzSameSets(set, got *TableSet, same func(got, want *vzSnapT) bool) {
	vzAssert(got.Name() == set.Name(), "the name of the set is kept")
	vzAssert(got.TableCount() == set.TableCount(), "the number of tables is kept")
	for i := 0; i < got.TableCount() && i < set.TableCount(); i++ {
		a, err := set.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		b, err := got.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(same(vzSnap(b), vzSnap(a)), "each table of the set comes back equal, in order")
	}
}
