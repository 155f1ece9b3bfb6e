//go:build go1.21

package gotables

import (
	"bytes"
	"encoding/gob"
)

// Gob round trip preserves tables.

// vzGobTable: encode and decode one table; ok false when encoding is refused.
func vzGobTable(t *Table) (*Table, bool) {
	want := vzSnapDeep(t)
	b, err := t.GobEncode()
	vzAssert(vzSnapSame(vzSnap(t), want), "encoding changes nothing")
	if err != nil {
		vzReach("refused")
		return nil, false
	}
	var got *Table
	if vzBool("new") {
		got, err = NewTableFromGob(b)
	} else {
		got, err = GobDecodeTable(b)
	}
	vzMust(err, "what was encoded decodes")
	vzInv(got, "decoded table")
	vzAssert(vzSnapSame(vzSnap(got), want), "the decoded table equals the encoded one, cells, columns, shape and sort keys")
	return got, true
}

func vzC14set(t *Table, c, r int, v interface{}) { vzMust(t.SetValByColIndex(c, r, v), "SetValByColIndex") }

// vzC14_cells: every type, arbitrary cells, both shapes.
func vzC14_cells() {
	typ := vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)]
	rows := vzRange("rows", 0, 2+vzTier())
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	vzMust(t.AppendCol("k", "int16"), "AppendCol")
	vzMust(t.AppendCol("c", typ), "AppendCol")
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		vzC14set(t, 0, r, vzInt16("k"+string(rune('0'+r))))
		if typ == "*Table" {
			if vzBool("set") {
				in, err := NewTable("In")
				vzMust(err, "NewTable")
				vzMust(t.SetTable("c", r, in), "SetTable")
			}
		} else if typ != "time.Time" || vzBool("set") {
			vzC14set(t, 1, r, vzCell(typ, "v"+string(rune('0'+r)), 2))
		}
	}
	vzMust(t.SetStructShape(vzBool("shape")), "SetStructShape")
	_, ok := vzGobTable(t)
	vzAssert(ok == (typ != "*Table" && typ != "time.Time" || rows == 0), "exactly the tables with a time or a nested table are refused")
	if ok {
		vzReach("round trip")
	}
}

// vzC14_wide: several columns at once.
func vzC14_wide() {
	types := []string{"string", "float64", "[]byte", "bool", "rune"}
	n := vzRange("cols", 0, len(types))
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	for i := 0; i < n; i++ {
		vzMust(t.AppendCol(string(rune('a'+i)), types[i]), "AppendCol")
	}
	rows := vzRange("rows", 0, 1+vzTier())
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		for i := 0; i < n; i++ {
			vzC14set(t, i, r, vzCell(types[i], string(rune('a'+i))+string(rune('0'+r)), 1))
		}
	}
	_, ok := vzGobTable(t)
	vzAssert(ok, "a table without times and nested tables is encoded")
	vzReach("round trip")
}

// vzC14_keys: any list of sort keys with any reverse settings; the decoded table sorts as the original.
func vzC14_keys() {
	t, err := NewTable("T")
	vzMust(err, "NewTable")
	cols := []string{"a", "b", "c"}
	for i, typ := range []string{"int8", "string", "bool"} {
		vzMust(t.AppendCol(cols[i], typ), "AppendCol")
	}
	rows := vzRange("rows", 0, 2+vzTier())
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		vzC14set(t, 0, r, vzInt8("a"+string(rune('0'+r))))
		vzC14set(t, 1, r, []string{"x", "y"}[vzRange("b"+string(rune('0'+r)), 0, 1)])
		vzC14set(t, 2, r, r == 0)
	}
	var keys []string
	used := 0
	n := vzRange("keys", 0, 3)
	for i := 0; i < n; i++ {
		k := vzRange("key"+string(rune('0'+i)), 0, 2)
		vzAssume(used&(1<<k) == 0)
		used |= 1 << k
		keys = append(keys, cols[k])
	}
	if n > 0 {
		vzMust(t.SetSortKeys(keys...), "SetSortKeys")
		for i := 0; i < n; i++ {
			if vzBool("rev" + string(rune('0'+i))) {
				vzMust(t.SetSortKeysReverse(keys[i]), "SetSortKeysReverse")
			}
		}
	}
	got, ok := vzGobTable(t)
	vzAssert(ok, "a table with sort keys is encoded")
	if !ok || n == 0 {
		vzReach("no keys")
		return
	}
	vzMust(t.Sort(), "Sort")
	vzMust(got.Sort(), "the decoded table sorts by its keys")
	vzAssert(vzSameCells(vzSnap(got).cells, vzSnap(t).cells), "the decoded table sorts as the original")
	vzReach("sorted")
}

// vzC14_sets: table sets with their names, in order.
func vzC14_sets() {
	name := []string{"", "S"}[vzRange("name", 0, 1)]
	set, err := NewTableSet(name)
	vzMust(err, "NewTableSet")
	set.SetFileName([]string{"", "f.got"}[vzRange("file", 0, 1)])
	n := vzRange("tables", 0, 2+vzTier())
	var want []*vzSnapT
	for i := 0; i < n; i++ {
		t, err := NewTable(string(rune('T' + i)))
		vzMust(err, "NewTable")
		vzMust(t.AppendCol("a", "int32"), "AppendCol")
		vzMust(t.AppendCol("s", "string"), "AppendCol")
		for r := vzRange("rows"+string(rune('0'+i)), 0, 1); r > 0; r-- {
			vzMust(t.AppendRow(), "AppendRow")
			vzC14set(t, 0, 0, vzInt32("v"+string(rune('0'+i))))
			vzC14set(t, 1, 0, vzStr("s"+string(rune('0'+i)), 1))
		}
		if i == 0 && vzBool("keys") {
			vzMust(t.SetSortKeys("s", "a"), "SetSortKeys")
			vzMust(t.SetSortKeysReverse("a"), "SetSortKeysReverse")
		}
		vzMust(set.AppendTable(t), "AppendTable")
		want = append(want, vzSnap(t))
	}
	bufs, err := set.GobEncode()
	vzMust(err, "a set of plain tables is encoded")
	var got *TableSet
	if vzBool("new") {
		got, err = NewTableSetFromGob(bufs)
	} else {
		got, err = GobDecodeTableSet(bufs)
	}
	vzMust(err, "what was encoded decodes")
	vzAssert(got.Name() == name && got.FileName() == set.FileName() && got.TableCount() == n, "same set name, file name and number of tables")
	if got.TableCount() == n {
		for i := range want {
			t, err := got.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			vzInv(t, "decoded table")
			vzAssert(vzSnapSame(vzSnap(t), want[i]), "the decoded tables equal the encoded ones, in order")
		}
	}
	vzReach("set")
}

// vzC14_badset: one table of a set that gob cannot carry makes the whole encoding fail.
func vzC14_badset() {
	set, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	bad := vzRange("bad", 0, 2)
	for i := 0; i < 3; i++ {
		t, err := NewTable(string(rune('T' + i)))
		vzMust(err, "NewTable")
		typ := "int8"
		if i == bad {
			typ = []string{"time.Time", "*Table"}[vzRange("type", 0, 1)]
		}
		vzMust(t.AppendCol("a", typ), "AppendCol")
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(set.AppendTable(t), "AppendTable")
	}
	_, err = set.GobEncode()
	vzAssert(err != nil, "a set with a cell gob cannot carry is refused")
	vzReach("refused")
}

// vzC14_hostile: a stream that does not hold a valid table is refused; it never panics or yields a broken table.
func vzC14_hostile() {
	x := TableExported{TableName: []string{"T", "", "1"}[vzRange("name", 0, 2)]}
	names := []string{"a", "b", ""}
	types := []string{"int8", "string", "complex", "int8"}
	for i := vzRange("names", 0, 2); i > 0; i-- {
		x.ColNames = append(x.ColNames, names[vzRange("n", 0, 2)])
	}
	for i := vzRange("types", 0, 2); i > 0; i-- {
		x.ColTypes = append(x.ColTypes, types[vzRange("t", 0, 2)])
	}
	if vzBool("map") {
		x.ColNamesMap = map[string]int{}
		for i, n := range x.ColNames {
			x.ColNamesMap[n] = i
		}
		if vzBool("more") {
			x.ColNamesMap["b"] = vzRange("ix", 0, 2)
		}
	}
	if len(x.ColNames) == 0 || len(x.ColNames) != len(x.ColTypes) || x.TableName != "T" {
		vzReach("shape")
	} else if vzBool("row") {
		var row tableRow
		for c := vzRange("cells", 0, 2); c > 0; c-- {
			row = append(row, []interface{}{vzInt8("v"), "x", nil, uint8(1)}[vzRange("cell", 0, 3)])
		}
		x.Rows = append(x.Rows, row)
	}
	if vzBool("key") {
		x.SortKeys = []SortKeyExported{{ColName: []string{"a", "z"}[vzRange("k", 0, 1)], ColType: "int8"}}
	}
	var buf bytes.Buffer
	vzMust(gob.NewEncoder(&buf).Encode(x), "gob.Encode")
	t, err := NewTableFromGob(buf.Bytes())
	if err == nil {
		vzInv(t, "table decoded from a foreign stream")
		vzReach("accepted")
	} else {
		vzReach("refused")
	}
}

// vzC14_garbage: streams that are not gob, or not of tables.
func vzC14_garbage() {
	switch vzRange("what", 0, 4) {
	case 0:
		_, err := NewTableFromGob([]byte(vzStr("s", vzRange("len", 0, 3))))
		vzAssert(err != nil, "bytes that are not gob are refused")
	case 1:
		_, err := NewTableSetFromGob(nil)
		vzAssert(err != nil, "no buffers at all are refused")
	case 2:
		_, err := NewTableSetFromGob([]bytes.Buffer{{}})
		vzAssert(err != nil, "a set without a header is refused")
	case 3:
		var t *Table
		_, err := t.GobEncode()
		vzAssert(err != nil, "a nil table is refused")
	case 4:
		var s *TableSet
		_, err := s.GobEncode()
		vzAssert(err != nil, "a nil set is refused")
	}
	vzReach("refused")
}

// larger tables
func vzC14_big() {
	t, _ := vzBigOne([]string{"bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "rune", "string", "uint", "uint16", "uint32", "uint64", "uint8", "[]byte", "[]uint8"})
	_, ok := vzGobTable(t)
	vzAssert(ok, "a table without times and nested tables is encoded")
	vzReach("round trip")
}
func vzC14_long() {
	_, ok := vzGobTable(vzBigLong())
	vzAssert(ok, "a table without times and nested tables is encoded")
	vzReach("round trip")
}
func vzC14_bigSet() {
	set := vzBigSet([]string{"bool", "float32", "int", "int8", "rune", "string", "uint64", "[]byte"})
	bufs, err := set.GobEncode()
	vzMust(err, "a set without times and nested tables is encoded")
	got, err := GobDecodeTableSet(bufs)
	vzMust(err, "what was encoded decodes")
	vzSameSets(set, got, vzSnapSame)
	vzReach("set")
}
