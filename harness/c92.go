//go:build go1.21

package gotables

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

// The Go source generated for a table compiles, and its functions convert tables to structs and back.
//
// Before the harnesses are loaded, the real generator is run for every entry of the menu, what it writes is compiled as it
// is in packages of its own, and then added to this package (without the "gotables." qualifier) to be executed symbolically.

type vzGenMeta struct {
	name        string
	cols, types []string
}

func vzGenMenu() (m []vzGenMeta) {
	for i, typ := range vzAllTypes {
		m = append(m, vzGenMeta{"GenOne" + vzDec(i), []string{"a"}, []string{typ}})
	}
	m = append(m,
		vzGenMeta{"GenAll", vzNames20, vzAllTypes},
		vzGenMeta{"GenNone", nil, nil},
		vzGenMeta{"GenTwo", []string{"b", "a"}, []string{"string", "int16"}},
		vzGenMeta{"gen_Case2", []string{"A", "a", "_a", "a_1", "Ab"}, []string{"int8", "uint8", "bool", "rune", "byte"}},
		vzGenMeta{"GenSelf", []string{"x", "GenSelf"}, []string{"int", "string"}},
		vzGenMeta{"GenMany", []string{"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12"}, vzBigTypes(vzScalarTypes, 5, 13)},
	)
	for _, name := range []string{"err", "slice", "rowIndex", "tableName"} {
		m = append(m, vzGenMeta{name, []string{"x", name}, []string{"time.Time", "uint16"}})
	}
	for i, c := range []string{"err", "table", "rowIndex", "slice", "tableName", "colNames", "colTypes", "value", "i"} {
		m = append(m, vzGenMeta{"GenName" + vzDec(i), []string{c, "z"}, []string{"int", "string"}})
		m = append(m, vzGenMeta{"GenLast" + vzDec(i), []string{"z", c, "y"}, []string{"float64", "bool", "[]byte"}})
	}
	return m
}

// VzGen is run natively: it writes the source generated for each entry, and the harness that drives it.
func VzGen() {
	type out struct{ Name, Text, Harness, Err string }
	var outs []out
	for k, m := range vzGenMenu() {
		o := out{Name: fmt.Sprintf("g%02d", k)}
		t, err := NewTableFromMetadata(m.name, m.cols, m.types)
		if err != nil {
			panic(err)
		}
		for _, gen := range []func() (string, error){t.GenerateTypeStruct, t.GenerateTypeStructSliceFromTable, t.GenerateTypeStructSliceToTable} {
			s, err := gen()
			if err != nil {
				o.Err = err.Error()
			}
			o.Text += s + "\n"
		}
		var cells []string
		for _, c := range m.cols {
			cells = append(cells, "s[r]."+c)
		}
		o.Harness = fmt.Sprintf(`
func vzC92_%s() {
	vzC92round(%d, func(t *Table) (n int, cells func(r int) []interface{}, back func(twice bool) (*Table, error), err error) {
		s, err := TypeStructSliceFromTable_%s(t)
		return len(s), func(r int) []interface{} { return []interface{}{%s} }, func(twice bool) (*Table, error) {
			if twice {
				s = append(s, s...)
			}
			return TypeStructSliceToTable_%s(s)
		}, err
	})
}
`, o.Name, k, m.name, strings.Join(cells, ", "), m.name)
		outs = append(outs, o)
	}
	b, err := json.Marshal(outs)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}

type vzGenConv = func(t *Table) (n int, cells func(r int) []interface{}, back func(twice bool) (*Table, error), err error)

func vzC92round(k int, conv vzGenConv) {
	m := vzGenMenu()[k]
	rows := vzRange("rows", 0, 2)
	if len(m.cols) > 13 {
		rows = vzRange("rows1", 0, 1)
	}
	t := vzBuild(m.name, m.cols, m.types, 0, 1)
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		for c := range m.cols {
			if m.types[c] == "*Table" && vzRange("nil", 0, 1) == 1 {
				continue
			}
			vzMust(t.SetValByColIndex(c, r, vzCellN(m.types[c], "v"+vzDec(c), r+1)), "SetVal")
		}
	}
	want := vzSnapDeep(t)
	n, cells, back, err := conv(t)
	vzMust(err, "the generated function converts the table to structs")
	vzAssert(vzSnapSame(vzSnapDeep(t), want), "converting changes nothing")
	vzAssert(n == rows, "one struct for each row")
	for r := 0; r < n; r++ {
		vzAssert(vzSameCells([][]interface{}{cells(r)}, want.cells[r:r+1]), "each field holds the cell of its column")
	}
	got, err := back(false)
	vzMust(err, "the generated function converts the structs to a table")
	vzInv(got, "converted table")
	vzAssert(vzSnapData(vzSnapDeep(got), want), "the structs convert back to an equal table")
	got, err = back(true)
	vzMust(err, "the generated function converts any structs to a table")
	want.cells = append(append([][]interface{}{}, want.cells...), want.cells...)
	vzAssert(vzSnapData(vzSnapDeep(got), want), "a table has one row for each struct")
	_, _, _, err = conv(nil)
	vzAssert(err != nil, "a nil table is refused")
	vzReach("end")
}

// a nil table has no source
func vzC92_nil() {
	var t *Table
	_, err := t.GenerateTypeStruct()
	vzAssert(err != nil, "a nil table is refused")
	_, err = t.GenerateTypeStructSliceFromTable()
	vzAssert(err != nil, "a nil table is refused")
	_, err = t.GenerateTypeStructSliceToTable()
	vzAssert(err != nil, "a nil table is refused")
	vzReach("end")
}

// The generators treat every name alike: the text for arbitrary names is the text for other names of the same shape, with
// the names exchanged.
func vzC92_names() {
	vzClockStopped = true
	name := func(n string, max int) string {
		s := vzStr(n, vzRange(n+".len", 1, max))
		ok, err := IsValidColName(s)
		vzAssume(vzAnd(ok, err == nil))
		return s
	}
	names := []string{"qTableq", "qFirstq", "qLastq"}
	with := append([]string{}, names...)
	k := vzRange("which", 0, 2)
	with[k] = name("n", 3+vzTier())
	types := []string{vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)], "string"}
	texts := func(n []string) (s []string) {
		t, err := NewTableFromMetadata(n[0], n[1:], types)
		vzMust(err, "NewTableFromMetadata")
		for _, gen := range []func() (string, error){t.GenerateTypeStruct, t.GenerateTypeStructSliceFromTable, t.GenerateTypeStructSliceToTable} {
			x, err := gen()
			vzMust(err, "generate")
			x = x[strings.Index(x, "*/"):] // without the time of day
			var y []byte
			for i := 0; i < len(x); i++ { // nor any alignment
				if x[i] != ' ' && x[i] != '\t' {
					y = append(y, x[i])
				}
			}
			s = append(s, string(y))
		}
		return
	}
	a, b := texts(names), texts(with)
	for i := range a {
		want := strings.Join(strings.Split(a[i], names[k]), with[k])
		vzAssert(b[i] == want, "the text generated for a name is the text for any other, with the name in its places")
	}
	vzReach("end")
}
