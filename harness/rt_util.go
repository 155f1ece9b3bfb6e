//go:build go1.21

package gotables

import (
	"math"
	"time"
)

// ---- boolean combinators that do not fork under the engine ----

func vzAnd(a, b bool) bool     { return a && b }
func vzOr(a, b bool) bool      { return a || b }
func vzImplies(a, b bool) bool { return !a || b }

func vzB2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

func vzMust(err error, msg string) {
	vzAssert(err == nil, msg)
	vzAssume(err == nil)
}

var vzScalarTypes = []string{"bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "rune", "string", "uint", "uint16", "uint32", "uint64", "uint8"}
var vzSortTypes = []string{"bool", "float32", "float64", "int", "int16", "int32", "int64", "int8", "string", "uint", "uint16", "uint32", "uint64", "uint8"}
var vzAllTypes = []string{"bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "rune", "string", "uint", "uint16", "uint32", "uint64", "uint8", "[]byte", "[]uint8", "*Table", "time.Time"}

// vzTime: an arbitrary instant in years 0..9999 UTC.
func vzTime(name string) time.Time {
	sec := vzInt64(name + ".sec")
	nsec := vzInt64(name + ".nsec")
	vzAssume(vzAnd(-62167219200 <= sec, sec <= 253402300799))
	vzAssume(vzAnd(0 <= nsec, nsec <= 999999999))
	return time.Unix(sec, nsec).UTC()
}

// vzCell: an arbitrary value of a column type. Strings and byte slices have length <= maxLen.
func vzCell(typ string, name string, maxLen int) interface{} {
	n := 0
	if typ == "string" || typ == "[]byte" || typ == "[]uint8" {
		n = vzRange(name+".len", 0, maxLen)
	}
	return vzCellN(typ, name, n)
}

// vzCellN: as vzCell with strings and byte slices of exactly the given length.
func vzCellN(typ string, name string, n int) interface{} {
	switch typ {
	case "bool":
		return vzBool(name)
	case "byte", "uint8":
		return vzUint8(name)
	case "float32":
		return vzFloat32(name)
	case "float64":
		return vzFloat64(name)
	case "int":
		return vzInt(name)
	case "int16":
		return vzInt16(name)
	case "int32":
		return vzInt32(name)
	case "rune":
		return vzRune(name)
	case "int64":
		return vzInt64(name)
	case "int8":
		return vzInt8(name)
	case "string":
		return vzStr(name, n)
	case "uint":
		return vzUint(name)
	case "uint16":
		return vzUint16(name)
	case "uint32":
		return vzUint32(name)
	case "uint64":
		return vzUint64(name)
	case "[]byte", "[]uint8":
		return []byte(vzStr(name, n))
	case "time.Time":
		return vzTime(name)
	case "*Table":
		t, err := NewTable("Inner")
		vzMust(err, "NewTable")
		vzMust(t.AppendCol("v", "int8"), "AppendCol")
		vzMust(t.AppendRow(), "AppendRow")
		vzMust(t.SetInt8("v", 0, vzInt8(name+".v")), "SetInt8")
		return t
	}
	panic("vzCell: " + typ)
}

// vzSame: same dynamic type and same value (floats bitwise or both NaN, slices by content, tables by content).
func vzSame(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case uint8:
		y, ok := b.(uint8)
		return ok && x == y
	case int8:
		y, ok := b.(int8)
		return ok && x == y
	case int16:
		y, ok := b.(int16)
		return ok && x == y
	case int32:
		y, ok := b.(int32)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case uint16:
		y, ok := b.(uint16)
		return ok && x == y
	case uint32:
		y, ok := b.(uint32)
		return ok && x == y
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	case uint:
		y, ok := b.(uint)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && vzOr(vzAnd(x == y, math.Signbit(float64(x)) == math.Signbit(float64(y))), vzAnd(x != x, y != y))
	case float64:
		y, ok := b.(float64)
		return ok && vzOr(vzAnd(x == y, math.Signbit(x) == math.Signbit(y)), vzAnd(x != x, y != y))
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && vzAnd(x.Unix() == y.Unix(), x.Nanosecond() == y.Nanosecond())
	case *Table:
		if z, ok := b.(*vzSnapT); ok {
			return x != nil && vzSnapSame(vzSnap(x), z)
		}
		y, ok := b.(*Table)
		if !ok {
			return false
		}
		if x == nil || y == nil {
			return x == y
		}
		return vzSnapSame(vzSnap(x), vzSnap(y))
	case *vzSnapT:
		if z, ok := b.(*vzSnapT); ok {
			return vzSnapSame(x, z)
		}
		return vzSame(b, a)
	}
	panic("vzSame: unexpected cell type")
}

// ---- snapshots through the exported API ----

type vzSnapT struct {
	name  string
	names []string
	types []string
	cells [][]interface{}
	keys  []string
	revs  []bool
	shape bool
}

func vzSnap(t *Table) *vzSnapT {
	s := &vzSnapT{name: t.Name()}
	for c := 0; c < t.ColCount(); c++ {
		n, err := t.ColName(c)
		vzMust(err, "snapshot: ColName of an existing column")
		ty, err := t.ColTypeByColIndex(c)
		vzMust(err, "snapshot: ColTypeByColIndex of an existing column")
		s.names = append(s.names, n)
		s.types = append(s.types, ty)
	}
	for r := 0; r < t.RowCount(); r++ {
		var row []interface{}
		for c := 0; c < t.ColCount(); c++ {
			v, err := t.GetValByColIndex(c, r)
			vzMust(err, "snapshot: GetValByColIndex of an existing cell")
			row = append(row, vzKeep(v))
		}
		s.cells = append(s.cells, row)
	}
	s.keys, s.revs = vzKeys(t)
	sh, err := t.IsStructShape()
	vzMust(err, "snapshot: IsStructShape")
	s.shape = sh
	return s
}

// vzSnapDeep: as vzSnap, remembering the content of nested tables too.
func vzSnapDeep(t *Table) *vzSnapT {
	s := vzSnap(t)
	for _, row := range s.cells {
		for c, v := range row {
			if n, ok := v.(*Table); ok && n != nil {
				row[c] = vzSnapDeep(n)
			}
		}
	}
	return s
}

// vzKeep: value to remember; byte slices are copied so that later in-place changes are noticed.
func vzKeep(v interface{}) interface{} {
	if b, ok := v.([]byte); ok {
		return append([]byte{}, b...)
	}
	return v
}

func vzKeys(t *Table) (names []string, revs []bool) {
	kt, err := t.GetSortKeysAsTable()
	vzMust(err, "snapshot: GetSortKeysAsTable")
	for i := 0; i < kt.RowCount(); i++ {
		n, err := kt.GetString("colName", i)
		vzMust(err, "snapshot: sort key colName")
		r, err := kt.GetBool("reverse", i)
		vzMust(err, "snapshot: sort key reverse")
		names = append(names, n)
		revs = append(revs, r)
	}
	return names, revs
}

func vzSameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vzSameCells(a, b [][]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for c := range a[i] {
			ok = vzAnd(ok, vzSame(a[i][c], b[i][c]))
		}
	}
	return ok
}

// vzSnapData: same name, columns and cells.
func vzSnapData(a, b *vzSnapT) bool {
	if !vzSameStrs(a.names, b.names) || !vzSameStrs(a.types, b.types) {
		return false
	}
	return vzAnd(a.name == b.name, vzSameCells(a.cells, b.cells))
}

// vzSnapSame: same name, columns, cells, sort keys and shape.
func vzSnapSame(a, b *vzSnapT) bool {
	if !vzSnapData(a, b) || !vzSameStrs(a.keys, b.keys) || a.shape != b.shape {
		return false
	}
	for i := range a.revs {
		if a.revs[i] != b.revs[i] {
			return false
		}
	}
	return true
}

func vzTypeOK(typ string, v interface{}) bool {
	ok := false
	switch typ {
	case "bool":
		_, ok = v.(bool)
	case "byte", "uint8":
		_, ok = v.(uint8)
	case "float32":
		_, ok = v.(float32)
	case "float64":
		_, ok = v.(float64)
	case "int":
		_, ok = v.(int)
	case "int16":
		_, ok = v.(int16)
	case "int32", "rune":
		_, ok = v.(int32)
	case "int64":
		_, ok = v.(int64)
	case "int8":
		_, ok = v.(int8)
	case "string":
		_, ok = v.(string)
	case "uint":
		_, ok = v.(uint)
	case "uint16":
		_, ok = v.(uint16)
	case "uint32":
		_, ok = v.(uint32)
	case "uint64":
		_, ok = v.(uint64)
	case "[]byte", "[]uint8":
		_, ok = v.([]byte)
	case "time.Time":
		_, ok = v.(time.Time)
	case "*Table":
		_, ok = v.(*Table)
	}
	return ok
}

// vzInv: the structural invariant of a table, observed through the exported API.
func vzInv(t *Table, where string) {
	valid, err := t.IsValidTable()
	vzAssert(valid && err == nil, where+": table is a valid table")
	n := t.ColCount()
	for c := 0; c < n; c++ {
		name, err := t.ColName(c)
		vzMust(err, where+": every column has a name")
		ix, err := t.ColIndex(name)
		vzAssert(err == nil && ix == c, where+": column name leads back to its own column")
		has, err := t.HasCol(name)
		vzAssert(err == nil && has, where+": HasCol of an existing column")
		typ, err := t.ColTypeByColIndex(c)
		vzMust(err, where+": every column has a type")
		for d := 0; d < c; d++ {
			other, _ := t.ColName(d)
			vzAssert(other != name, where+": column names are unique")
		}
		for r := 0; r < t.RowCount(); r++ {
			v, err := t.GetValByColIndex(c, r)
			vzMust(err, where+": every row has a cell in every column")
			vzAssert(vzTypeOK(typ, v), where+": cell value has its column's type")
			w, err := t.GetVal(name, r)
			vzMust(err, where+": cell reachable by column name")
			vzAssert(vzSame(v, w), where+": same cell by name and by index")
		}
	}
	keys, _ := vzKeys(t)
	for _, k := range keys {
		has, err := t.HasCol(k)
		vzAssert(err == nil && has, where+": every sort key names a column of the table")
	}
}

// vzBuild makes a table with the given columns and rows of arbitrary cells (strings: length 1, 2, .. maxLen, 0, 1, .. by row).
func vzBuild(name string, cols, types []string, rows int, maxLen int) *Table {
	t, err := NewTableFromMetadata(name, cols, types)
	vzMust(err, "build: NewTableFromMetadata")
	vzMust(t.AppendRows(rows), "build: AppendRows")
	for r := 0; r < rows; r++ {
		for c := range cols {
			vzMust(t.SetVal(cols[c], r, vzCellN(types[c], name+"."+cols[c], (r+1)%(maxLen+1))), "build: SetVal")
		}
	}
	return t
}

// vzLess / vzEq: the documented order of each sortable column type (floats: no NaN).
func vzLess(a, b interface{}) bool {
	switch x := a.(type) {
	case bool:
		return vzAnd(!x, b.(bool))
	case uint8:
		return x < b.(uint8)
	case int8:
		return x < b.(int8)
	case int16:
		return x < b.(int16)
	case int32:
		return x < b.(int32)
	case int64:
		return x < b.(int64)
	case int:
		return x < b.(int)
	case uint16:
		return x < b.(uint16)
	case uint32:
		return x < b.(uint32)
	case uint64:
		return x < b.(uint64)
	case uint:
		return x < b.(uint)
	case float32:
		return x < b.(float32)
	case float64:
		return x < b.(float64)
	case string:
		y := b.(string)
		lx, ly := vzLower(x), vzLower(y)
		return vzOr(lx < ly, vzAnd(lx == ly, x < y))
	}
	panic("vzLess")
}

func vzEq(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		return x == b.(float32)
	case float64:
		return x == b.(float64)
	}
	return vzSame(a, b)
}

// vzLower: ASCII lower case without forking.
func vzLower(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = s[i] + vzLowerTab[s[i]]
	}
	return string(b)
}

var vzLowerTab = func() (t [256]byte) {
	for c := 'A'; c <= 'Z'; c++ {
		t[c] = 'a' - 'A'
	}
	return
}()

func vzNotNaN(v interface{}) bool {
	switch x := v.(type) {
	case float32:
		return x == x
	case float64:
		return x == x
	}
	return true
}

func vzASCII(s string) {
	for i := 0; i < len(s); i++ {
		vzAssume(s[i] < 0x80)
	}
}

// vzSortCell: an arbitrary sortable cell (no NaN; ASCII strings).
func vzSortCell(typ, name string, maxLen int) interface{} {
	v := vzCell(typ, name, maxLen)
	vzAssume(vzNotNaN(v))
	if s, ok := v.(string); ok {
		vzASCII(s)
	}
	return v
}

var vzNames20 = func() (n []string) {
	for i := range vzAllTypes {
		n = append(n, "c"+string(rune('a'+i)))
	}
	return
}()

// vzZero: is v the zero value of the column type?
func vzZero(typ string, v interface{}) bool {
	switch x := v.(type) {
	case bool:
		return typ == "bool" && !x
	case string:
		return typ == "string" && x == ""
	case []byte:
		return (typ == "[]byte" || typ == "[]uint8") && x != nil && len(x) == 0
	case *Table:
		if typ != "*Table" || x == nil {
			return false
		}
		is, err := x.IsNilTable()
		return is && err == nil && x.RowCount() == 0 && x.ColCount() == 0
	case time.Time:
		return typ == "time.Time" && x.Equal(MinTime)
	}
	return vzTypeOK(typ, v) && vzSame(v, vzZeroNum(typ))
}

func vzZeroNum(typ string) interface{} {
	switch typ {
	case "byte", "uint8":
		return uint8(0)
	case "float32":
		return float32(0)
	case "float64":
		return float64(0)
	case "int":
		return int(0)
	case "int16":
		return int16(0)
	case "int32", "rune":
		return int32(0)
	case "int64":
		return int64(0)
	case "int8":
		return int8(0)
	case "uint":
		return uint(0)
	case "uint16":
		return uint16(0)
	case "uint32":
		return uint32(0)
	case "uint64":
		return uint64(0)
	}
	return nil
}

// vzAliasTypes: the same type up to the aliases byte/uint8, []byte/[]uint8, rune/int32.
func vzAliasTypes(a, b string) bool {
	n := func(s string) string {
		switch s {
		case "byte":
			return "uint8"
		case "[]byte":
			return "[]uint8"
		case "rune":
			return "int32"
		}
		return s
	}
	return n(a) == n(b)
}

// vzClockStopped: time.Now is one fixed instant (where the time of day is not the subject)
var vzClockStopped bool

// vzStub_time_Now stands in for time.Now under the engine: an arbitrary instant.
func vzStub_time_Now() time.Time {
	if vzClockStopped {
		return time.Unix(1600000000, 0)
	}
	sec := vzInt64("time.Now")
	vzAssume(vzAnd(0 <= sec, sec <= 4102444800))
	return time.Unix(sec, 0)
}

// the local time zone is UTC (native replays run with TZ=UTC)
func vzStub_time_initLocal() {}

func vzIsType(s string) bool {
	for _, t := range vzAllTypes {
		if s == t {
			return true
		}
	}
	return false
}
