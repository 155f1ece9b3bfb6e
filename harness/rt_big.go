//go:build go1.21

package gotables

import "time"

// Larger tables: their cells are fixed, what is done with them is symbolic.

func vzDec(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return vzDec(n/10) + string(rune('0'+n%10))
}

// vzBigCell: a fixed cell of the type, different from cell to cell where the type has room.
func vzBigCell(typ string, r, c int) interface{} {
	n := r*31 + c*7 + 1
	switch typ {
	case "bool":
		return (r+c/2)%2 == 0
	case "byte", "uint8":
		return uint8(n)
	case "int8":
		return int8(n)
	case "int16":
		return int16(-n)
	case "int32":
		return int32(n * 65537)
	case "rune":
		return rune('a' + n%26 + 0x4e00*(n%2))
	case "int64":
		return int64(n) << 40
	case "int":
		return -n << 33
	case "uint16":
		return uint16(n * 61)
	case "uint32":
		return uint32(n) * 0x1000193
	case "uint64":
		return uint64(n) * 0x9e3779b97f4a7c15
	case "uint":
		return uint(n) << 50
	case "float32":
		return float32(n) + 0.5
	case "float64":
		return -float64(n) * 0.25
	case "string":
		return "s " + vzDec(n) + "\"#"[:n%3]
	case "[]byte", "[]uint8":
		return []byte{byte(n), byte(n >> 8), 255}[:n%4]
	case "time.Time":
		return time.Unix(1582934400+int64(n)*86399, int64(n)*1001).UTC()
	case "*Table":
		t, err := NewTable("N" + vzDec(n))
		vzMust(err, "NewTable")
		return t
	}
	panic("vzBigCell: " + typ)
}

// vzBigTypes: n column types, taken round the list from position off.
func vzBigTypes(list []string, off, n int) (types []string) {
	for c := 0; c < n; c++ {
		types = append(types, list[(off+c)%len(list)])
	}
	return
}

// vzBig: a table of fixed cells in columns c0, c1, ...
func vzBig(name string, types []string, rows int) *Table {
	var cols []string
	for c := range types {
		cols = append(cols, "c"+vzDec(c))
	}
	return vzBigNamed(name, cols, types, rows)
}

func vzBigNamed(name string, cols, types []string, rows int) *Table {
	t, err := NewTableFromMetadata(name, cols, types)
	vzMust(err, "big: NewTableFromMetadata")
	vzMust(t.AppendRows(rows), "big: AppendRows")
	for r := 0; r < rows; r++ {
		for c := range types {
			vzMust(t.SetValByColIndex(c, r, vzBigCell(types[c], r, c)), "big: SetValByColIndex")
		}
	}
	return t
}

// vzBigShape: many rows of few columns, or few rows of many columns, over the list of types.
func vzBigShape(name string, list []string) (types []string, rows int) {
	k := vzRange(name+".shape", 0, 3+2*vzTier())
	s := [][3]int{{12, 4, 0}, {12, 4, 7}, {33, 2, 5}, {3, 24, 0}, {65, 3, 11}, {9, 40, 3}}[k]
	return vzBigTypes(list, s[2], s[1]), s[0]
}

// vzBigOne: a larger table with one arbitrary cell, near an edge.
func vzBigOne(list []string) (*Table, interface{}) {
	types, rows := vzBigShape("big", list)
	t := vzBig("T", types, rows)
	c := []int{0, 1, len(types) / 2, len(types) - 1}[vzRange("c", 0, 3)]
	r := []int{0, rows / 2, rows - 1}[vzRange("r", 0, 2)]
	switch types[c] {
	case "float32", "float64", "time.Time", "*Table", "rune":
	default:
		v := vzCellN(types[c], "v", 1)
		vzMust(t.SetValByColIndex(c, r, v), "SetValByColIndex")
		return t, v
	}
	return t, nil
}

// vzBigLong: long strings and slices: fixed but for one byte.
func vzBigLong() *Table {
	n := []int{31, 64, 79, 100, 257, 1100}[vzRange("long", 0, 4+vzTier())]
	b := make([]byte, n)
	for i := range b {
		b[i] = "abc \"#\\]["[i%9]
	}
	at := []int{0, n / 2, n - 1}[vzRange("at", 0, 2)]
	x := vzUint8("x")
	if vzRange("kind", 0, 1) == 0 {
		vzAssume(x < 0x80) // the string stays UTF-8
		b[at] = x
		return vzRoundTable([]string{"string", "int"}, [][]interface{}{{string(b), 1}, {"", -1}})
	}
	b[at] = x
	return vzRoundTable([]string{"int", "[]byte", "[]uint8"}, [][]interface{}{{1, b, []byte{}}, {-1, []byte{}, b}})
}

// vzBigSet: a set of many tables of different shapes.
func vzBigSet(list []string) *TableSet {
	s, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	n := []int{9, 12, 21}[vzRange("tables", 0, 2)]
	at := vzRange("odd", 0, n-1)
	for i := 0; i < n; i++ {
		rows := (i * 5) % 4
		if i == at {
			rows = 9
		}
		t := vzBig("T"+vzDec(i), vzBigTypes(list, i, 1+i%4), rows)
		vzMust(s.AppendTable(t), "AppendTable")
	}
	return s
}

var vzManyTypes = []string{"int8", "bool", "string", "uint16", "float64", "int64", "uint8", "float32", "int", "uint32", "int16", "int32", "uint64", "uint", "bool", "int8", "string"}

// vzManyKeys: rows over many key columns k0, k1, ... and a numbering column tag. The keys before the one at
// position at are the same in every row, the one there is arbitrary, those after it are fixed (same: in every row).
func vzManyKeys(name, tag string, n, at, rows int, same bool) (t *Table, keys []string) {
	var types []string
	for k := 0; k < n; k++ {
		keys = append(keys, "k"+vzDec(k))
		types = append(types, vzManyTypes[k])
	}
	t, err := NewTableFromMetadata(name, append([]string{tag}, keys...), append([]string{"int"}, types...))
	vzMust(err, "NewTableFromMetadata")
	vzMust(t.AppendRows(rows), "AppendRows")
	for r := 0; r < rows; r++ {
		vzMust(t.SetInt(tag, r, r), "SetInt")
		for k := 0; k < n; k++ {
			x := 0
			if k > at && !same {
				x = (r*2 + k) % 3
			}
			v := vzBigCell(types[k], x, k)
			if k == at {
				v = vzSortCell(types[k], name+"."+keys[k], 1)
			}
			vzMust(t.SetVal(keys[k], r, v), "SetVal")
		}
	}
	return
}

// vzManyRev: sets the keys, some of them reversed.
func vzManyRev(t *Table, keys []string, at int) []bool {
	rev := make([]bool, len(keys))
	how := vzRange("rev", 0, 1+2*vzTier())
	var names []string
	for k := range keys {
		rev[k] = how == 1 && (k+at)%2 == 0 || how == 2 || how == 3 && k > at
		if rev[k] {
			names = append(names, keys[k])
		}
	}
	vzMust(t.SetSortKeys(keys...), "SetSortKeys")
	if len(names) > 0 {
		vzMust(t.SetSortKeysReverse(names...), "SetSortKeysReverse")
	}
	return rev
}

// vzManyLess: row a is before row b by the keys.
func vzManyLess(a, b []interface{}, rev []bool) (less, eq bool) {
	less, eq = false, true
	for k := range a {
		x, y := a[k], b[k]
		if rev[k] {
			x, y = y, x
		}
		less = vzOr(less, vzAnd(eq, vzLess(x, y)))
		eq = vzAnd(eq, vzEq(x, y))
	}
	return
}
