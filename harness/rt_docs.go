//go:build go1.21

package gotables

import (
	"encoding/json"
	"math"
	"strconv"
	"strings"
	"time"
)

// What a decoded JSON or YAML document says: the reference for NewTableSetFromJSON and NewTableSetFromYAML.

const (
	vzDocNo    = iota // does not describe a table set: must be refused
	vzDocYes          // describes one
	vzDocMaybe        // not specified: refused, or accepted as described
)

type vzDocT struct {
	name        string
	shape       int // 0 1, or 2: not specified
	cols, types []string
	cells       [][]interface{} // *vzDocT for a nested table, nil for the zero value
}

func vzDocAnd(a, b int) int {
	if a == vzDocNo || b == vzDocNo {
		return vzDocNo
	}
	if a == vzDocMaybe || b == vzDocMaybe {
		return vzDocMaybe
	}
	return vzDocYes
}

func vzDocName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || i > 0 && '0' <= c && c <= '9') {
			return false
		}
	}
	return s != "" && !vzIsType(s)
}

func vzDocSet(doc interface{}, js bool) (ok int, name string, tables []*vzDocT) {
	m, is := doc.(map[string]interface{})
	if !is {
		return vzDocNo, "", nil
	}
	name, is = m["tableSetName"].(string)
	if !is { // any string will do
		return vzDocNo, "", nil
	}
	list, is := m["tables"].([]interface{})
	if !is {
		return vzDocNo, "", nil
	}
	ok = vzDocYes
	for _, e := range list {
		o, t := vzDocTable(e, js, false)
		ok = vzDocAnd(ok, o)
		if o == vzDocNo {
			return ok, "", nil
		}
		for _, other := range tables {
			if other.name == t.name {
				return vzDocNo, "", nil
			}
		}
		tables = append(tables, t)
	}
	return
}

func vzDocTable(e interface{}, js, nested bool) (int, *vzDocT) {
	m, is := e.(map[string]interface{})
	if !is {
		return vzDocNo, nil
	}
	t, ok := &vzDocT{}, vzDocYes
	t.name, is = m["tableName"].(string)
	if is && t.name == "" && nested && !js {
		return vzDocYes, t
	}
	if !is || !vzDocName(t.name) {
		return vzDocNo, nil
	}
	if v, has := m["isStructShape"]; has {
		b, is := v.(bool)
		t.shape = vzB2I(b)
		if !is {
			t.shape, ok = 2, vzDocMaybe
		}
	}
	meta, is := m["metadata"].([]interface{})
	if !is {
		return vzDocNo, nil
	}
	for _, e := range meta {
		pair, is := e.(map[string]interface{})
		if !is || len(pair) != 1 {
			return vzDocNo, nil
		}
		for c, v := range pair {
			typ, is := v.(string)
			if is && len(typ) > 2 && typ[0] == '"' && !js {
				typ, ok = typ[1:len(typ)-1], vzDocMaybe
			}
			if !is || !vzIsType(typ) || !vzDocName(c) {
				return vzDocNo, nil
			}
			for _, other := range t.cols {
				if other == c {
					return vzDocNo, nil
				}
			}
			t.cols, t.types = append(t.cols, c), append(t.types, typ)
		}
	}
	if m["data"] == nil {
		return ok, t
	}
	rows, is := m["data"].([]interface{})
	if !is {
		return vzDocNo, nil
	}
	for _, e := range rows {
		row, is := e.([]interface{})
		if !is || len(row) > len(t.cols) {
			return vzDocNo, nil
		}
		cells := make([]interface{}, len(t.cols))
		for c, v := range row {
			if js {
				pair, is := v.(map[string]interface{})
				if !is || len(pair) != 1 {
					return vzDocNo, nil
				}
				for k, in := range pair {
					v = in
					if k != t.cols[c] {
						ok = vzDocMaybe
					}
				}
			}
			var o int
			o, cells[c] = vzDocCell(t.types[c], v, js)
			ok = vzDocAnd(ok, o)
			if o == vzDocNo {
				return vzDocNo, nil
			}
		}
		t.cells = append(t.cells, cells)
	}
	return ok, t
}

func vzDocCell(typ string, v interface{}, js bool) (int, interface{}) {
	yes := func(is bool, v interface{}) (int, interface{}) {
		if is {
			return vzDocYes, v
		}
		return vzDocNo, nil
	}
	switch typ {
	case "bool":
		b, is := v.(bool)
		return yes(is, b)
	case "string":
		s, is := v.(string)
		return yes(is, s)
	case "time.Time":
		if t, is := v.(time.Time); is {
			return vzDocYes, t
		}
		s, is := v.(string)
		if !is || !js {
			return vzDocNo, nil
		}
		t, err := time.Parse(time.RFC3339, s)
		return yes(err == nil, t)
	case "*Table":
		if v == nil {
			if js {
				return vzDocYes, nil
			}
			return vzDocMaybe, nil
		}
		ok, t := vzDocTable(v, js, true)
		return ok, t
	case "[]byte", "[]uint8":
		list, is := v.([]interface{})
		b := []byte{}
		for _, e := range list {
			n, neg, whole := vzDocInt(e)
			if !whole || neg || n > 255 {
				return vzDocNo, nil
			}
			b = append(b, byte(n))
		}
		return yes(is, b)
	case "float32", "float64":
		f, is := vzDocFloat(v)
		if typ == "float64" {
			return yes(vzAnd(is, !math.IsInf(f, 0)), f)
		}
		return yes(vzAnd(is, !math.IsInf(float64(float32(f)), 0)), float32(f))
	case "rune":
		if js {
			s, is := v.(string)
			r := []rune(s)
			if !is || len(r) != 1 {
				return vzDocNo, nil
			}
			return vzDocYes, r[0]
		}
		typ = "int32"
	}
	n, neg, whole := vzDocInt(v)
	bits, signed := vzIntBits(typ)
	if !whole {
		return vzDocNo, nil
	}
	if signed {
		if neg && -n > 1<<(bits-1) || !neg && n > 1<<(bits-1)-1 {
			return vzDocNo, nil
		}
	} else if neg || bits < 64 && n >= 1<<bits {
		return vzDocNo, nil
	}
	return vzDocYes, n
}

// vzDocInt: v as a whole number (two's complement).
func vzDocInt(v interface{}) (n uint64, neg, ok bool) {
	switch x := v.(type) {
	case int:
		return uint64(x), x < 0, true
	case uint64:
		return x, false, true
	case json.Number:
		s := string(x)
		if strings.ContainsAny(s, ".eE") {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil || f != math.Trunc(f) || math.Abs(f) >= 1<<53 {
				return 0, false, false
			}
			return uint64(int64(f)), f < 0, true
		}
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return uint64(i), i < 0, true
		}
		u, err := strconv.ParseUint(s, 10, 64)
		return u, false, err == nil
	}
	return 0, false, false
}

func vzDocFloat(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case uint64:
		return float64(x), true
	case float64:
		return x, true
	case json.Number:
		f, err := strconv.ParseFloat(string(x), 64)
		return f, err == nil
	}
	return 0, false
}

// vzDocSame: t is the table the document describes.
func vzDocSame(t *Table, d *vzDocT) bool {
	s := vzSnap(t)
	if s.name != d.name || !vzSameStrs(s.names, d.cols) || !vzSameStrs(s.types, d.types) || len(s.cells) != len(d.cells) {
		return false
	}
	if d.shape < 2 && s.shape != (d.shape == 1) {
		return false
	}
	for r := range d.cells {
		for c, want := range d.cells[r] {
			got := s.cells[r][c]
			switch w := want.(type) {
			case nil:
				if !vzZero(d.types[c], got) {
					return false
				}
			case *vzDocT:
				n, is := got.(*Table)
				if !is || !vzDocSame(n, w) {
					return false
				}
			case uint64:
				if vzBitsOf(got) != w {
					return false
				}
			case time.Time:
				g, is := got.(time.Time)
				if !is || !g.Equal(w) {
					return false
				}
			default:
				if !vzSame(got, want) {
					return false
				}
			}
		}
	}
	return true
}

// vzDocCheck: a decoder accepts a document exactly when it describes a table set, as which it is decoded.
func vzDocCheck(doc interface{}, js bool, set *TableSet, err error) {
	ok, name, tables := vzDocSet(doc, js)
	if ok != vzDocMaybe {
		vzAssert((err == nil) == (ok == vzDocYes), "a document is accepted exactly when it describes a table set")
	}
	if err != nil || ok == vzDocNo {
		return
	}
	vzAssert(set.Name() == name && set.TableCount() == len(tables), "an accepted document gives its name and tables")
	for i := 0; i < set.TableCount() && i < len(tables); i++ {
		t, err := set.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(vzDocSame(t, tables[i]), "an accepted document gives exactly what it says")
	}
}

// vzDocTwo: a document of up to two tables, some clashing.
func vzDocTwo(js bool) interface{} {
	var tables []interface{}
	v := vzRange("v", 255, 256)
	for i, last := 0, vzRange("tables", 0, 2)-1; i <= last; i++ {
		less := 0 // the table before the last is a plain one
		if i < last {
			less = 2
		}
		id := string(rune('0' + i))
		m := map[string]interface{}{"tableName": []string{"T", "U", "t"}[vzRange("name"+id, 0, 2*i)]}
		var meta, rows []interface{}
		var names []string
		for c, n := 0, vzRange("cols"+id, less/2, 2-less/2); c < n; c++ {
			names = append(names, []string{"a", "b", "A"}[vzRange("col"+id+vzDec(c), 0, 2*c)])
			meta = append(meta, map[string]interface{}{names[c]: []string{"uint8", "string"}[c]})
		}
		for r, n := 0, vzRange("rows"+id, 0, 2-less/2); r < n; r++ {
			row := []interface{}{}
			for c, n := 0, vzRange("cells"+id, less/2, 3-less); c < n; c++ {
				var cell interface{} = []interface{}{v, "s" + vzDec(r), nil}[c]
				if js {
					name := "x"
					if c < len(names) {
						name = names[c]
					}
					cell = map[string]interface{}{name: cell}
				}
				row = append(row, cell)
			}
			rows = append(rows, row)
		}
		if meta != nil || vzBool("meta"+id) {
			m["metadata"] = append([]interface{}{}, meta...)
		}
		if rows != nil {
			m["data"] = rows
		}
		tables = append(tables, m)
	}
	return map[string]interface{}{"tableSetName": "S", "tables": append([]interface{}{}, tables...)}
}

// vzDocJSON writes a document as JSON.
func vzDocJSON(v interface{}) string {
	switch x := v.(type) {
	case map[string]interface{}:
		out, sep := "{", ""
		for k, e := range x {
			out, sep = out+sep+"\""+k+"\":"+vzDocJSON(e), ","
		}
		return out + "}"
	case []interface{}:
		out, sep := "[", ""
		for _, e := range x {
			out, sep = out+sep+vzDocJSON(e), ","
		}
		return out + "]"
	case string:
		return "\"" + x + "\""
	case int:
		return vzDec(x)
	}
	return "null"
}
