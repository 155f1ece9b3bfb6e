//go:build go1.21

package gotables

// Sort: permutation of whole rows, ordered by the keys.

func vzC05one(typ string, rows, maxLen int) {
	t, err := NewTableFromMetadata("T", []string{"id", "k", "p"}, []string{"int", typ, "int8"})
	vzMust(err, "NewTableFromMetadata")
	rev := vzBool("reverse")
	keys := []interface{}{}
	pay := []int8{}
	for r := 0; r < rows; r++ {
		vzMust(t.AppendRow(), "AppendRow")
		v := vzSortCell(typ, "k", maxLen)
		keys = append(keys, v)
		p := vzInt8("p")
		pay = append(pay, p)
		vzMust(t.SetInt("id", r, r), "SetInt")
		vzMust(t.SetVal("k", r, v), "SetVal")
		vzMust(t.SetInt8("p", r, p), "SetInt8")
	}
	vzMust(t.SetSortKeys("k"), "SetSortKeys")
	if rev {
		vzMust(t.SetSortKeysReverse("k"), "SetSortKeysReverse")
	}
	vzAssert(t.Sort() == nil, "sort succeeds")
	vzAssert(t.RowCount() == rows, "sort keeps the number of rows")
	seen := make([]bool, rows)
	var prev interface{}
	for r := 0; r < rows; r++ {
		id, err := t.GetInt("id", r)
		vzMust(err, "GetInt")
		vzAssert(id >= 0 && id < rows && !seen[id], "sort output is a permutation of the rows")
		seen[id] = true
		v, err := t.GetVal("k", r)
		vzMust(err, "GetVal")
		p, err := t.GetInt8("p", r)
		vzMust(err, "GetInt8")
		vzAssert(vzSame(v, keys[id]), "key cell moves with its row")
		vzAssert(p == pay[id], "other cells move with their row")
		if r > 0 {
			if rev {
				vzAssert(!vzLess(prev, v), "descending order")
			} else {
				vzAssert(!vzLess(v, prev), "ascending order")
			}
		}
		prev = v
	}
	vzReach("sorted")
}

func vzC05_bool()    { vzC05one("bool", 3, 0) }
func vzC05_float32() { vzC05one("float32", 3, 0) }
func vzC05_float64() { vzC05one("float64", 3, 0) }
func vzC05_int()     { vzC05one("int", 4, 0) }
func vzC05_int16()   { vzC05one("int16", 3, 0) }
func vzC05_int32()   { vzC05one("int32", 3, 0) }
func vzC05_int64()   { vzC05one("int64", 3, 0) }
func vzC05_int8()    { vzC05one("int8", 3, 0) }
func vzC05_string()  { vzC05one("string", 2+vzTier(), 2) }
func vzC05_uint()    { vzC05one("uint", 3, 0) }
func vzC05_uint16()  { vzC05one("uint16", 3, 0) }
func vzC05_uint32()  { vzC05one("uint32", 3, 0) }
func vzC05_uint64()  { vzC05one("uint64", 3, 0) }
func vzC05_uint8()   { vzC05one("uint8", 3, 0) }
