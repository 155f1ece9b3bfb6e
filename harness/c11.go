//go:build go1.21

package gotables

// Unpadded text form reads back as an equal table.

func vzFmt11(t *Table) string { return t.StringUnpadded() }

func vzC11_ints() {
	vzRoundCells([]string{"bool", "byte", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}, vzRange("rows", 0, 1+vzTier()), 0, vzFmt11)
}
func vzC11_ints2() { vzRoundCells([]string{"int8", "byte", "int64", "uint64"}, 2, 0, vzFmt11) }
func vzC11_strings() { vzRoundCells([]string{"string"}, 1, 2+vzTier(), vzFmt11) }
func vzC11_strings2() { vzRoundCells([]string{"string"}, 2, 1, vzFmt11) }
func vzC11_runes() { vzRoundCells([]string{"rune"}, 1, 0, vzFmt11) }
func vzC11_slices() { vzRoundCells([]string{"[]byte", "[]uint8"}, 1, 2+vzTier(), vzFmt11) }
func vzC11_times() { vzRoundCells([]string{"time.Time"}, 1, 0, vzFmt11) }
func vzC11_floats() { vzRoundFloats(vzFmt11) }
func vzC11_fixed() { vzRoundFixed(vzFmt11) }
func vzC11_wide() { vzRoundWide(vzFmt11) }
func vzC11_nested() { vzRoundNested(vzFmt11) }
func vzC11_set() { vzRoundSet(func(s *TableSet) string { return s.StringUnpadded() }) }
func vzC11_big() { vzRoundBig(vzFmt11) }
func vzC11_long() { vzRoundLong(vzFmt11) }
func vzC11_bigSet() { vzRoundBigSet(func(s *TableSet) string { return s.StringUnpadded() }) }
