//go:build go1.21

package gotables

// Padded text form reads back as an equal table.

func vzFmt10(t *Table) string {
	if vzBool("string") {
		return t.String()
	}
	return t.StringPadded()
}

func vzC10_ints() {
	vzRoundCells([]string{"bool", "byte", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}, vzRange("rows", 0, 1+vzTier()), 0, vzFmt10)
}
func vzC10_ints2() { vzRoundCells([]string{"int8", "byte", "int64", "uint64"}, 2, 0, vzFmt10p) }
func vzC10_strings() { vzRoundCells([]string{"string"}, 1, 2+vzTier(), vzFmt10p) }
func vzC10_strings2() { vzRoundCells([]string{"string"}, 2, 1, vzFmt10p) }
func vzC10_runes() { vzRoundCells([]string{"rune"}, 1, 0, vzFmt10p) }
func vzC10_slices() { vzRoundCells([]string{"[]byte", "[]uint8"}, 1, 2+vzTier(), vzFmt10) }
func vzC10_times() { vzRoundCells([]string{"time.Time"}, 1, 0, vzFmt10) }
func vzC10_floats() { vzRoundFloats(vzFmt10) }
func vzC10_fixed() { vzRoundFixed(vzFmt10) }
func vzC10_wide() { vzRoundWide(vzFmt10) }
func vzC10_nested() { vzRoundNested(vzFmt10) }
func vzC10_set() {
	vzRoundSet(func(s *TableSet) string {
		if vzBool("string") {
			return s.String()
		}
		return s.StringPadded()
	})
}

func vzFmt10p(t *Table) string { return t.StringPadded() }
func vzC10_big() { vzRoundBig(vzFmt10p) }
func vzC10_long() { vzRoundLong(vzFmt10p) }
func vzC10_bigSet() { vzRoundBigSet(func(s *TableSet) string { return s.StringPadded() }) }
