//go:build go1.21

package gotables

// Numeric literals are accepted exactly when representable.

var vzIntTypes = []string{"byte", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}

// vzParse1 reads one cell of type typ from its text, in tabular or struct form.
func vzParse1(typ, lit string, strct bool) (*Table, error) {
	text := "[T]\na\n" + typ + "\n" + lit + "\n"
	if strct {
		text = "[T]\na " + typ + " = " + lit + "\n"
	}
	set, err := NewTableSetFromString(text)
	if err != nil {
		return nil, err
	}
	t, err := set.GetTable("T")
	vzMust(err, "the parsed table is found")
	vzAssert(set.TableCount() == 1 && t.ColCount() == 1 && t.RowCount() == 1, "the parsed table has exactly the column and row of the text")
	vzAssume(t.RowCount() == 1 && t.ColCount() == 1)
	ty, err := t.ColType("a")
	vzAssert(err == nil && ty == typ, "the parsed column has the type of the text")
	return t, nil
}

func vzC16num(typ, lit string, strct bool) {
	want, ok := vzNumber(lit, typ)
	t, err := vzParse1(typ, lit, strct)
	vzAssert((err == nil) == ok, "an integer literal is accepted exactly when it denotes a number in the range of the column's type")
	if err == nil {
		v, err := t.GetVal("a", 0)
		vzMust(err, "GetVal")
		vzAssert(vzTypeOK(typ, v), "the cell has the column's type")
		vzAssert(vzBitsOf(v) == want, "the cell holds exactly the number of the literal")
		vzReach("accepted")
	} else {
		vzReach("refused")
	}
}

// vzC16_short: every short token as a cell of every integer type.
func vzC16_short() {
	typ := vzIntTypes[vzRange("type", 0, len(vzIntTypes)-1)]
	vzC16num(typ, vzToken("s", vzRange("len", 1, 3+vzTier())), false)
}

// vzC16_struct: as above, in struct form.
func vzC16_struct() {
	typ := vzIntTypes[vzRange("type", 0, len(vzIntTypes)-1)]
	vzC16num(typ, vzToken("s", vzRange("len", 1, 2+vzTier())), true)
}

// vzC16_decimal: an optional sign and any decimal digits (no leading zero), up to one digit more than the type's longest number.
func vzC16_decimal() {
	typ := vzIntTypes[vzRange("type", 0, len(vzIntTypes)-1)]
	bits, _ := vzIntBits(typ)
	n, lead := 0, ""
	switch bits { // the last digits are arbitrary; for 32 and 64 bits the leading ones come from a menu around the limits
	case 64:
		lead = []string{"", "9", "922337203685477", "1844674407370955", "9999999999999999"}[vzRange("lead", 0, 4)]
		n = vzRange("len", 4, 4+vzTier())
	case 32:
		lead = []string{"", "9", "21474", "42949", "999999"}[vzRange("lead", 0, 4)]
		n = vzRange("len", 4, 5+vzTier())
	case 16:
		n = vzRange("len", 3, 6)
	default:
		n = vzRange("len", 1, 4)
	}
	d := vzStr("d", n)
	for i := 0; i < len(d); i++ {
		vzAssume(vzAnd('0' <= d[i], d[i] <= '9'))
	}
	d = lead + d
	vzAssume(n == 1 || d[0] != '0')
	vzC16num(typ, []string{"", "-", "+"}[vzRange("sign", 0, 2)]+d, vzBool("struct"))
}

// vzC16_octal: any octal digits after a leading zero or 0o.
func vzC16_octal() {
	typ := vzIntTypes[vzRange("type", 0, len(vzIntTypes)-1)]
	bits, _ := vzIntBits(typ)
	most := int(bits+2) / 3
	n := vzRange("len", most-1, most+1)
	d := vzStr("d", n)
	for i := 0; i < len(d); i++ {
		vzAssume(vzAnd('0' <= d[i], d[i] <= '7'))
	}
	vzC16num(typ, []string{"0", "0o", "0O"}[vzRange("prefix", 0, 2)]+d, false)
}

// vzC16_hex: any hexadecimal digits after 0x.
func vzC16_hex() {
	typ := vzIntTypes[vzRange("type", 0, len(vzIntTypes)-1)]
	bits, _ := vzIntBits(typ)
	most := int(bits) / 4
	n := vzRange("len", most, most+1)
	b := make([]byte, n)
	for i := range b {
		x := vzUint8("d")
		vzAssume(x < 16)
		b[i] = "0123456789abcdef"[x]
		if i > 2 {
			vzAssume(vzAnd(x >= 7, x <= 9)) // digits only, to keep the cases few
		}
	}
	vzC16num(typ, []string{"0x", "0X"}[vzRange("prefix", 0, 1)]+string(b), false)
}

// vzC16_binary: any binary digits after 0b, one more or fewer than the type's bits (8 and 16 bits).
func vzC16_binary() {
	typ := []string{"byte", "int8", "uint8", "int16", "uint16"}[vzRange("type", 0, 4)]
	bits, _ := vzIntBits(typ)
	n := vzRange("len", int(bits)-1, int(bits)+1)
	d := vzStr("d", n)
	for i := 0; i < len(d); i++ {
		vzAssume(vzOr('0' == d[i], d[i] == '1'))
	}
	vzC16num(typ, []string{"0b", "0B"}[vzRange("prefix", 0, 1)]+d, false)
}

// vzC16_slices: byte slices of up to two elements, each any short token without brackets.
func vzC16_slices() {
	typ := []string{"[]byte", "[]uint8"}[vzRange("type", 0, 1)]
	n := vzRange("elems", 0, 2)
	lit, ok := "[", true
	var want []byte
	for i := 0; i < n; i++ {
		var e string
		if vzBool("long") {
			e = vzStr("d", 3)
			for k := 0; k < len(e); k++ {
				vzAssume(vzAnd('0' <= e[k], e[k] <= '9'))
			}
		} else {
			e = vzToken("e", vzRange("len", 1, 2))
			for k := 0; k < len(e); k++ {
				vzAssume(e[k] != '[' && e[k] != ']')
			}
		}
		if i > 0 {
			lit += " "
		}
		lit += e
		v, good := vzNumber(e, "byte")
		ok = vzAnd(ok, good)
		want = append(want, byte(v))
	}
	lit += "]"
	t, err := vzParse1(typ, lit, false)
	vzAssert((err == nil) == ok, "a byte slice is accepted exactly when every element is a number from 0 to 255")
	if err == nil {
		v, err := t.GetVal("a", 0)
		vzMust(err, "GetVal")
		vzAssert(vzSame(v, want), "the slice holds exactly the numbers of the literal")
		vzReach("accepted")
	} else {
		vzReach("refused")
	}
}

// vzC16_bools: every token near true and false.
func vzC16_bools() {
	s := ""
	if vzBool("near") {
		s = []string{"true", "false"}[vzRange("word", 0, 1)]
		p := vzRange("pos", 0, len(s))
		x := vzToken("x", 1)
		switch vzRange("change", 0, 3) {
		case 0:
			vzAssume(p < len(s))
			s = s[:p] + x + s[p+1:]
		case 1:
			vzAssume(p < len(s))
			s = s[:p] + s[p+1:]
		case 2:
			s = s[:p] + x + s[p:]
		case 3:
			vzAssume(p == 0)
		}
		vzAssume(s[0] != '#')
	} else {
		s = vzToken("s", vzRange("len", 1, 2+vzTier()))
	}
	t, err := vzParse1("bool", s, false)
	vzAssert((err == nil) == (s == "true" || s == "false"), "a bool is accepted exactly when it is true or false")
	if err == nil {
		v, err := t.GetBool("a", 0)
		vzAssert(err == nil && v == (s == "true"), "the cell holds the bool of the literal")
		vzReach("accepted")
	} else {
		vzReach("refused")
	}
}

func vzHex(name string, n int) (string, uint64) {
	b := make([]byte, n)
	v := uint64(0)
	for i := range b {
		x := vzUint8(name)
		vzAssume(x < 16)
		b[i] = vzHexTab[x]
		v = v<<4 | uint64(x)
	}
	return string(b), v
}

var vzHexTab = [16]byte{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f'}

// vzC16_runes: every way of writing a rune literal reads as exactly that rune; surrogates and codes beyond Unicode are refused.
func vzC16_runes() {
	lit, want, ok := "", rune(0), true
	switch vzRange("form", 0, 5) {
	case 0: // the character itself
		r := vzRune("r")
		vzAssume(vzAnd(0x20 <= r, vzAnd(r <= 0x10FFFF, vzOr(r < 0xD800, r > 0xDFFF))))
		vzAssume(vzAnd(r != '\'', r != '\\'))
		lit, want = string(r), r
	case 1: // a simple escape
		k := vzRange("esc", 0, 8)
		lit = "\\" + string("abfnrtv\\'"[k])
		want = []rune{7, 8, 12, 10, 13, 9, 11, '\\', '\''}[k]
	case 2:
		h, v := vzHex("h", 2)
		lit, want = "\\x"+h, rune(v)
	case 3:
		h, v := vzHex("h", 4)
		lit, want = "\\u"+h, rune(v)
		ok = vzOr(v < 0xD800, v > 0xDFFF)
	case 4:
		h, v := vzHex("h", 6)
		lit, want = "\\U00"+h, rune(v)
		ok = vzAnd(vzOr(v < 0xD800, v > 0xDFFF), v <= 0x10FFFF)
	case 5: // octal
		d := vzStr("d", 3)
		v := 0
		for i := 0; i < len(d); i++ {
			vzAssume(vzAnd('0' <= d[i], d[i] <= '7'))
			v = v*8 + int(d[i]-'0')
		}
		lit, want = "\\"+d, rune(v)
		ok = v < 256
	}
	t, err := vzParse1("rune", "'"+lit+"'", vzBool("struct"))
	vzAssert((err == nil) == ok, "a rune literal is accepted exactly when it denotes a Unicode character")
	if err == nil {
		v, err := t.GetRune("a", 0)
		vzAssert(err == nil && v == want, "the cell holds exactly the rune of the literal")
		vzReach("accepted")
	} else {
		vzReach("refused")
	}
}

// vzC16_notRunes: two characters, or none, are no rune.
func vzC16_notRunes() {
	n := vzRange("len", 0, 3)
	s := vzStr("s", n)
	esc := false
	for i := 0; i < len(s); i++ {
		vzAssume(vzAnd(0x20 <= s[i], s[i] <= 0x7e))
		vzAssume(s[i] != '\'')
		esc = vzOr(esc, s[i] == '\\')
	}
	vzAssume(!esc)
	t, err := vzParse1("rune", "'"+s+"'", false)
	vzAssert((err == nil) == (n == 1), "a rune is exactly one character")
	if err == nil {
		v, err := t.GetRune("a", 0)
		vzAssert(err == nil && v == rune(s[0]), "the cell holds exactly the rune of the literal")
	}
	vzReach("end")
}
