//go:build go1.21

package gotables

import (
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Reference reading of the text form, independent of the parser.

func vzIntBits(typ string) (bits uint, signed bool) {
	switch typ {
	case "byte", "uint8":
		return 8, false
	case "uint16":
		return 16, false
	case "uint32":
		return 32, false
	case "uint", "uint64":
		return 64, false
	case "int8":
		return 8, true
	case "int16":
		return 16, true
	case "int32":
		return 32, true
	}
	return 64, true
}

// vzDigits: is s a non-empty run of digits of the base, its value, and whether the value fits 64 bits.
func vzDigits(s string, base uint64) (ok bool, v uint64, fits bool) {
	ok, fits = len(s) > 0, true
	for i := 0; i < len(s); i++ {
		c := s[i]
		var d uint64
		switch {
		case '0' <= c && c <= '9':
			d = uint64(c - '0')
		case base == 16 && 'a' <= c && c <= 'f':
			d = uint64(c-'a') + 10
		case base == 16 && 'A' <= c && c <= 'F':
			d = uint64(c-'A') + 10
		default:
			return false, 0, false
		}
		if d >= base {
			return false, 0, false
		}
		lim := ^uint64(0) / base
		rem := ^uint64(0) % base
		fits = vzAnd(fits, vzOr(v < lim, vzAnd(v == lim, d <= rem)))
		v = v*base + d
	}
	return ok, v, fits
}

// vzNumber: the documented meaning of an integer literal - 0b, 0o and 0x prefixes, a leading 0 for octal, or decimal with an optional
// sign - and whether it denotes a number in the type's range. The value is the two's complement bit pattern.
func vzNumber(s string, typ string) (v uint64, ok bool) {
	bits, signed := vzIntBits(typ)
	neg := false
	base := uint64(10)
	sign := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		sign = true
		s = s[1:]
	}
	if !sign && len(s) >= 2 && s[0] == '0' {
		switch s[1] {
		case 'b', 'B':
			base, s = 2, s[2:]
		case 'o', 'O':
			base, s = 8, s[2:]
		case 'x', 'X':
			base, s = 16, s[2:]
		default:
			base = 8
		}
	}
	if neg && !signed {
		return 0, false
	}
	ok, v, fits := vzDigits(s, base)
	if !ok {
		return 0, false
	}
	max := ^uint64(0) >> (64 - bits)
	if signed {
		max = max >> 1
		if neg {
			return -v, vzAnd(fits, v <= max+1)
		}
	}
	return v, vzAnd(fits, v <= max)
}

func vzBitsOf(v interface{}) uint64 {
	switch x := v.(type) {
	case uint8:
		return uint64(x)
	case uint16:
		return uint64(x)
	case uint32:
		return uint64(x)
	case uint64:
		return x
	case uint:
		return uint64(x)
	case int8:
		return uint64(int64(x))
	case int16:
		return uint64(int64(x))
	case int32:
		return uint64(int64(x))
	case int64:
		return uint64(x)
	case int:
		return uint64(int64(x))
	}
	panic("vzBitsOf")
}

// vzToken: n printable ASCII characters other than space, the first not starting a comment.
func vzToken(name string, n int) string {
	s := vzStr(name, n)
	for i := 0; i < n; i++ {
		vzAssume(vzAnd(0x21 <= s[i], s[i] <= 0x7e))
	}
	vzAssume(n == 0 || s[0] != '#')
	return s
}


// vzReads: the text s, read back by the standard library as the column's type, is exactly the value.
func vzReads(typ, s string, v interface{}) bool {
	switch x := v.(type) {
	case string:
		return s == x
	case bool:
		if x {
			return s == "true"
		}
		return s == "false"
	case uint8:
		n, err := strconv.ParseUint(s, 10, 8)
		return err == nil && uint8(n) == x
	case uint16:
		n, err := strconv.ParseUint(s, 10, 16)
		return err == nil && uint16(n) == x
	case uint32:
		n, err := strconv.ParseUint(s, 10, 32)
		return err == nil && uint32(n) == x
	case uint64:
		n, err := strconv.ParseUint(s, 10, 64)
		return err == nil && n == x
	case uint:
		n, err := strconv.ParseUint(s, 10, 64)
		return err == nil && uint(n) == x
	case int:
		n, err := strconv.ParseInt(s, 10, 64)
		return err == nil && int(n) == x
	case int8:
		n, err := strconv.ParseInt(s, 10, 8)
		return err == nil && int8(n) == x
	case int16:
		n, err := strconv.ParseInt(s, 10, 16)
		return err == nil && int16(n) == x
	case int32:
		if typ == "rune" {
			r, n := utf8.DecodeRuneInString(s)
			return n == len(s) && r == x
		}
		n, err := strconv.ParseInt(s, 10, 32)
		return err == nil && int32(n) == x
	case int64:
		n, err := strconv.ParseInt(s, 10, 64)
		return err == nil && n == x
	case float32:
		f, err := strconv.ParseFloat(s, 32)
		return err == nil && vzSame(float32(f), x)
	case float64:
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && vzSame(f, x)
	case []byte:
		if len(s) < 2 || s[0] != '[' || s[len(s)-1] != ']' {
			return false
		}
		f := strings.Fields(s[1 : len(s)-1])
		if len(f) != len(x) {
			return false
		}
		for i := range x {
			n, err := strconv.ParseUint(f[i], 10, 8)
			if err != nil || byte(n) != x[i] {
				return false
			}
		}
		return true
	case time.Time:
		t, err := time.Parse(time.RFC3339Nano, s)
		return err == nil && t.Equal(x)
	}
	return false
}

// vzTextCell: an arbitrary cell; a rune is a Unicode scalar value (the only runes text can carry), a time one of a few clock shapes.
func vzTextCell(typ, name string, maxLen int) interface{} {
	switch typ {
	case "rune":
		r := vzRune(name)
		vzAssume(vzAnd(0 <= r, vzAnd(r <= 0x10FFFF, vzOr(r < 0xD800, r > 0xDFFF))))
		return r
	case "time.Time":
		return vzClock(name)
	}
	return vzCell(typ, name, maxLen)
}

// vzClock: one of a few days, with an arbitrary fraction of a second from a menu and a zone from a menu.
func vzClock(name string) time.Time {
	day := []time.Time{time.Unix(0, 0), time.Unix(1582934400, 0), time.Unix(-62135596800, 0), time.Unix(253402214400, 0)}[vzRange(name+".day", 0, 3)].UTC()
	ns := []int{0, 1, 999999999, 100000000, 120, 500}[vzRange(name+".ns", 0, 5)]
	day = day.Add(time.Duration(ns))
	switch vzRange(name+".zone", 0, 2) {
	case 1:
		return day.In(time.FixedZone("", 5*3600+1800))
	case 2:
		return day.In(time.FixedZone("X", -3600))
	}
	return day
}
