//go:build go1.21

package gotables

// Rounding and command-line flag utilities.

// vzC96near: d to the nearest integer, halves up.
func vzC96near(d float64) (n int64, half bool) {
	n = int64(d) // towards zero
	f := d - float64(n)
	if f >= 0.5 {
		n++
	}
	if f < -0.5 {
		n--
	}
	return n, f == -0.5
}

// to whole numbers, any float32 value
func vzC96_whole() {
	v := float64(vzFloat32("v"))
	n := float64(vzInt8("n"))
	vzAssume(vzAnd(v >= n-0.5, v < n+0.5))
	vzAssert(UtilRound(v, 0) == n, "UtilRound gives the nearest value, halves up")
	vzReach("end")
}

// every number of places: halves, whole numbers and their neighbours, both signs; infinities
func vzC96_points() {
	places := vzRange("places", 0, 6)
	pow := []float64{1, 10, 100, 1000, 10000, 100000, 1000000}[places]
	k := []int{0, 1, 2, 3, 9, 10, 99, 12345, 1000000}[vzRange("k", 0, 8)]
	q := vzRange("quarter", 0, 3)
	d := float64(k) + float64(q)/4
	if vzRange("neg", 0, 1) == 1 {
		d = -d
		vzAssume(q != 2)
	}
	v := d / pow
	vzAssume(vzAnd(pow*v == d, true))
	n, _ := vzC96near(d)
	vzAssert(UtilRound(v, places) == float64(n)/pow, "UtilRound gives the nearest value with that many decimal places, halves up")
	inf := vzHuge() * 1e300
	vzAssert(UtilRound(inf, places) == inf && UtilRound(-inf, places) == -inf, "an infinity stays")
	vzReach("end")
}

func vzC96dash(s string) bool { return len(s) > 0 && s[0] == '-' }

func vzC96_check() {
	name := vzStr("name", vzRange("nlen", 0, 2))
	arg := vzStr("arg", vzRange("alen", 0, 3+2*vzTier()))
	required := vzRange("req", 0, 1) == 1
	exists, err := UtilCheckStringFlag(name, arg, required)
	switch {
	case arg == "":
		vzAssert(!exists && (err != nil) == required, "an absent flag: an error exactly when it is required")
	case vzC96dash(arg):
		vzAssert(err != nil, "another flag in place of the argument is an error")
	default:
		vzAssert(exists && err == nil, "an argument is accepted")
	}
	vzReach("end")
}

func vzC96_flag() {
	var sf UtilStringFlag
	vzAssert(!sf.Exists() && !sf.IsSet() && sf.Error() == nil && !sf.AllOk() && sf.String() == "", "a flag not given")
	ok, bad := false, false
	for i := 0; i < 2+vzTier(); i++ {
		s := vzStr("s", vzRange("len", 0, 2))
		vzMust(sf.Set(s), "Set")
		if vzC96dash(s) {
			bad = true
		} else {
			ok = true
		}
		vzAssert(sf.String() == s && sf.Exists(), "a flag given has the value given last")
		vzAssert(sf.IsSet() == ok, "set exactly when a value was given")
		vzAssert((sf.Error() != nil) == bad, "an error exactly when another flag came in place of a value")
		vzAssert(sf.AllOk() == (ok && !bad), "AllOk: given, set and no error")
	}
	vzAssert(UtilWordSize() == 64, "word size")
	vzReach("end")
}

func vzHuge() float64 { return []float64{1e300, 1e308}[vzRange("huge", 0, 1)] }
