package main

// Numbers <-> text. Concrete arguments are converted natively. For symbolic arguments the documented
// contract of strconv is used: FormatInt/FormatUint(x,10) is the unique decimal text of x (its length and
// sign are decided by forking; digits are exact for up to 4 digits and otherwise constrained to be decimal
// digits with no leading zero), and parsing back a complete formatted text gives the value back.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type NumText struct {
	val   *Term // BV64 magnitude (kind d) or FP term (kind f)
	n     int   // number of bytes after the sign
	kind  byte
	fbits int
	neg   bool
}

func (I *Interp) callBody(fn *ssa.Function, args []Value) Value {
	f := I.intr[fn]
	I.intr[fn] = nil
	defer func() { I.intr[fn] = f }()
	return I.call(fn, args, nil)
}

func pow10u(n int) uint64 {
	r := uint64(1)
	for i := 0; i < n; i++ {
		r *= 10
	}
	return r
}

// fmtInt renders a 64-bit term in decimal.
func (I *Interp) fmtInt(x *Term, signed bool) Str {
	tt := I.tt
	if x.isConst() {
		if signed {
			return cs(strconv.FormatInt(int64(x.v), 10))
		}
		return cs(strconv.FormatUint(x.v, 10))
	}
	neg := false
	mag := x
	if signed && I.branch(tt.SLt(x, tt.BV(64, 0))) {
		neg = true
		mag = tt.Neg(x)
	}
	return I.withSign(neg, I.digits(mag))
}

func (I *Interp) withSign(neg bool, d []*Term) Str {
	if neg {
		return mkStr(append([]*Term{I.tt.BV(8, '-')}, d...))
	}
	return mkStr(d)
}

func (I *Interp) digits(mag *Term) []*Term {
	tt := I.tt
	key := fmt.Sprintf("dig:%d", mag.id)
	if b, ok := I.digCache(key); ok {
		return b
	}
	n := 1
	for n < 20 && !I.branch(tt.ULt(mag, tt.BV(64, pow10u(n)))) {
		n++
	}
	if n == 1 {
		d := tt.Bin(OAdd, tt.Extract(mag, 7, 0), tt.BV(8, '0'))
		// keep provenance through an own variable-free term
		b := []*Term{d}
		I.digPut(key, b, &NumText{val: mag, n: 1, kind: 'd'})
		return b
	}
	b := make([]*Term, n)
	mv := I.ev.eval(mag)
	txt := strconv.FormatUint(mv, 10)
	inPrefix := I.pos < len(I.prefix)
	for i := range b {
		b[i] = I.freshVar(8, "dig")
		if _, have := I.model[b[i].name]; !have || !inPrefix {
			c := uint64('1')
			if i < len(txt) {
				c = uint64(txt[i])
			}
			I.model[b[i].name] = c
		}
	}
	I.ev = newEval(I.model)
	for i := range b {
		lo := uint64('0')
		if i == 0 {
			lo = '1'
		}
		I.assertPC(tt.ULe(tt.BV(8, lo), b[i]))
		I.assertPC(tt.ULe(b[i], tt.BV(8, '9')))
	}
	if n <= 4 {
		sum := tt.BV(64, 0)
		for i := range b {
			sum = tt.Bin(OAdd, tt.Bin(OMul, sum, tt.BV(64, 10)), tt.ZExt(tt.Bin(OSub, b[i], tt.BV(8, '0')), 64))
		}
		I.assertPC(tt.Eq(mag, sum))
	}
	I.digPut(key, b, &NumText{val: mag, n: n, kind: 'd'})
	return b
}

// provenance tables are per path
func (I *Interp) digCache(k string) ([]*Term, bool) {
	b, ok := I.digTab[k]
	return b, ok
}
func (I *Interp) digPut(k string, b []*Term, src *NumText) {
	I.digTab[k] = b
	for i, t := range b {
		I.orgTab[t] = &Origin{src: src, idx: i}
	}
}

// provenance: does b consist of exactly the complete text of one formatted number?
func (I *Interp) whole(b []*Term) *NumText {
	if len(b) == 0 {
		return nil
	}
	o := I.orgTab[b[0]]
	if o == nil || o.idx != 0 || o.src.n != len(b) {
		return nil
	}
	for i, t := range b {
		p := I.orgTab[t]
		if p == nil || p.src != o.src || p.idx != i {
			return nil
		}
	}
	return o.src
}

func allConst(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *Term:
			if !x.isConst() {
				return false
			}
		case Str:
			if !x.concrete() {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (I *Interp) numError(fnName string, s Value, which string) Value {
	// *strconv.NumError{Func, Num, Err}
	t := I.prog.pkgs["strconv"].Type("NumError")
	g := I.prog.pkgs["strconv"].Var(which)
	var e Value = Iface{}
	if g != nil {
		e = I.load(I.global(g))
	}
	if t == nil {
		return I.errorVal(Str{opq: true})
	}
	return Iface{t: types.NewPointer(t.Type()), v: I.mkPtrToStruct(StructV{cs(fnName), s, e})}
}

func (I *Interp) isMinus(t *Term) (bool, bool) {
	if t.isConst() {
		return t.v == '-' || t.v == '+', true
	}
	return false, false
}

func addNum(m map[string]intrinsicFn) {
	base10 := func(v Value) bool { t := v.(*Term); return t.isConst() && t.v == 10 }
	m["strconv.FormatInt"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return cs(strconv.FormatInt(int64(args[0].(*Term).v), int(args[1].(*Term).v)))
		}
		if base10(args[1]) {
			return I.fmtInt(args[0].(*Term), true)
		}
		return I.callBody(fn, args)
	}
	m["strconv.FormatUint"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return cs(strconv.FormatUint(args[0].(*Term).v, int(args[1].(*Term).v)))
		}
		if base10(args[1]) {
			return I.fmtInt(args[0].(*Term), false)
		}
		return I.callBody(fn, args)
	}
	m["strconv.Itoa"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.fmtInt(args[0].(*Term), true) }
	app := func(I *Interp, dst Value, s Str) Value {
		b := I.sbytes(s)
		add := make([]Value, len(b))
		for i := range b {
			add[i] = b[i]
		}
		return I.appendVals(dst.(SliceV), add, types.Typ[types.Uint8])
	}
	m["strconv.AppendInt"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if base10(args[2]) {
			return app(I, args[0], I.fmtInt(args[1].(*Term), true))
		}
		return I.callBody(fn, args)
	}
	m["strconv.AppendUint"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if base10(args[2]) {
			return app(I, args[0], I.fmtInt(args[1].(*Term), false))
		}
		return I.callBody(fn, args)
	}
	m["strconv.ParseInt"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return I.natParse(fn, "ParseInt", args)
		}
		if r, ok := I.parseProv(args[0].(Str), args[1].(*Term), args[2].(*Term), true); ok {
			return r
		}
		return I.callBody(fn, args)
	}
	m["strconv.ParseUint"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return I.natParse(fn, "ParseUint", args)
		}
		if r, ok := I.parseProv(args[0].(Str), args[1].(*Term), args[2].(*Term), false); ok {
			return r
		}
		return I.callBody(fn, args)
	}
	m["strconv.Atoi"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		a := []Value{args[0], I.tt.BV(64, 10), I.tt.BV(64, 64)}
		if allConst(args) {
			return I.natParse(fn, "ParseInt", a)
		}
		if r, ok := I.parseProv(args[0].(Str), a[1].(*Term), a[2].(*Term), true); ok {
			return r
		}
		return I.callBody(fn, args)
	}
	m["strconv.FormatFloat"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return cs(strconv.FormatFloat(fval(args[0].(*Term)), byte(args[1].(*Term).v), int(int64(args[2].(*Term).v)), int(args[3].(*Term).v)))
		}
		return I.fmtFloat(args[0].(*Term), args[1].(*Term), args[2].(*Term), args[3].(*Term))
	}
	m["strconv.AppendFloat"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args[1:]) {
			return app(I, args[0], cs(strconv.FormatFloat(fval(args[1].(*Term)), byte(args[2].(*Term).v), int(int64(args[3].(*Term).v)), int(args[4].(*Term).v))))
		}
		return app(I, args[0], I.fmtFloat(args[1].(*Term), args[2].(*Term), args[3].(*Term), args[4].(*Term)))
	}
	m["strconv.ParseFloat"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return I.natParse(fn, "ParseFloat", args)
		}
		if r, ok := I.parseFloatProv(args[0].(Str), args[1].(*Term)); ok {
			return r
		}
		return I.callBody(fn, args)
	}
	m["strconv.IsPrint"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		r := args[0].(*Term)
		if r.isConst() {
			return I.tt.Bool(strconv.IsPrint(rune(int32(r.v))))
		}
		return I.isPrint(r)
	}
	m["strconv.Quote"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return cs(strconv.Quote(args[0].(Str).s))
		}
		return I.callBody(fn, args)
	}
	m["strconv.QuoteRune"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if allConst(args) {
			return cs(strconv.QuoteRune(rune(int32(args[0].(*Term).v))))
		}
		return I.callBody(fn, args)
	}
}

var printBounds = func() []rune {
	var b []rune
	was := false
	for r := rune(0); r <= unicode.MaxRune+1; r++ {
		is := r <= unicode.MaxRune && strconv.IsPrint(r)
		if is != was {
			b = append(b, r)
			was = is
		}
	}
	return b
}()

// isPrint decides strconv.IsPrint(r) by one formula over the boundaries of the printable ranges.
func (I *Interp) isPrint(r *Term) *Term {
	var tree func(lo, hi int) *Term // r is in [b[lo-1], b[hi])
	tree = func(lo, hi int) *Term {
		if lo == hi {
			return I.tt.Bool(lo%2 == 1)
		}
		mid := (lo + hi) / 2
		return I.tt.Ite(I.tt.ULt(r, I.tt.BV(32, uint64(printBounds[mid]))), tree(lo, mid), tree(mid+1, hi))
	}
	return tree(0, len(printBounds))
}

func (I *Interp) natParse(fn *ssa.Function, kind string, args []Value) Value {
	s := args[0].(Str)
	errv := func(err error) Value {
		if err == nil {
			return Iface{}
		}
		w := "ErrSyntax"
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			w = "ErrRange"
		}
		return I.numError(kind, s, w)
	}
	switch kind {
	case "ParseInt":
		v, err := strconv.ParseInt(s.s, int(int64(args[1].(*Term).v)), int(int64(args[2].(*Term).v)))
		return Tuple{I.tt.BV(64, uint64(v)), errv(err)}
	case "ParseUint":
		v, err := strconv.ParseUint(s.s, int(int64(args[1].(*Term).v)), int(int64(args[2].(*Term).v)))
		return Tuple{I.tt.BV(64, v), errv(err)}
	}
	v, err := strconv.ParseFloat(s.s, int(int64(args[1].(*Term).v)))
	return Tuple{I.tt.F64(v), errv(err)}
}

// parseProv recognises [sign] + complete decimal text of a symbolic magnitude.
func (I *Interp) parseProv(s Str, base, bits *Term, signed bool) (Value, bool) {
	tt := I.tt
	if !base.isConst() || !bits.isConst() || (base.v != 10 && base.v != 0) || s.opq {
		return nil, false
	}
	b := I.sbytes(s)
	neg := false
	d := b
	if len(b) > 1 && b[0].isConst() && (b[0].v == '-' || b[0].v == '+') {
		if !signed {
			return nil, false
		}
		neg = b[0].v == '-'
		d = b[1:]
	}
	nt := I.whole(d)
	if nt == nil || nt.kind != 'd' {
		return nil, false
	}
	bs := int(bits.v)
	if bs == 0 {
		bs = 64
	}
	mag := nt.val
	fnName := "ParseUint"
	if signed {
		fnName = "ParseInt"
	}
	if !signed {
		lim := tt.BV(64, ^uint64(0)>>(64-uint(bs)))
		if I.branch(tt.ULe(mag, lim)) {
			return Tuple{mag, Iface{}}, true
		}
		return Tuple{lim, I.numError(fnName, s, "ErrRange")}, true
	}
	cut := uint64(1) << uint(bs-1)
	if neg {
		if I.branch(tt.ULe(mag, tt.BV(64, cut))) {
			return Tuple{tt.Neg(mag), Iface{}}, true
		}
		return Tuple{tt.Neg(tt.BV(64, cut)), I.numError(fnName, s, "ErrRange")}, true
	}
	if I.branch(tt.ULt(mag, tt.BV(64, cut))) {
		return Tuple{mag, Iface{}}, true
	}
	return Tuple{tt.BV(64, cut-1), I.numError(fnName, s, "ErrRange")}, true
}

// fmtFloat: contract of FormatFloat(f,'f',-1,bits) for symbolic f.
func (I *Interp) fmtFloat(f, fm, prec, bits *Term) Str {
	tt := I.tt
	if !fm.isConst() || !prec.isConst() || !bits.isConst() {
		panic(pathEnd{"unsupported", "FormatFloat variant"})
	}
	if fm.v != 'f' && (fm.v != 'g' || prec.v != ^uint64(0)) {
		return I.hardFloat(f, byte(fm.v), int(int64(prec.v)), int(bits.v))
	}
	if int64(prec.v) != -1 {
		// re-formatting with a fixed precision the text of a value that was itself parsed from that text
		if s, ok := I.fixedPrec(f, int(int64(prec.v)), int(bits.v)); ok {
			return s
		}
		return I.hardFloat(f, byte(fm.v), int(int64(prec.v)), int(bits.v))
	}
	if I.branch(tt.FIsNaN(f)) {
		return cs("NaN")
	}
	if I.branch(tt.FIsInf(f)) {
		if I.branch(tt.FCmp(OFLt, tt.F64(0), f)) {
			return cs("+Inf")
		}
		return cs("-Inf")
	}
	if fm.v == 'g' { // stands for the whole text; only good for parsing again
		key := fmt.Sprintf("fltg:%d:%d", f.id, bits.v)
		if b, ok := I.digCache(key); ok {
			return mkStr(b)
		}
		I.approx["float-text"]++
		t := I.freshVar(8, "fdig")
		src := &NumText{val: f, n: 1, kind: 'f', fbits: int(bits.v)}
		I.digTab[key] = []*Term{t}
		I.orgTab[t] = &Origin{src: src, idx: 0}
		return mkStr([]*Term{t})
	}
	// some values with long texts, as many as the harness asks for
	for i, c := range hardFloats(int(bits.v)) {
		if i < I.flag("flthard", 0) && I.branch(tt.FCmp(OFEq, f, tt.F64(c))) {
			return cs(strconv.FormatFloat(c, 'f', -1, int(bits.v)))
		}
	}
	neg := I.branch(I.signOf(f))
	key := fmt.Sprintf("flt:%d:%d", f.id, bits.v)
	if b, ok := I.digCache(key); ok {
		return I.withSign(neg, b)
	}
	maxI, maxF := I.flag("fltint", 2), I.flag("fltfrac", 2)
	sh := I.newVar(8, "float.shape")
	I.assume(tt.ULt(sh, tt.BV(8, uint64(maxI*(maxF+1)))))
	k := int(I.concretize(sh))
	p, q := 1+k/(maxF+1), k%(maxF+1)
	n := p
	if q > 0 {
		n += 1 + q
	}
	b := make([]*Term, n)
	for i := range b {
		if q > 0 && i == p {
			b[i] = tt.BV(8, '.')
			continue
		}
		b[i] = I.freshVar(8, "fdig")
		if _, have := I.model[b[i].name]; !have || I.pos >= len(I.prefix) {
			I.model[b[i].name] = '1'
		}
	}
	I.ev = newEval(I.model)
	for i := range b {
		if b[i].isConst() {
			continue
		}
		lo := uint64('0')
		if i == 0 && p > 1 || i == n-1 && q > 0 {
			lo = '1'
		}
		I.assertPC(tt.ULe(tt.BV(8, lo), b[i]))
		I.assertPC(tt.ULe(b[i], tt.BV(8, '9')))
	}
	I.approx["float-text"]++
	src := &NumText{val: f, n: n, kind: 'f', fbits: int(bits.v), neg: neg}
	I.digTab[key] = b
	I.digTab[fmt.Sprintf("fixed:%d:%d", I.floatCore(f).id, bits.v)] = b
	for i, t := range b {
		if !t.isConst() {
			I.orgTab[t] = &Origin{src: src, idx: i}
		}
	}
	return I.withSign(neg, b)
}

func (I *Interp) wholeFloat(b []*Term) *NumText {
	if len(b) == 0 {
		return nil
	}
	o := I.orgTab[b[0]]
	if o == nil || o.src.kind != 'f' || o.idx != 0 || o.src.n > len(b) {
		return nil
	}
	// further zeros after the decimals do not change the number
	point := false
	for _, t := range b[:o.src.n] {
		point = point || t.isConst() && t.v == '.'
	}
	for _, t := range b[o.src.n:] {
		if !t.isConst() || t.v != '0' && (t.v != '.' || point) {
			return nil
		}
		point = true
	}
	b = b[:o.src.n]
	for i, t := range b {
		if t.isConst() && t.v == '.' {
			continue
		}
		p := I.orgTab[t]
		if p == nil || p.src != o.src || p.idx != i {
			return nil
		}
	}
	return o.src
}

func (I *Interp) parseFloatProv(s Str, bits *Term) (Value, bool) {
	tt := I.tt
	if s.opq || !bits.isConst() {
		return nil, false
	}
	b := I.sbytes(s)
	neg := false
	d := b
	if len(b) > 1 && b[0].isConst() && (b[0].v == '-' || b[0].v == '+') {
		neg = b[0].v == '-'
		d = b[1:]
	}
	if nt := I.whole(d); nt != nil && nt.kind == 'd' {
		// decimal integer text: correctly rounded conversion of the integer
		srt := SFP64
		if bits.v == 32 {
			srt = SFP32
		}
		var f *Term
		if neg {
			f = tt.FUn(OFNeg, tt.FFromInt(nt.val, srt, false))
		} else {
			f = tt.FFromInt(nt.val, srt, false)
		}
		return Tuple{tt.FToF(f, SFP64), Iface{}}, true
	}
	if nt := I.wholeFloat(d); nt != nil {
		f := nt.val
		if nt.neg != neg {
			f = tt.FUn(OFNeg, f)
		}
		if nt.fbits == int(bits.v) {
			if bits.v == 32 {
				f = tt.FToF(tt.FToF(f, SFP32), SFP64)
			}
			return Tuple{f, Iface{}}, true
		}
		// contract: text that is exact at the narrower width reads back at either as a float that rounds to it
		if bits.v == 64 {
			return Tuple{f, Iface{}}, true
		}
		n := tt.FToF(f, SFP32)
		w := tt.FToF(n, SFP64)
		if I.branch(tt.FIsInf(w)) {
			return Tuple{w, I.numError("ParseFloat", s, "ErrRange")}, true
		}
		return Tuple{w, Iface{}}, true
	}
	return nil, false
}

// hardFloats: values whose shortest text is as long as it gets, or that short forms get wrong first.
func hardFloats(bits int) (out []float64) {
	if bits == 32 {
		for _, c := range []float32{10.0067215, 1.0000001, -3.4028235e38, 16777215, 1.2345678e-20, 1000.15894, 9.765627e-4, 1e-45, -2.5} {
			out = append(out, float64(c))
		}
		return out
	}
	return []float64{0.30000000000000004, 123456.78901234567, -1.7976931348623157e308, 9007199254740991, 1.2345678901234567e-20, 1.0000000000000002, 5e-324, -2.5}
}

// hardFloat: for a form whose contract is not modelled (a fixed number of digits, say), the path is split on values that such
// forms get wrong first, each then formatted exactly; the rest of the values is reported as not covered.
func (I *Interp) hardFloat(f *Term, fm byte, prec, bits int) Str {
	tt := I.tt
	if I.branch(tt.FIsNaN(f)) {
		return cs("NaN")
	}
	for _, c := range hardFloats(bits) {
		if I.branch(tt.FCmp(OFEq, f, tt.F64(c))) {
			return cs(strconv.FormatFloat(c, fm, prec, bits))
		}
	}
	panic(pathEnd{"unsupported", "FormatFloat variant"})
}

// fixedPrec: FormatFloat(f,'f',p,bits) where f was parsed from a number text with exactly that many decimals.
func (I *Interp) fixedPrec(f *Term, p, bits int) (Str, bool) {
	if b, ok := I.digTab[fmt.Sprintf("fixed:%d:%d", I.floatCore(f).id, bits)]; ok {
		// the shortest text is exact to within 15 (6) significant digits, so more decimals are zeros
		ip, q := len(b), 0
		for i, t := range b {
			if t.isConst() && t.v == '.' {
				ip, q = i, len(b)-i-1
			}
		}
		lim := 15
		if bits == 32 {
			lim = 6
		}
		if p >= q && ip+p <= lim {
			b = append([]*Term{}, b...)
			if q == 0 && p > 0 {
				b = append(b, I.tt.BV(8, '.'))
			}
			for ; q < p; q++ {
				b = append(b, I.tt.BV(8, '0'))
			}
			return I.withSign(I.branch(I.signOf(f)), b), true
		}
		panic(pathEnd{"unsupported", "FormatFloat with fewer decimals than the shortest text"})
	}
	// integers: f = RNE(mag) with mag < 2^53 (2^24): prints mag exactly
	tt := I.tt
	g := f
	neg := false
	if g.op == OFNeg {
		neg = true
		g = g.a
	}
	if g.op == OFToF {
		g = g.a
	}
	if g.op == OFNeg {
		neg = !neg
		g = g.a
	}
	if g.op == OFFromU && p == 0 {
		lim := uint64(1) << 53
		if g.sort == SFP32 {
			lim = 1 << 24
		}
		if I.branch(tt.ULe(g.a, tt.BV(64, lim))) {
			return I.withSign(neg, I.digits(g.a)), true
		}
		// beyond the exact range the printed integer is the rounded value
		return I.withSign(neg, I.digits(I.floatToMag(g))), true
	}
	return Str{}, false
}

// floatCore: the float32 a float64 widens, or the float itself.
func (I *Interp) floatCore(f *Term) *Term {
	if n, ok := I.tt.narrow(f); ok {
		return n
	}
	return f
}

func (I *Interp) floatToMag(g *Term) *Term {
	return I.tt.FToUint64(g)
}

func (I *Interp) flag(n string, def int) int {
	if v, ok := I.flags[n]; ok {
		return v
	}
	return def
}

var _ = math.MaxInt8
