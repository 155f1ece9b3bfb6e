package main

// Hash-consed SMT terms over Bool, bit-vectors (width 1..64) and IEEE floats (32/64).
// Every constructor folds constants with Go's own semantics, so that fully concrete
// code is executed natively and only input-dependent values reach the solver.

import (
	"fmt"
	"math"
	"math/bits"
)

type Sort int16

const (
	SBool Sort = 0
	SFP32 Sort = -32
	SFP64 Sort = -64
	// positive: bit-vector width
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OZExt
	OSExt
	OExtract // v = hi<<8|lo
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFIsInf
	OFFromBits // BV -> FP (reinterpret)
	OFFromS    // signed BV -> FP (RNE)
	OFFromU    // unsigned BV -> FP (RNE)
	OFToS      // FP -> BV64 signed truncation (only meaningful in range)
	OFToU      // FP -> BV64 unsigned truncation (only meaningful in range)
	OFToF      // FP -> FP
	OFRtz      // round to integral toward zero
	OFFloor
	OFCeil
	OFSqrt
)

type Term struct {
	op      Op
	sort    Sort
	a, b, c *Term
	v       uint64
	name    string
	id      int
	nvars   bool // contains variables
	size    int32
	fp      bool // contains floating point
}

// Origin marks a byte variable as the i-th byte of the textual form of a symbolic value
// (see numtext.go): the strconv contract "parsing what was formatted gives the value back".
type Origin struct {
	src *NumText
	idx int
}

type termKey struct {
	op      Op
	sort    Sort
	a, b, c int
	v       uint64
	name    string
}

type TermTab struct {
	tab   map[termKey]*Term
	next  int
	small [65][]*Term
	True  *Term
	False *Term
}

func NewTermTab() *TermTab {
	tt := &TermTab{tab: map[termKey]*Term{}, next: 1}
	tt.True = tt.mk(OConst, SBool, nil, nil, nil, 1, "")
	tt.False = tt.mk(OConst, SBool, nil, nil, nil, 0, "")
	for _, w := range []int{8, 16, 32, 64} {
		tt.small[w] = make([]*Term, 257)
		for i := range tt.small[w] {
			v := uint64(i)
			if w == 8 {
				v &= 255
			}
			tt.small[w][i] = tt.mk(OConst, Sort(w), nil, nil, nil, v, "")
		}
	}
	return tt
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (tt *TermTab) mk(op Op, s Sort, a, b, c *Term, v uint64, name string) *Term {
	k := termKey{op, s, tid(a), tid(b), tid(c), v, name}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, a: a, b: b, c: c, v: v, name: name, id: tt.next}
	tt.next++
	t.nvars = op == OVar
	t.size = 1
	t.fp = s < 0
	for _, x := range [...]*Term{a, b, c} {
		if x != nil {
			if x.nvars {
				t.nvars = true
			}
			t.fp = t.fp || x.fp
			if t.size < 1<<28 {
				t.size += x.size
			}
		}
	}
	tt.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w Sort) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (tt *TermTab) BV(w int, v uint64) *Term {
	v &= mask(Sort(w))
	if v <= 255 && w < 65 && tt.small[w] != nil {
		return tt.small[w][v]
	}
	return tt.mk(OConst, Sort(w), nil, nil, nil, v, "")
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TermTab) F64(f float64) *Term {
	return tt.mk(OConst, SFP64, nil, nil, nil, math.Float64bits(f), "")
}
func (tt *TermTab) F32(f float32) *Term {
	return tt.mk(OConst, SFP32, nil, nil, nil, uint64(math.Float32bits(f)), "")
}
func (tt *TermTab) FConst(s Sort, bits uint64) *Term {
	return tt.mk(OConst, s, nil, nil, nil, bits, "")
}
func (tt *TermTab) Var(s Sort, name string) *Term {
	return tt.mk(OVar, s, nil, nil, nil, 0, name)
}

func (tt *TermTab) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.v == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, SBool, a, nil, nil, 0, "")
}
func (tt *TermTab) And(a, b *Term) *Term {
	if a.isConst() {
		if a.v == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.v == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, SBool, a, b, nil, 0, "")
}
func (tt *TermTab) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.v == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.v == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tt.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, SBool, a, b, nil, 0, "")
}
func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.v == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.sort == SBool {
		if a.isConst() {
			if a.v == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.v == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	return tt.mk(OIte, a.sort, c, a, b, 0, "")
}

// Eq is SMT equality for Bool/BV (FP uses FEq).
func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.v == b.v)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.sort == SBool {
			if b.v == 1 {
				return a
			}
			return tt.Not(a)
		}
		switch a.op {
		case OZExt:
			if b.v&^mask(a.a.sort) != 0 {
				return tt.False
			}
			return tt.Eq(a.a, tt.BV(int(a.a.sort), b.v))
		case OSExt:
			if uint64(sext(b.v&mask(a.a.sort), a.a.sort))&mask(a.sort) != b.v {
				return tt.False
			}
			return tt.Eq(a.a, tt.BV(int(a.a.sort), b.v))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, tt.BV(int(a.sort), b.v-a.b.v))
			}
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.sort == b.a.sort {
		return tt.Eq(a.a, b.a)
	}
	if a.op == OSExt && b.op == OSExt && a.a.sort == b.a.sort {
		return tt.Eq(a.a, b.a)
	}
	if a.op == OAdd && b.op == OAdd && a.b == b.b {
		return tt.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tt.mk(OEq, SBool, a, b, nil, 0, "")
}

func foldBV(op Op, w Sort, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %d sort mismatch %d %d", op, a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		if v, ok := foldBV(op, w, a.v, b.v); ok {
			return tt.BV(int(w), v)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tt.Bin(OAdd, a.a, tt.BV(int(w), a.b.v+b.v))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return tt.Ite(a.a, tt.Bin(OAdd, a.b, b), tt.Bin(OAdd, a.c, b))
			}
			return tt.mk(OAdd, w, a, b, nil, 0, "")
		}
		if a.op == OAdd && a.b.isConst() {
			return tt.Bin(OAdd, tt.Bin(OAdd, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return tt.Bin(OAdd, tt.Bin(OAdd, a, b.a), b.b)
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return tt.BV(int(w), 0)
		}
		if b.isConst() {
			return tt.Bin(OAdd, a, tt.BV(int(w), -b.v))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
			if isPow2(b.v) {
				return tt.Bin(OShl, a, tt.BV(int(w), uint64(bits.TrailingZeros64(b.v))))
			}
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OUDiv:
		if b.isConst() && isPow2(b.v) {
			return tt.Bin(OLShr, a, tt.BV(int(w), uint64(bits.TrailingZeros64(b.v))))
		}
	case OURem:
		if b.isConst() && isPow2(b.v) {
			return tt.Bin(OBAnd, a, tt.BV(int(w), b.v-1))
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == mask(w) {
				return a
			}
			// low mask == zext(extract)
			if isPow2(b.v + 1) {
				n := bits.TrailingZeros64(b.v + 1)
				return tt.ZExt(tt.Extract(a, n-1, 0), int(w))
			}
		}
		if a == b {
			return a
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.v == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return tt.BV(int(w), 0)
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v >= uint64(w) {
				if op != OAShr {
					return tt.BV(int(w), 0)
				}
				b = tt.BV(int(w), uint64(w)-1)
			}
			if op == OLShr {
				return tt.ZExt(tt.Extract(a, int(w)-1, int(b.v)), int(w))
			}
		}
	}
	return tt.mk(op, w, a, b, nil, 0, "")
}

func (tt *TermTab) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.BV(int(a.sort), ^a.v)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.sort, a, nil, nil, 0, "")
}
func (tt *TermTab) Neg(a *Term) *Term {
	if a.isConst() {
		return tt.BV(int(a.sort), -a.v)
	}
	if a.op == ONeg {
		return a.a
	}
	return tt.mk(ONeg, a.sort, a, nil, nil, 0, "")
}

func (tt *TermTab) ULt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.v < b.v)
	}
	if b.isConst() {
		if b.v == 0 {
			return tt.False
		}
		if a.op == OZExt {
			if b.v > mask(a.a.sort) {
				return tt.True
			}
			return tt.ULt(a.a, tt.BV(int(a.a.sort), b.v))
		}
		if b.v == 1 {
			return tt.Eq(a, tt.BV(int(a.sort), 0))
		}
	}
	if a.isConst() && b.op == OZExt {
		if a.v > mask(b.a.sort) {
			return tt.False
		}
		return tt.ULt(tt.BV(int(b.a.sort), a.v), b.a)
	}
	if a.op == OZExt && b.op == OZExt && a.a.sort == b.a.sort {
		return tt.ULt(a.a, b.a)
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return tt.Ite(a.a, tt.ULt(a.b, b), tt.ULt(a.c, b))
	}
	return tt.mk(OULt, SBool, a, b, nil, 0, "")
}
func (tt *TermTab) ULe(a, b *Term) *Term { return tt.Not(tt.ULt(b, a)) }

func (tt *TermTab) SLt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	w := a.sort
	if a.isConst() && b.isConst() {
		return tt.Bool(sext(a.v, w) < sext(b.v, w))
	}
	if a.op == OZExt && a.a.sort < w {
		if b.isConst() {
			if sext(b.v, w) <= 0 {
				return tt.False
			}
			return tt.ULt(a, b)
		}
		if b.op == OZExt && b.a.sort < w {
			return tt.ULt(a, b)
		}
	}
	if a.isConst() && b.op == OZExt && b.a.sort < w {
		if sext(a.v, w) < 0 {
			return tt.True
		}
		return tt.ULt(a, b)
	}
	if a.op == OSExt && b.op == OSExt && a.a.sort == b.a.sort {
		return tt.SLt(a.a, b.a)
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return tt.Ite(a.a, tt.SLt(a.b, b), tt.SLt(a.c, b))
	}
	return tt.mk(OSLt, SBool, a, b, nil, 0, "")
}
func (tt *TermTab) SLe(a, b *Term) *Term { return tt.Not(tt.SLt(b, a)) }

func (tt *TermTab) ZExt(a *Term, w int) *Term {
	if int(a.sort) == w {
		return a
	}
	if a.isConst() {
		return tt.BV(w, a.v)
	}
	if a.op == OZExt {
		return tt.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return tt.Ite(a.a, tt.ZExt(a.b, w), tt.ZExt(a.c, w))
	}
	return tt.mk(OZExt, Sort(w), a, nil, nil, 0, "")
}
func (tt *TermTab) SExt(a *Term, w int) *Term {
	if int(a.sort) == w {
		return a
	}
	if a.isConst() {
		return tt.BV(w, uint64(sext(a.v, a.sort)))
	}
	if a.op == OZExt {
		return tt.ZExt(a.a, w)
	}
	if a.op == OSExt {
		return tt.SExt(a.a, w)
	}
	return tt.mk(OSExt, Sort(w), a, nil, nil, 0, "")
}
func (tt *TermTab) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == int(a.sort) {
		return a
	}
	if a.isConst() {
		return tt.BV(w, a.v>>uint(lo))
	}
	switch a.op {
	case OZExt:
		iw := int(a.a.sort)
		if lo >= iw {
			return tt.BV(w, 0)
		}
		if hi < iw {
			return tt.Extract(a.a, hi, lo)
		}
		return tt.ZExt(tt.Extract(a.a, iw-1, lo), w)
	case OSExt:
		iw := int(a.a.sort)
		if hi < iw {
			return tt.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return tt.SExt(a.a, w)
		}
	case OExtract:
		il := int(a.v & 255)
		return tt.Extract(a.a, hi+il, lo+il)
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tt.Ite(a.a, tt.Extract(a.b, hi, lo), tt.Extract(a.c, hi, lo))
		}
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		if lo == 0 {
			return tt.Bin(a.op, tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		}
	case ONeg:
		if lo == 0 {
			return tt.Neg(tt.Extract(a.a, hi, 0))
		}
	}
	return tt.mk(OExtract, Sort(w), a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

// Resize converts between integer widths as Go does.
func (tt *TermTab) Resize(a *Term, w int, signed bool) *Term {
	if int(a.sort) == w {
		return a
	}
	if w < int(a.sort) {
		return tt.Extract(a, w-1, 0)
	}
	if signed {
		return tt.SExt(a, w)
	}
	return tt.ZExt(a, w)
}

// ---- floats ----

func fval(t *Term) float64 {
	if t.sort == SFP32 {
		return float64(math.Float32frombits(uint32(t.v)))
	}
	return math.Float64frombits(t.v)
}

func foldFP(op Op, s Sort, x, y uint64) uint64 {
	if s == SFP32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		case OFNeg:
			r = -a
		case OFAbs:
			r = float32(math.Abs(float64(a)))
		case OFSqrt:
			r = float32(math.Sqrt(float64(a)))
		case OFRtz:
			r = float32(math.Trunc(float64(a)))
		case OFFloor:
			r = float32(math.Floor(float64(a)))
		case OFCeil:
			r = float32(math.Ceil(float64(a)))
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	case OFNeg:
		r = -a
	case OFAbs:
		r = math.Abs(a)
	case OFSqrt:
		r = math.Sqrt(a)
	case OFRtz:
		r = math.Trunc(a)
	case OFFloor:
		r = math.Floor(a)
	case OFCeil:
		r = math.Ceil(a)
	}
	return math.Float64bits(r)
}

func (tt *TermTab) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.FConst(a.sort, foldFP(op, a.sort, a.v, b.v))
	}
	if b.isConst() && fval(b) == 1 && (op == OFMul || op == OFDiv) { // exact
		return a
	}
	if a.isConst() && fval(a) == 1 && op == OFMul {
		return b
	}
	return tt.mk(op, a.sort, a, b, nil, 0, "")
}
func (tt *TermTab) FUn(op Op, a *Term) *Term {
	if a.isConst() {
		return tt.FConst(a.sort, foldFP(op, a.sort, a.v, 0))
	}
	return tt.mk(op, a.sort, a, nil, nil, 0, "")
}
func (tt *TermTab) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OFEq:
			return tt.Bool(x == y)
		case OFLt:
			return tt.Bool(x < y)
		case OFLe:
			return tt.Bool(x <= y)
		}
	}
	if op == OFEq && a == b {
		return tt.Not(tt.FIsNaN(a))
	}
	if na, oka := tt.narrow(a); oka {
		if nb, okb := tt.narrow(b); okb {
			return tt.FCmp(op, na, nb)
		}
	}
	if x, ok := tt.fbits(a); ok {
		if y, ok := tt.fbits(b); ok {
			return tt.bitCmp(op, x, y)
		}
	}
	return tt.mk(op, SBool, a, b, nil, 0, "")
}

// narrow: the float32 whose widening t is.
func (tt *TermTab) narrow(t *Term) (*Term, bool) {
	if t.sort != SFP64 {
		return nil, false
	}
	if t.op == OFToF && t.a.sort == SFP32 {
		return t.a, true
	}
	if t.isConst() {
		f := fval(t)
		if g := float32(f); float64(g) == f {
			return tt.F32(g), true
		}
	}
	return nil, false
}

// fbits: the bit pattern of a float that is not the result of rounding arithmetic.
func (tt *TermTab) fbits(t *Term) (*Term, bool) {
	w := 64
	if t.sort == SFP32 {
		w = 32
	}
	switch t.op {
	case OConst:
		return tt.BV(w, t.v), true
	case OFFromBits:
		return t.a, true
	case OFNeg:
		if x, ok := tt.fbits(t.a); ok {
			return tt.Bin(OBXor, x, tt.BV(w, 1<<(w-1))), true
		}
	case OFAbs:
		if x, ok := tt.fbits(t.a); ok {
			return tt.Bin(OBAnd, x, tt.BV(w, 1<<(w-1)-1)), true
		}
	case OIte:
		if x, ok := tt.fbits(t.b); ok {
			if y, ok := tt.fbits(t.c); ok {
				return tt.Ite(t.a, x, y), true
			}
		}
	}
	return nil, false
}

func (tt *TermTab) bitsNaN(x *Term) *Term {
	w := int(x.sort)
	exp := uint64(0x7f800000)
	if w == 64 {
		exp = 0x7ff0000000000000
	}
	return tt.ULt(tt.BV(w, exp), tt.Bin(OBAnd, x, tt.BV(w, 1<<(w-1)-1)))
}

// bitCmp: IEEE comparison of two bit patterns, without floating-point theory.
func (tt *TermTab) bitCmp(op Op, x, y *Term) *Term {
	w := int(x.sort)
	sg, mag := uint64(1)<<(w-1), uint64(1)<<(w-1)-1
	num := tt.And(tt.Not(tt.bitsNaN(x)), tt.Not(tt.bitsNaN(y)))
	zeros := tt.Eq(tt.Bin(OBAnd, tt.Bin(OBOr, x, y), tt.BV(w, mag)), tt.BV(w, 0))
	eq := tt.Or(tt.Eq(x, y), zeros)
	if op == OFEq {
		return tt.And(num, eq)
	}
	// monotone unsigned key: negative numbers complemented, others with the sign bit set
	key := func(v *Term) *Term {
		neg := tt.ULe(tt.BV(w, sg), v)
		return tt.Ite(neg, tt.BNot(v), tt.Bin(OBOr, v, tt.BV(w, sg)))
	}
	lt := tt.And(tt.ULt(key(x), key(y)), tt.Not(zeros))
	if op == OFLt {
		return tt.And(num, lt)
	}
	return tt.And(num, tt.Or(lt, eq))
}
func (tt *TermTab) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(math.IsNaN(fval(a)))
	}
	if n, ok := tt.narrow(a); ok {
		return tt.FIsNaN(n)
	}
	if x, ok := tt.fbits(a); ok {
		return tt.bitsNaN(x)
	}
	if a.op == OFFromS || a.op == OFFromU {
		return tt.False
	}
	return tt.mk(OFIsNaN, SBool, a, nil, nil, 0, "")
}
func (tt *TermTab) FIsInf(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(math.IsInf(fval(a), 0))
	}
	if n, ok := tt.narrow(a); ok {
		return tt.FIsInf(n)
	}
	if x, ok := tt.fbits(a); ok {
		w := int(x.sort)
		exp := uint64(0x7f800000)
		if w == 64 {
			exp = 0x7ff0000000000000
		}
		return tt.Eq(tt.Bin(OBAnd, x, tt.BV(w, 1<<(w-1)-1)), tt.BV(w, exp))
	}
	return tt.mk(OFIsInf, SBool, a, nil, nil, 0, "")
}
func (tt *TermTab) FFromBits(a *Term) *Term {
	s := SFP64
	if a.sort == 32 {
		s = SFP32
	}
	if a.isConst() {
		return tt.FConst(s, a.v)
	}
	return tt.mk(OFFromBits, s, a, nil, nil, 0, "")
}
func foldFFrom(op Op, s Sort, v uint64, w Sort) uint64 {
	if op == OFFromS {
		if s == SFP32 {
			return uint64(math.Float32bits(float32(sext(v, w))))
		}
		return math.Float64bits(float64(sext(v, w)))
	}
	if s == SFP32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(float64(v))
}
func (tt *TermTab) FFromInt(a *Term, s Sort, signed bool) *Term {
	op := OFFromU
	if signed {
		op = OFFromS
	}
	if a.isConst() {
		return tt.FConst(s, foldFFrom(op, s, a.v, a.sort))
	}
	// float(int64(d)): the truncated d, without the sign of zero, or -2^63 when out of range
	if signed && a.sort == 64 && a.op == OIte && a.b.op == OFToS && a.b.a.sort == SFP64 && a.c.isConst() && a.c.v == 1<<63 {
		r := tt.FUn(OFRtz, a.b.a)
		v := tt.Ite(tt.FCmp(OFEq, r, tt.F64(0)), tt.F64(0), r)
		return tt.FToF(tt.Ite(a.a, v, tt.F64(-9223372036854775808)), s)
	}
	return tt.mk(op, s, a, nil, nil, 0, "")
}
func (tt *TermTab) FToF(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.isConst() {
		if s == SFP32 {
			return tt.F32(float32(math.Float64frombits(a.v)))
		}
		return tt.F64(float64(math.Float32frombits(uint32(a.v))))
	}
	if s == SFP32 && a.op == OFToF { // float32(float64(f32)) == f32 (NaN payload aside)
		return a.a
	}
	return tt.mk(OFToF, s, a, nil, nil, 0, "")
}

// FToInt64 models amd64 CVTTSD2SQ: out of range / NaN gives the "integer indefinite" value.
func (tt *TermTab) FToInt64(a *Term) *Term {
	d := tt.FToF(a, SFP64)
	if d.isConst() {
		return tt.BV(64, uint64(foldF2S(math.Float64frombits(d.v))))
	}
	in := tt.And(tt.FCmp(OFLe, tt.F64(-9223372036854775808), d), tt.FCmp(OFLt, d, tt.F64(9223372036854775808)))
	raw := tt.mk(OFToS, 64, d, nil, nil, 0, "")
	return tt.Ite(in, raw, tt.BV(64, 1<<63))
}

func foldF2S(f float64) int64 {
	if f >= -9223372036854775808 && f < 9223372036854775808 {
		return int64(f)
	}
	return math.MinInt64
}

// FToUint64 models gc/amd64: x < 2^63 -> cvttsd2sq(x), else cvttsd2sq(x-2^63) ^ 1<<63.
func (tt *TermTab) FToUint64(a *Term) *Term {
	d := tt.FToF(a, SFP64)
	lt := tt.FCmp(OFLt, d, tt.F64(9223372036854775808))
	lo := tt.FToInt64(d)
	hi := tt.Bin(OBXor, tt.FToInt64(tt.FBin(OFSub, d, tt.F64(9223372036854775808))), tt.BV(64, 1<<63))
	return tt.Ite(lt, lo, hi)
}

// ---- evaluation under a model ----

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.v
	}
	if t.op == OVar {
		return e.m[t.name] & func() uint64 {
			if t.sort > 0 {
				return mask(t.sort)
			}
			if t.sort == SBool {
				return 1
			}
			return ^uint64(0)
		}()
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fb(s Sort, v uint64) float64 {
	if s == SFP32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func (e *evaluator) eval1(t *Term) uint64 {
	switch t.op {
	case ONot:
		return 1 - e.eval(t.a)
	case OAnd:
		if e.eval(t.a) == 0 {
			return 0
		}
		return e.eval(t.b)
	case OOr:
		if e.eval(t.a) == 1 {
			return 1
		}
		return e.eval(t.b)
	case OEq:
		return b2u(e.eval(t.a) == e.eval(t.b))
	case OIte:
		if e.eval(t.a) == 1 {
			return e.eval(t.b)
		}
		return e.eval(t.c)
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		v, _ := foldBV(t.op, t.sort, e.eval(t.a), e.eval(t.b))
		return v
	case OBNot:
		return ^e.eval(t.a) & mask(t.sort)
	case ONeg:
		return -e.eval(t.a) & mask(t.sort)
	case OULt:
		return b2u(e.eval(t.a) < e.eval(t.b))
	case OSLt:
		return b2u(sext(e.eval(t.a), t.a.sort) < sext(e.eval(t.b), t.a.sort))
	case OZExt:
		return e.eval(t.a)
	case OSExt:
		return uint64(sext(e.eval(t.a), t.a.sort)) & mask(t.sort)
	case OExtract:
		return (e.eval(t.a) >> uint(t.v&255)) & mask(t.sort)
	case OFAdd, OFSub, OFMul, OFDiv:
		return foldFP(t.op, t.sort, e.eval(t.a), e.eval(t.b))
	case OFNeg, OFAbs, OFSqrt, OFRtz, OFFloor, OFCeil:
		return foldFP(t.op, t.sort, e.eval(t.a), 0)
	case OFEq:
		return b2u(fb(t.a.sort, e.eval(t.a)) == fb(t.a.sort, e.eval(t.b)))
	case OFLt:
		return b2u(fb(t.a.sort, e.eval(t.a)) < fb(t.a.sort, e.eval(t.b)))
	case OFLe:
		return b2u(fb(t.a.sort, e.eval(t.a)) <= fb(t.a.sort, e.eval(t.b)))
	case OFIsNaN:
		return b2u(math.IsNaN(fb(t.a.sort, e.eval(t.a))))
	case OFIsInf:
		return b2u(math.IsInf(fb(t.a.sort, e.eval(t.a)), 0))
	case OFFromBits:
		return e.eval(t.a)
	case OFFromS, OFFromU:
		return foldFFrom(t.op, t.sort, e.eval(t.a), t.a.sort)
	case OFToS:
		return uint64(foldF2S(fb(t.a.sort, e.eval(t.a))))
	case OFToF:
		if t.sort == SFP32 {
			return uint64(math.Float32bits(float32(math.Float64frombits(e.eval(t.a)))))
		}
		return math.Float64bits(float64(math.Float32frombits(uint32(e.eval(t.a)))))
	}
	panic(fmt.Sprintf("eval: op %d", t.op))
}
