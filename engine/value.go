package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value kinds: *Term, Str, Ptr, SliceV, Iface, *Closure, *MapV, StructV, ArrayV, Tuple, *Native, nil
type Value interface{}

type Str struct {
	s   string
	b   []*Term // when non-nil: the bytes (some symbolic); s unused
	opq bool    // text not modelled (diagnostics)
}

type Ptr struct {
	p    *Value
	arr  []Value // backing array from this element on, for unsafe.SliceData & friends
	base bool
}

type SliceV struct {
	e    []Value
	base bool
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(I *Interp, args []Value) Value
}

type StructV []Value
type ArrayV []Value
type Tuple []Value

type mapEntry struct {
	k, v    Value
	deleted bool
}

type MapV struct {
	ents []*mapEntry
	idx  map[string]*mapEntry // concrete keys
	nsym int                  // live entries with symbolic keys
	n    int
	base bool
}

type Native struct {
	kind string
	v    interface{}
}

type mapIter struct {
	m   *MapV
	i   int
	ord []*mapEntry
	str Str
	isS bool
}

// ---- path-terminating panics ----

type goPanic struct {
	v     Value
	where string
	rt    bool
}

type pathEnd struct {
	kind string // assume, unsupported, budget, unknown, stop
	msg  string
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func floatSort(t types.Type) (Sort, bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return SFP32, true
	case types.Float64, types.UntypedFloat:
		return SFP64, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (I *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return I.tt.BV(w, 0)
		}
		if s, ok := floatSort(t); ok {
			return I.tt.FConst(s, 0)
		}
		if isBool(t) {
			return I.tt.False
		}
		if isString(t) {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		return &Native{kind: "basic:" + u.Name()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Struct:
		sv := make(StructV, u.NumFields())
		for i := range sv {
			sv[i] = I.zero(u.Field(i).Type())
		}
		return sv
	case *types.Array:
		n := int(u.Len())
		av := make(ArrayV, n)
		if n > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range av {
					av[i] = I.zero(u.Elem())
				}
			default:
				z := I.zero(u.Elem())
				for i := range av {
					av[i] = z
				}
			}
		}
		return av
	case *types.Chan:
		return &Native{kind: "nilchan"}
	case *types.Tuple:
		tv := make(Tuple, u.Len())
		for i := range tv {
			tv[i] = I.zero(u.At(i).Type())
		}
		return tv
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("zero value of %v", t)})
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case StructV:
		n := make(StructV, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case ArrayV:
		n := make(ArrayV, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// ---- strings ----

func cs(s string) Str { return Str{s: s} }

func (s Str) concrete() bool { return s.b == nil && !s.opq }

func (I *Interp) slen(s Str) int {
	if s.opq {
		panic(pathEnd{"unsupported", "inspection of unmodelled (diagnostic) text"})
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (I *Interp) sbytes(s Str) []*Term {
	if s.opq {
		panic(pathEnd{"unsupported", "inspection of unmodelled (diagnostic) text"})
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = I.tt.small[8][s.s[i]]
	}
	return r
}

func (I *Interp) sat(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return I.tt.small[8][s.s[i]]
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, t := range b {
		sb.WriteByte(byte(t.v))
	}
	return Str{s: sb.String()}
}

func (I *Interp) sslice(s Str, lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (I *Interp) sconcat(a, b Str) Str {
	if a.opq || b.opq {
		return Str{opq: true}
	}
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	x, y := I.sbytes(a), I.sbytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

func (I *Interp) seq(a, b Str) *Term {
	if a.concrete() && b.concrete() {
		return I.tt.Bool(a.s == b.s)
	}
	if I.slen(a) != I.slen(b) {
		return I.tt.False
	}
	x, y := I.sbytes(a), I.sbytes(b)
	r := I.tt.True
	for i := range x {
		r = I.tt.And(r, I.tt.Eq(x[i], y[i]))
		if r == I.tt.False {
			return r
		}
	}
	return r
}

func (I *Interp) slt(a, b Str) *Term {
	if a.concrete() && b.concrete() {
		return I.tt.Bool(a.s < b.s)
	}
	x, y := I.sbytes(a), I.sbytes(b)
	n := min(len(x), len(y))
	r := I.tt.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = I.tt.Or(I.tt.ULt(x[i], y[i]), I.tt.And(I.tt.Eq(x[i], y[i]), r))
	}
	return r
}

func (I *Interp) bytesOf(v Value) []*Term {
	sl := v.(SliceV)
	r := make([]*Term, len(sl.e))
	for i, e := range sl.e {
		r[i] = e.(*Term)
	}
	return r
}

func (I *Interp) bytesToSlice(b []*Term) SliceV {
	e := make([]Value, len(b))
	for i, t := range b {
		e[i] = t
	}
	return SliceV{e: e}
}

// ---- equality ----

func (I *Interp) eqVal(a, b Value) *Term {
	tt := I.tt
	switch x := a.(type) {
	case nil:
		return tt.Bool(b == nil)
	case *Term:
		y := b.(*Term)
		if x.sort == SFP32 || x.sort == SFP64 {
			return tt.FCmp(OFEq, x, y)
		}
		return tt.Eq(x, y)
	case Str:
		return I.seq(x, b.(Str))
	case Ptr:
		return tt.Bool(x.p == b.(Ptr).p)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return tt.False
		}
		if x.t == nil || y.t == nil {
			return tt.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tt.False
		}
		if !types.Comparable(x.t) {
			panic(I.rtPanic("comparing uncomparable type " + x.t.String()))
		}
		return I.eqVal(x.v, y.v)
	case StructV:
		y := b.(StructV)
		r := tt.True
		for i := range x {
			r = tt.And(r, I.eqVal(x[i], y[i]))
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		r := tt.True
		for i := range x {
			r = tt.And(r, I.eqVal(x[i], y[i]))
		}
		return r
	case *Closure:
		y, _ := b.(*Closure)
		return tt.Bool(x == y)
	case *MapV:
		y, _ := b.(*MapV)
		return tt.Bool(x == y)
	case SliceV:
		y, _ := b.(SliceV)
		return tt.Bool(x.e == nil && y.e == nil)
	case *Native:
		y, _ := b.(*Native)
		if y == nil {
			return tt.False
		}
		if x.kind == "rtype" && y.kind == "rtype" {
			return tt.Bool(types.Identical(x.v.(types.Type), y.v.(types.Type)))
		}
		return tt.Bool(x == y)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("equality on %T", a)})
}

// concKey gives a canonical string for fully concrete keys.
func concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() && x.sort >= 0 {
			return fmt.Sprintf("i%d:%d", x.sort, x.v), true
		}
		return "", false
	case Str:
		if x.concrete() {
			return "s" + x.s, true
		}
		return "", false
	case Ptr:
		return fmt.Sprintf("p%p", x.p), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := concKey(x.v)
		return x.t.String() + "|" + k, ok
	case StructV:
		r := "{"
		for _, f := range x {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return r, true
	case ArrayV:
		return concKey(StructV(x))
	case *Native:
		if x.kind == "rtype" {
			return "T" + x.v.(types.Type).String(), true
		}
		return fmt.Sprintf("n%p", x), true
	}
	return "", false
}

func (I *Interp) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	key, conc := concKey(k)
	if conc {
		if e := m.idx[key]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, c2 := concKey(e.k); c2 {
				continue
			}
		}
		c := I.eqVal(k, e.k)
		if I.branch(c) {
			return e
		}
	}
	return nil
}

func (I *Interp) mapSet(m *MapV, k, v Value) {
	if e := I.mapFind(m, k); e != nil {
		if m.base {
			old := e.v
			I.undo = append(I.undo, func() { e.v = old })
		}
		e.v = v
		return
	}
	I.mapTouch(m)
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if key, conc := concKey(k); conc {
		m.idx[key] = e
	} else {
		m.nsym++
	}
}

func (I *Interp) mapTouch(m *MapV) {
	if !m.base || I.initMode {
		return
	}
	ents := append([]*mapEntry(nil), m.ents...)
	del := make([]bool, len(ents))
	for i, e := range ents {
		del[i] = e.deleted
	}
	idx := map[string]*mapEntry{}
	for k, v := range m.idx {
		idx[k] = v
	}
	n, ns := m.n, m.nsym
	I.undo = append(I.undo, func() {
		m.ents, m.idx, m.n, m.nsym = ents, idx, n, ns
		for i, e := range ents {
			e.deleted = del[i]
		}
	})
}

func (I *Interp) mapDelete(m *MapV, k Value) {
	e := I.mapFind(m, k)
	if e == nil {
		return
	}
	I.mapTouch(m)
	e.deleted = true
	m.n--
	if key, conc := concKey(e.k); conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	ents := make([]*mapEntry, 0, len(m.ents))
	for _, x := range m.ents {
		if !x.deleted {
			ents = append(ents, x)
		}
	}
	m.ents = ents
}
