package main

// Model of package fmt's formatting for the verbs and operand types that occur in data paths.
// Anything outside becomes opaque text: it may flow, but inspecting it ends the path as "unsupported".

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func varargs(v Value) []Iface {
	sl := v.(SliceV)
	r := make([]Iface, len(sl.e))
	for i, e := range sl.e {
		r[i], _ = e.(Iface)
	}
	return r
}

func (I *Interp) toConcrete(x Iface) (interface{}, bool) {
	if x.t == nil {
		return nil, true
	}
	if _, named := types.Unalias(x.t).(*types.Named); named {
		return nil, false
	}
	b, ok := x.t.Underlying().(*types.Basic)
	if !ok {
		if sl, ok := x.t.Underlying().(*types.Slice); ok {
			if w, _, ok := intInfo(sl.Elem()); ok && w == 8 {
				var r []byte
				for _, t := range I.bytesOf(x.v) {
					if !t.isConst() {
						return nil, false
					}
					r = append(r, byte(t.v))
				}
				return r, true
			}
		}
		return nil, false
	}
	switch v := x.v.(type) {
	case Str:
		if v.concrete() {
			return v.s, true
		}
	case *Term:
		if !v.isConst() {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return v.v == 1, true
		case types.Int:
			return int(v.v), true
		case types.Int8:
			return int8(v.v), true
		case types.Int16:
			return int16(v.v), true
		case types.Int32:
			return int32(v.v), true
		case types.Int64:
			return int64(v.v), true
		case types.Uint:
			return uint(v.v), true
		case types.Uint8:
			return uint8(v.v), true
		case types.Uint16:
			return uint16(v.v), true
		case types.Uint32:
			return uint32(v.v), true
		case types.Uint64:
			return uint64(v.v), true
		case types.Float32:
			return float32(fval(v)), true
		case types.Float64:
			return fval(v), true
		}
	}
	return nil, false
}

func (I *Interp) isError(x Iface) bool {
	if x.t == nil {
		return false
	}
	return types.Implements(x.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

func (I *Interp) formatOne(spec string, verb byte, x Iface) Str {
	if c, ok := I.toConcrete(x); ok {
		return cs(fmt.Sprintf(spec, c))
	}
	if verb == 'T' {
		return cs(rtypeString(x.t))
	}
	opq := Str{opq: true}
	if x.t == nil {
		return opq
	}
	plain := len(spec) == 2
	if verb == 'v' || verb == 's' {
		if I.isError(x) {
			if x.t.String() == "*errors.errorString" {
				if p, ok := x.v.(Ptr); ok && p.p != nil {
					return (*p.p).(StructV)[0].(Str)
				}
			}
			return opq
		}
		if st := I.prog.methodByName(x.t, "String"); st != nil && plain && st.Signature.Params().Len() == 0 {
			if p, ok := x.v.(Ptr); ok && p.p == nil {
				return cs("<nil>")
			}
			if s, ok := I.call(st, []Value{x.v}, nil).(Str); ok {
				return s
			}
			return opq
		}
	}
	if w, signed, ok := intInfo(x.t); ok {
		t := x.v.(*Term)
		_ = w
		switch verb {
		case 'd', 'v':
			return I.padSpec(spec, I.fmtInt(I.tt.Resize(t, 64, signed), signed))
		case 'x', 'X':
			if s, ok := I.hexSpec(spec, verb, t, w, signed); ok {
				return s
			}
		case 'c':
			return I.padSpec(spec, I.runeToStr(I.tt.Resize(t, 64, signed)))
		case 'q':
			if plain {
				return I.callStd("strconv", "QuoteRune", []Value{I.tt.Resize(t, 32, signed)}).(Str)
			}
		}
		return opq
	}
	if isString(x.t) {
		s := x.v.(Str)
		switch verb {
		case 's', 'v':
			return I.padSpec(spec, s)
		case 'q':
			if s.opq {
				return opq
			}
			return I.padSpec(spec, I.callStd("strconv", "Quote", []Value{s}).(Str))
		}
		return opq
	}
	if isBool(x.t) {
		if (verb == 't' || verb == 'v') && plain {
			if I.branch(x.v.(*Term)) {
				return cs("true")
			}
			return cs("false")
		}
		return opq
	}
	if _, ok := floatSort(x.t); ok {
		if verb == 'v' && plain || verb == 'g' && plain {
			return opq // %g of a symbolic float is not modelled
		}
		return opq
	}
	if sl, ok := x.t.Underlying().(*types.Slice); ok && (verb == 'v' || verb == 'd') && plain {
		if _, signed, ok := intInfo(sl.Elem()); ok {
			out := cs("[")
			for i, e := range x.v.(SliceV).e {
				if i > 0 {
					out = I.sconcat(out, cs(" "))
				}
				out = I.sconcat(out, I.fmtInt(I.tt.Resize(e.(*Term), 64, signed), signed))
			}
			return I.sconcat(out, cs("]"))
		}
		if isString(sl.Elem()) && verb == 'v' {
			out := cs("[")
			for i, e := range x.v.(SliceV).e {
				if i > 0 {
					out = I.sconcat(out, cs(" "))
				}
				out = I.sconcat(out, e.(Str))
			}
			return I.sconcat(out, cs("]"))
		}
	}
	if sl, ok := x.t.Underlying().(*types.Slice); ok && verb == 's' {
		if w, _, ok := intInfo(sl.Elem()); ok && w == 8 {
			return I.padSpec(spec, mkStr(I.bytesOf(x.v)))
		}
	}
	return opq
}

// padSpec applies width/minus/zero flags of spec to already formatted text.
// hexSpec: %x and %0Nx of an unsigned integer, forking on the number of digits where it shows.
func (I *Interp) hexSpec(spec string, verb byte, t *Term, w int, signed bool) (Str, bool) {
	if signed {
		return Str{}, false
	}
	body := spec[1 : len(spec)-1]
	n := 0
	for i := 0; i < len(body); i++ {
		if i == 0 && body[i] != '0' || body[i] < '0' || body[i] > '9' {
			return Str{}, false
		}
		n = n*10 + int(body[i]-'0')
	}
	tt := I.tt
	full := w / 4
	digs := full
	for digs > 1 && digs > n && I.branch(tt.ULt(t, tt.BV(w, uint64(1)<<uint(4*(digs-1))))) {
		digs--
	}
	a := uint64('a')
	if verb == 'X' {
		a = 'A'
	}
	var b []*Term
	for i := digs; i < n; i++ {
		b = append(b, tt.BV(8, '0'))
	}
	for i := digs - 1; i >= 0; i-- {
		d := tt.ZExt(tt.Extract(t, 4*i+3, 4*i), 8)
		b = append(b, tt.Ite(tt.ULt(d, tt.BV(8, 10)), tt.Bin(OAdd, d, tt.BV(8, '0')), tt.Bin(OAdd, d, tt.BV(8, a-10))))
	}
	return mkStr(b), true
}

func (I *Interp) padSpec(spec string, s Str) Str {
	body := spec[1 : len(spec)-1]
	if body == "" || s.opq {
		return s
	}
	minus, zero := false, false
	i := 0
	for i < len(body) && strings.IndexByte("-0+ #", body[i]) >= 0 {
		switch body[i] {
		case '-':
			minus = true
		case '0':
			zero = true
		default:
			return Str{opq: true}
		}
		i++
	}
	w := 0
	for i < len(body) && body[i] >= '0' && body[i] <= '9' {
		w = w*10 + int(body[i]-'0')
		i++
	}
	if i < len(body) || zero {
		return Str{opq: true}
	}
	n := I.cInt(I.callStd("unicode/utf8", "RuneCountInString", []Value{s}).(*Term))
	if n >= w {
		return s
	}
	pad := cs(strings.Repeat(" ", w-n))
	if minus {
		return I.sconcat(s, pad)
	}
	return I.sconcat(pad, s)
}

func (I *Interp) sprintf(f Str, args []Iface) Str {
	if !f.concrete() {
		return Str{opq: true}
	}
	s := f.s
	var parts []Str
	ai := 0
	for len(s) > 0 {
		k := strings.IndexByte(s, '%')
		if k < 0 {
			parts = append(parts, cs(s))
			break
		}
		if k > 0 {
			parts = append(parts, cs(s[:k]))
		}
		s = s[k:]
		j := 1
		spec := "%"
		bad := false
		for j < len(s) && strings.IndexByte("-+# 0123456789.*[]", s[j]) >= 0 {
			if s[j] == '[' || s[j] == ']' {
				bad = true
			}
			if s[j] == '*' {
				if ai >= len(args) {
					bad = true
				} else {
					t, ok := args[ai].v.(*Term)
					ai++
					if !ok {
						bad = true
					} else {
						spec += fmt.Sprint(int64(sext(I.concretize(t), t.sort)))
					}
				}
			} else {
				spec += string(s[j])
			}
			j++
		}
		if bad || j >= len(s) {
			return Str{opq: true}
		}
		verb := s[j]
		spec += string(verb)
		s = s[j+1:]
		if verb == '%' {
			parts = append(parts, cs("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, cs("%!"+string(verb)+"(MISSING)"))
			continue
		}
		parts = append(parts, I.formatOne(spec, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		return Str{opq: true}
	}
	out := Str{}
	for _, p := range parts {
		out = I.sconcat(out, p)
	}
	return out
}

func (I *Interp) sprint(args []Iface, ln bool) Str {
	out := Str{}
	for i, a := range args {
		if i > 0 {
			if ln {
				out = I.sconcat(out, cs(" "))
			} else if !(a.t != nil && isString(a.t)) && !(args[i-1].t != nil && isString(args[i-1].t)) {
				out = I.sconcat(out, cs(" "))
			}
		}
		out = I.sconcat(out, I.formatOne("%v", 'v', a))
	}
	if ln {
		out = I.sconcat(out, cs("\n"))
	}
	return out
}

func (I *Interp) writeTo(w Value, s Str) Value {
	x, ok := w.(Iface)
	n := I.tt.BV(64, 0)
	if !ok || x.t == nil {
		panic(I.rtPanic("nil writer"))
	}
	if p, ok := x.v.(Ptr); ok && p.p != nil {
		if nat, ok := (*p.p).(*Native); ok && nat.kind == "file" {
			return Tuple{n, Iface{}}
		}
	}
	ws := I.prog.methodByName(x.t, "WriteString")
	if s.opq {
		if ws == nil {
			panic(pathEnd{"unsupported", "opaque text written to a buffer"})
		}
		panic(pathEnd{"unsupported", "opaque text written to a buffer"})
	}
	wr := I.prog.methodByName(x.t, "Write")
	r := I.call(wr, []Value{x.v, I.bytesToSlice(I.sbytes(s))}, nil)
	return r
}

func addFmt(m map[string]intrinsicFn) {
	m["fmt.Sprintf"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.sprintf(args[0].(Str), varargs(args[1]))
	}
	m["fmt.Sprint"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.sprint(varargs(args[0]), false) }
	m["fmt.Sprintln"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.sprint(varargs(args[0]), true) }
	m["fmt.Errorf"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		f := args[0].(Str)
		if f.concrete() && strings.Count(f.s, "%w") == 1 {
			// *fmt.wrapError{msg, err}: keep the wrapped error reachable
			for _, a := range varargs(args[1]) {
				if I.isError(a) {
					if t := I.prog.pkgs["fmt"].Type("wrapError"); t != nil {
						return Iface{t: types.NewPointer(t.Type()), v: I.mkPtrToStruct(StructV{Str{opq: true}, a})}
					}
				}
			}
		}
		return I.errorVal(Str{opq: true})
	}
	for _, n := range []string{"Unwrap", "Error"} {
		n := n
		m["(*fmt.wrapError)."+n] = func(I *Interp, fn *ssa.Function, args []Value) Value {
			p := args[0].(Ptr)
			if n == "Unwrap" {
				return (*p.p).(StructV)[1]
			}
			return (*p.p).(StructV)[0]
		}
	}
	m["fmt.Fprintf"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if isFile(args[0]) {
			return I.zeroResult(fn)
		}
		return I.writeTo(args[0], I.sprintf(args[1].(Str), varargs(args[2])))
	}
	m["fmt.Fprint"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if isFile(args[0]) {
			return I.zeroResult(fn)
		}
		return I.writeTo(args[0], I.sprint(varargs(args[1]), false))
	}
	m["fmt.Fprintln"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if isFile(args[0]) {
			return I.zeroResult(fn)
		}
		return I.writeTo(args[0], I.sprint(varargs(args[1]), true))
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		m[n] = zeroRes
	}
}

func isFile(w Value) bool {
	x, ok := w.(Iface)
	if !ok || x.t == nil {
		return false
	}
	if p, ok := x.v.(Ptr); ok && p.p != nil {
		if nat, ok := (*p.p).(*Native); ok && nat.kind == "file" {
			return true
		}
	}
	return false
}
