package main

// encoding/gob by its documented contract: a value becomes a token of the stream; only exported fields
// travel, functions and channels are ignored, zero-valued fields are not sent, nil pointers inside slices
// and interface values of unregistered types are errors, and decoding rebuilds values field by field.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gobNode struct {
	kind  byte // l leaf, s struct, e slice, m map, i interface, n nil interface
	t     types.Type
	v     Value
	kids  []*gobNode
	keys  []*gobNode
	names []string
}

type gobErr struct{ msg string }

func gobSkip(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (I *Interp) gobRegistered(t types.Type) bool {
	if b, ok := types.Unalias(t).(*types.Basic); ok {
		return b.Kind() != types.UnsafePointer && b.Info()&types.IsUntyped == 0
	}
	if s, ok := types.Unalias(t).(*types.Slice); ok {
		_, ok := types.Unalias(s.Elem()).(*types.Basic)
		return ok
	}
	for _, r := range I.gobTypes {
		if types.Identical(r, t) {
			return true
		}
	}
	return false
}

func (I *Interp) gobOut(t types.Type, v Value) *gobNode {
	if _, isI := t.Underlying().(*types.Interface); !isI && (I.prog.methodByName(t, "GobEncode") != nil || I.prog.methodByName(t, "MarshalBinary") != nil) {
		panic(pathEnd{"unsupported", "gob of a type with its own encoding: " + t.String()})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return &gobNode{kind: 'l', t: t, v: v}
	case *types.Pointer:
		p := v.(Ptr)
		if p.p == nil {
			panic(gobErr{"gob: cannot encode nil pointer of type " + t.String()})
		}
		return I.gobOut(u.Elem(), I.load(p))
	case *types.Struct:
		n := &gobNode{kind: 's', t: t}
		sent := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || gobSkip(f.Type()) {
				continue
			}
			sent++
			fv := v.(StructV)[i]
			switch x := fv.(type) {
			case Ptr:
				if x.p == nil {
					continue
				}
			case Iface:
				if x.t == nil {
					continue
				}
			case SliceV:
				if len(x.e) == 0 {
					continue
				}
			case *MapV:
				if x == nil {
					continue
				}
			}
			n.names = append(n.names, f.Name())
			n.kids = append(n.kids, I.gobOut(f.Type(), fv))
		}
		if sent == 0 {
			panic(gobErr{"gob: type " + t.String() + " has no exported fields"})
		}
		return n
	case *types.Slice, *types.Array:
		var e []Value
		et := types.Type(nil)
		if s, ok := u.(*types.Slice); ok {
			e, et = v.(SliceV).e, s.Elem()
		} else {
			e, et = v.(ArrayV), u.(*types.Array).Elem()
		}
		n := &gobNode{kind: 'e', t: t}
		for _, x := range e {
			n.kids = append(n.kids, I.gobOut(et, x))
		}
		return n
	case *types.Map:
		n := &gobNode{kind: 'm', t: t}
		m := v.(*MapV)
		if m == nil {
			return n
		}
		for _, e := range m.ents {
			if !e.deleted {
				n.keys = append(n.keys, I.gobOut(u.Key(), e.k))
				n.kids = append(n.kids, I.gobOut(u.Elem(), e.v))
			}
		}
		return n
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return &gobNode{kind: 'n', t: t}
		}
		if p, ok := x.v.(Ptr); ok && p.p == nil {
			panic(gobErr{"gob: cannot encode nil pointer of type " + x.t.String() + " inside interface"})
		}
		if !I.gobRegistered(x.t) {
			panic(gobErr{"gob: type not registered for interface: " + x.t.String()})
		}
		return &gobNode{kind: 'i', t: x.t, kids: []*gobNode{I.gobOut(x.t, x.v)}}
	}
	panic(gobErr{"gob: unsupported type " + t.String()})
}

func (I *Interp) gobIn(t types.Type, cur Value, n *gobNode) Value {
	bad := func() {
		panic(gobErr{fmt.Sprintf("gob: wrong type: %v for %v", n.t, t)})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n.kind != 'l' {
			bad()
		}
		wf, sf, okf := intInfo(n.t)
		wt, st, okt := intInfo(t)
		if okf != okt || sf != st || isString(n.t) != isString(t) || isBool(n.t) != isBool(t) {
			bad()
		}
		if okf && wf != wt {
			x := n.v.(*Term)
			y := I.convert(n.t, t, x).(*Term)
			if wf > wt && I.branch(I.tt.Not(I.tt.Eq(I.convert(t, n.t, y).(*Term), x))) {
				panic(gobErr{"gob: value out of range"})
			}
			return y
		}
		if a, ok := floatSort(n.t); ok {
			if b, _ := floatSort(t); a != b {
				panic(pathEnd{"unsupported", "gob float conversion"})
			}
		}
		return n.v
	case *types.Pointer:
		p := cur.(Ptr)
		if p.p == nil {
			var slot Value = I.zero(u.Elem())
			p = Ptr{p: &slot}
		}
		I.store(p, I.gobIn(u.Elem(), I.load(p), n))
		return p
	case *types.Struct:
		if n.kind != 's' {
			bad()
		}
		sv := copyVal(cur).(StructV)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || gobSkip(f.Type()) {
				continue
			}
			for k, nm := range n.names {
				if nm == f.Name() {
					sv[i] = I.gobField(f.Type(), sv[i], n.kids[k])
				}
			}
		}
		return sv
	case *types.Slice:
		if n.kind != 'e' {
			bad()
		}
		if len(n.kids) == 0 {
			old := cur.(SliceV)
			old.e = old.e[:0]
			return old
		}
		s := I.newSlice(u.Elem(), len(n.kids), len(n.kids))
		for i, k := range n.kids {
			s.e[i] = I.gobIn(u.Elem(), s.e[i], k)
		}
		return s
	case *types.Array:
		if n.kind != 'e' || len(n.kids) != int(u.Len()) {
			bad()
		}
		av := copyVal(cur).(ArrayV)
		for i, k := range n.kids {
			av[i] = I.gobIn(u.Elem(), av[i], k)
		}
		return av
	case *types.Map:
		if n.kind != 'm' {
			bad()
		}
		m := cur.(*MapV)
		if m == nil {
			m = &MapV{idx: map[string]*mapEntry{}}
		}
		for i := range n.keys {
			I.mapSet(m, I.gobIn(u.Key(), I.zero(u.Key()), n.keys[i]), I.gobIn(u.Elem(), I.zero(u.Elem()), n.kids[i]))
		}
		return m
	case *types.Interface:
		switch n.kind {
		case 'n':
			return Iface{}
		case 'i':
			if !I.implements(n.t, u) {
				panic(gobErr{"gob: value does not implement interface"})
			}
			return Iface{t: n.t, v: I.gobIn(n.t, I.zero(n.t), n.kids[0])}
		}
		bad()
	}
	panic(gobErr{"gob: unsupported type " + t.String()})
}

// gobField: zero scalars are not sent, so the field keeps what it had.
func (I *Interp) gobField(t types.Type, cur Value, n *gobNode) Value {
	if n.kind == 'l' {
		switch c := cur.(type) {
		case *Term:
			if _, isF := floatSort(t); !isF && !(c.isConst() && c.v == 0) {
				if I.branch(I.tt.Eq(n.v.(*Term), I.zero(t).(*Term))) {
					return cur
				}
			}
		case Str:
			if I.slen(n.v.(Str)) == 0 {
				return cur
			}
		}
	}
	return I.gobIn(t, cur, n)
}

func (I *Interp) gobTry(f func()) (res Value) {
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(gobErr)
			if !ok {
				panic(r)
			}
			res = I.errorVal(cs(g.msg))
		}
	}()
	f()
	return Iface{}
}

func addGob(m map[string]intrinsicFn) {
	stream := func(kind string) intrinsicFn {
		return func(I *Interp, fn *ssa.Function, args []Value) Value {
			var slot Value = &Native{kind: kind, v: args[0]}
			return Ptr{p: &slot}
		}
	}
	m["encoding/gob.NewEncoder"] = stream("gobenc")
	m["encoding/gob.NewDecoder"] = stream("gobdec")
	m["encoding/gob.Register"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if !I.initMode {
			panic(pathEnd{"unsupported", "gob.Register outside initialisation"})
		}
		I.gobTypes = append(I.gobTypes, args[0].(Iface).t)
		return Tuple{}
	}
	m["(*encoding/gob.Encoder).Encode"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		w := (*args[0].(Ptr).p).(*Native).v.(Iface)
		return I.gobTry(func() {
			x := args[1].(Iface)
			if x.t == nil {
				panic(gobErr{"gob: cannot encode nil"})
			}
			n := I.gobOut(x.t, x.v)
			I.gobToks = append(I.gobToks, n)
			tok := fmt.Sprintf("gob%05d", len(I.gobToks))
			r := I.call(I.prog.methodByName(w.t, "Write"), []Value{w.v, I.bytesToSlice(I.sbytes(cs(tok)))}, nil)
			if e := r.(Tuple)[1].(Iface); e.t != nil {
				panic(pathEnd{"unsupported", "gob: failing writer"})
			}
		})
	}
	m["(*encoding/gob.Decoder).Decode"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		rd := (*args[0].(Ptr).p).(*Native).v.(Iface)
		tok := ""
		for len(tok) < 8 {
			buf := I.bytesToSlice(I.sbytes(cs("        "[:8-len(tok)])))
			r := I.call(I.prog.methodByName(rd.t, "Read"), []Value{rd.v, buf}, nil).(Tuple)
			n := I.cInt(r[0].(*Term))
			for _, b := range buf.e[:n] {
				if t := b.(*Term); t.isConst() {
					tok += string(rune(t.v))
				} else {
					tok += "?" // no Encoder wrote this
				}
			}
			if e := r[1].(Iface); e.t != nil {
				if tok == "" {
					return e
				}
				break
			}
		}
		var id int
		if _, err := fmt.Sscanf(tok, "gob%05d", &id); err != nil || len(tok) != 8 || id < 1 || id > len(I.gobToks) {
			return I.errorVal(cs("gob: bad data"))
		}
		return I.gobTry(func() {
			x := args[1].(Iface)
			if x.t == nil { // discard
				return
			}
			p, ok := x.v.(Ptr)
			if !ok {
				panic(gobErr{"gob: attempt to decode into a non-pointer"})
			}
			if p.p == nil {
				panic(gobErr{"gob: attempt to decode into a nil pointer"})
			}
			I.store(p, I.gobIn(deref(x.t), I.load(p), I.gobToks[id-1]))
		})
	}
}
