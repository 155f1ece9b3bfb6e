package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(I *Interp, fn *ssa.Function, args []Value) Value

var intrinsics map[string]intrinsicFn

func lookupIntrinsic(name string, fn *ssa.Function) intrinsicFn {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger)") {
		return func(I *Interp, fn *ssa.Function, args []Value) Value { return I.zeroResult(fn) }
	}
	if strings.HasPrefix(name, "(*os.File).") && (strings.HasSuffix(name, ".Write") || strings.HasSuffix(name, ".WriteString") || strings.HasSuffix(name, ".Sync")) {
		return func(I *Interp, fn *ssa.Function, args []Value) Value { return I.zeroResult(fn) }
	}
	if strings.HasPrefix(name, "runtime/debug.") || name == "runtime.GC" || name == "runtime.KeepAlive" {
		return func(I *Interp, fn *ssa.Function, args []Value) Value { return I.zeroResult(fn) }
	}
	return nil
}

func (I *Interp) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return I.zero(r.At(0).Type())
	}
	return I.zero(r)
}

func specialGlobal(I *Interp, g *ssa.Global) (Value, bool) {
	switch g.String() {
	case "os.Stderr", "os.Stdout", "os.Stdin":
		s := new(Value)
		*s = &Native{kind: "file", v: g.Name()}
		return Ptr{p: s, base: true}, true
	case "os.Args":
		return SliceV{e: []Value{cs("prog")}, base: true}, true
	}
	return nil, false
}

func nativeInvoke(I *Interp, n *Native, m string, args []Value) Value {
	tt := I.tt
	switch n.kind {
	case "rtype":
		t := n.v.(types.Type)
		switch m {
		case "Name":
			return cs(rtypeName(t))
		case "String":
			return cs(rtypeString(t))
		case "Kind":
			return tt.BV(64, uint64(rkind(t)))
		case "PkgPath":
			return cs("")
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return rtypeVal(I, u.Elem())
			case *types.Pointer:
				return rtypeVal(I, u.Elem())
			}
		case "AssignableTo", "ConvertibleTo":
			if x, ok := args[0].(Iface); ok {
				if n, ok := x.v.(*Native); ok && n.kind == "rtype" {
					if m == "AssignableTo" {
						return tt.Bool(types.AssignableTo(t, n.v.(types.Type)))
					}
					return tt.Bool(types.ConvertibleTo(t, n.v.(types.Type)))
				}
			}
		}
	}
	panic(pathEnd{"unsupported", "method " + m + " on native " + n.kind})
}

func rtypeName(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Basic:
		if x.Name() == "byte" {
			return "uint8"
		}
		if x.Name() == "rune" {
			return "int32"
		}
		return x.Name()
	case *types.Named:
		return x.Obj().Name()
	}
	return ""
}

func rtypeString(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Basic:
		return rtypeName(t)
	case *types.Pointer:
		return "*" + rtypeString(x.Elem())
	case *types.Slice:
		return "[]" + rtypeString(x.Elem())
	case *types.Map:
		return "map[" + rtypeString(x.Key()) + "]" + rtypeString(x.Elem())
	case *types.Named:
		if x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Name() + "." + x.Obj().Name()
		}
		return x.Obj().Name()
	case *types.Interface:
		if x.NumMethods() == 0 {
			return "interface {}"
		}
	}
	return t.String()
}

func rkind(t types.Type) int {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func rtypeVal(I *Interp, t types.Type) Value {
	return Iface{t: types.Typ[types.UnsafePointer], v: &Native{kind: "rtype", v: t}}
}

func (I *Interp) newVar(s Sort, name string) *Term {
	k := I.names[name]
	I.names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	I.inputs = append(I.inputs, name)
	return I.tt.Var(s, name)
}

func argStr(v Value) string {
	s := v.(Str)
	if !s.concrete() {
		panic(pathEnd{"unsupported", "symbolic name/label"})
	}
	return s.s
}

func (I *Interp) errorVal(s Str) Value {
	r := I.callStd("errors", "New", []Value{s})
	return r
}

func (I *Interp) mkPtrToStruct(st StructV) Ptr {
	s := new(Value)
	*s = st
	return Ptr{p: s, base: I.initMode}
}

func bvVar(w int) intrinsicFn {
	return func(I *Interp, fn *ssa.Function, args []Value) Value { return I.newVar(Sort(w), argStr(args[0])) }
}

func fnat1(op Op) intrinsicFn {
	return func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.FUn(op, args[0].(*Term)) }
}

func natFF(f func(float64) float64) intrinsicFn {
	return func(I *Interp, fn *ssa.Function, args []Value) Value {
		t := args[0].(*Term)
		if !t.isConst() {
			panic(pathEnd{"unsupported", "symbolic argument to " + fn.String()})
		}
		return I.tt.F64(f(fval(t)))
	}
}

func zeroRes(I *Interp, fn *ssa.Function, args []Value) Value { return I.zeroResult(fn) }

func init() {
	m := map[string]intrinsicFn{}
	R := repoPath + "."
	// ---- harness vocabulary ----
	m[R+"vzInt"] = bvVar(64)
	m[R+"vzInt64"] = bvVar(64)
	m[R+"vzInt32"] = bvVar(32)
	m[R+"vzInt16"] = bvVar(16)
	m[R+"vzInt8"] = bvVar(8)
	m[R+"vzUint"] = bvVar(64)
	m[R+"vzUint64"] = bvVar(64)
	m[R+"vzUint32"] = bvVar(32)
	m[R+"vzUint16"] = bvVar(16)
	m[R+"vzUint8"] = bvVar(8)
	m[R+"vzRune"] = bvVar(32)
	m[R+"vzBool"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.newVar(SBool, argStr(args[0]))
	}
	m[R+"vzFloat64"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.tt.FFromBits(I.newVar(64, argStr(args[0])))
	}
	m[R+"vzFloat32"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.tt.FFromBits(I.newVar(32, argStr(args[0])))
	}
	m[R+"vzRange"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		v := I.newVar(64, argStr(args[0]))
		lo, hi := args[1].(*Term), args[2].(*Term)
		I.assume(I.tt.And(I.tt.SLe(lo, v), I.tt.SLe(v, hi)))
		return I.tt.BV(64, I.concretize(v))
	}
	m[R+"vzStr"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		n := I.cInt(args[1].(*Term))
		b := make([]*Term, n)
		nm := argStr(args[0])
		for i := range b {
			b[i] = I.newVar(8, fmt.Sprintf("%s[%d]", nm, i))
		}
		if n == 0 {
			return Str{}
		}
		return Str{b: b}
	}
	m[R+"vzAnd"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.tt.And(args[0].(*Term), args[1].(*Term))
	}
	m[R+"vzOr"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.tt.Or(args[0].(*Term), args[1].(*Term))
	}
	m[R+"vzImplies"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.tt.Or(I.tt.Not(args[0].(*Term)), args[1].(*Term))
	}
	m[R+"vzB2I"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.tt.Ite(args[0].(*Term), I.tt.BV(64, 1), I.tt.BV(64, 0))
	}
	m[R+"vzAssume"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		I.assume(args[0].(*Term))
		return nil
	}
	m[R+"vzAssert"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		I.doAssert(args[0].(*Term), argStr(args[1]))
		return nil
	}
	m[R+"vzReach"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		l := argStr(args[0])
		I.trace = append(I.trace, traceItem{kind: 'R', label: l})
		I.ex.reach(l)
		return nil
	}
	obs := func(I *Interp, fn *ssa.Function, args []Value) Value {
		I.trace = append(I.trace, traceItem{kind: 'O', label: argStr(args[0]), v: args[1]})
		return nil
	}
	m[R+"vzObs"] = obs
	m[R+"vzObsS"] = obs
	m[R+"vzTier"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.BV(64, uint64(I.ex.tier)) }
	m[R+"vzFlag"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		I.flags[argStr(args[0])] = I.cInt(args[1].(*Term))
		return nil
	}
	m[R+"vzUnmodelled"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		panic(pathEnd{"unsupported", argStr(args[0])})
	}
	m[R+"vzSym"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.True }

	// ---- runtime / os / diagnostics ----
	m["runtime.Caller"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return Tuple{I.tt.BV(64, 1), cs("/src/file.go"), I.tt.BV(64, 1), I.tt.True}
	}
	m["runtime.FuncForPC"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		s := new(Value)
		*s = &Native{kind: "rfunc"}
		return Ptr{p: s, base: true}
	}
	m["(*runtime.Func).Name"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return cs("main.fn") }
	m["runtime/debug.Stack"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return SliceV{} }
	m["os.Exit"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("os.Exit called")}, where: I.where()})
	}
	// UtilFuncName & co only build diagnostic text; keep them cheap
	for _, n := range []string{"UtilFuncCallerCallerCaller", "UtilFuncNameNoParens", "UtilFuncNameFull", "UtilFuncSource"} {
		m[R+n] = func(I *Interp, fn *ssa.Function, args []Value) Value { return Str{opq: true} }
	}
	// these are also compared with, to word a message
	for n, skip := range map[string]int{"UtilFuncName": 1, "UtilFuncCaller": 2, "UtilFuncCallerCaller": 3} {
		skip := skip
		m[R+n] = func(I *Interp, fn *ssa.Function, args []Value) Value {
			st := I.stackFn
			if len(st) > 0 && st[len(st)-1] == fn {
				st = st[:len(st)-1]
			}
			name := ""
			if k := len(st) - skip; k >= 0 {
				name = st[k].Name()
				if i := strings.LastIndexByte(name, '$'); i >= 0 {
					name = "func" + name[i+1:]
				}
			}
			return cs(name + "()")
		}
	}
	m[R+"UtilPrintCaller"] = zeroRes
	m[R+"UtilPrintCallerCaller"] = zeroRes

	// ---- errors ----
	m["errors.As"] = intrErrorsAs

	// ---- sync ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		unlock := strings.HasSuffix(n, "nlock")
		m[n] = func(I *Interp, fn *ssa.Function, args []Value) Value {
			I.lock(args[0].(Ptr), unlock)
			return nil
		}
	}
	m["(*sync.Once).Do"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		p := args[0].(Ptr)
		sv := (*p.p).(StructV)
		// use a side table keyed by the object
		key := p.p
		if I.onceDone(key) {
			return nil
		}
		_ = sv
		I.setOnce(key)
		if I.fp != nil { // everything after Do sees what it did
			old := I.fp
			I.fp = nil
			defer func() { I.fp = old }()
		}
		I.callClosure(args[1].(*Closure), nil)
		return nil
	}
	m["internal/abi.NoEscape"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return args[0] }
	m["internal/abi.Escape"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return args[0] }
	m["strings.noescape"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return args[0] }
	m["internal/race.Enable"] = zeroRes
	m["(*strings.Builder).copyCheck"] = zeroRes

	// ---- math ----
	m["math.Float64bits"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.floatBits(args[0].(*Term)) }
	m["math.Float32bits"] = m["math.Float64bits"]
	m["math.Float64frombits"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.FFromBits(args[0].(*Term)) }
	m["math.Float32frombits"] = m["math.Float64frombits"]
	m["internal/strconv.float64bits"], m["internal/strconv.float32bits"] = m["math.Float64bits"], m["math.Float32bits"]
	m["internal/strconv.float64frombits"], m["internal/strconv.float32frombits"] = m["math.Float64frombits"], m["math.Float32frombits"]
	m["math.Abs"] = fnat1(OFAbs)
	m["math.Sqrt"] = fnat1(OFSqrt)
	m["math.sqrt"] = fnat1(OFSqrt)
	m["math.Floor"] = fnat1(OFFloor)
	m["math.Ceil"] = fnat1(OFCeil)
	m["math.Trunc"] = fnat1(OFRtz)
	m["math.Signbit"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		t := args[0].(*Term)
		if t.isConst() {
			return I.tt.Bool(math.Signbit(fval(t)))
		}
		if t.op == OFFromBits {
			w := int(t.a.sort)
			return I.tt.Eq(I.tt.Extract(t.a, w-1, w-1), I.tt.BV(1, 1))
		}
		if t.op == OFToF && t.a.op == OFFromBits {
			w := int(t.a.a.sort)
			return I.tt.Eq(I.tt.Extract(t.a.a, w-1, w-1), I.tt.BV(1, 1))
		}
		return I.signOf(t)
	}
	m["math.IsNaN"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.FIsNaN(args[0].(*Term)) }
	m["math.Log10"] = natFF(math.Log10)
	m["math.Log2"] = natFF(math.Log2)
	m["math.Log"] = natFF(math.Log)
	m["math.Exp"] = natFF(math.Exp)
	m["math.Pow"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		a, b := args[0].(*Term), args[1].(*Term)
		if !a.isConst() || !b.isConst() {
			panic(pathEnd{"unsupported", "symbolic math.Pow"})
		}
		return I.tt.F64(math.Pow(fval(a), fval(b)))
	}

	// ---- internal/bytealg ----
	idxByte := func(I *Interp, b []*Term, c *Term) Value {
		for i, x := range b {
			if I.branch(I.tt.Eq(x, c)) {
				return I.tt.BV(64, uint64(i))
			}
		}
		return I.tt.BV(64, ^uint64(0))
	}
	m["internal/bytealg.IndexByte"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return idxByte(I, I.bytesOf(args[0]), args[1].(*Term))
	}
	m["internal/bytealg.IndexByteString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return idxByte(I, I.sbytes(args[0].(Str)), args[1].(*Term))
	}
	cnt := func(I *Interp, b []*Term, c *Term) Value {
		r := I.tt.BV(64, 0)
		for _, x := range b {
			r = I.tt.Bin(OAdd, r, I.tt.Ite(I.tt.Eq(x, c), I.tt.BV(64, 1), I.tt.BV(64, 0)))
		}
		return r
	}
	m["internal/bytealg.Count"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return cnt(I, I.bytesOf(args[0]), args[1].(*Term))
	}
	m["internal/bytealg.CountString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return cnt(I, I.sbytes(args[0].(Str)), args[1].(*Term))
	}
	m["internal/bytealg.Equal"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.seq(mkStr(I.bytesOf(args[0])), mkStr(I.bytesOf(args[1])))
	}
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	cmp := func(I *Interp, a, b Str) Value {
		return I.tt.Ite(I.slt(a, b), I.tt.BV(64, ^uint64(0)), I.tt.Ite(I.seq(a, b), I.tt.BV(64, 0), I.tt.BV(64, 1)))
	}
	m["internal/bytealg.Compare"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return cmp(I, mkStr(I.bytesOf(args[0])), mkStr(I.bytesOf(args[1])))
	}
	m["bytes.Compare"] = m["internal/bytealg.Compare"]
	m["internal/bytealg.CompareString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return cmp(I, args[0].(Str), args[1].(Str))
	}
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	index := func(I *Interp, a, b Str) Value {
		if a.concrete() && b.concrete() {
			return I.tt.BV(64, uint64(int64(strings.Index(a.s, b.s))))
		}
		n, k := I.slen(a), I.slen(b)
		for i := 0; i+k <= n; i++ {
			if I.branch(I.seq(I.sslice(a, i, i+k), b)) {
				return I.tt.BV(64, uint64(i))
			}
		}
		return I.tt.BV(64, ^uint64(0))
	}
	m["internal/bytealg.Index"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return index(I, mkStr(I.bytesOf(args[0])), mkStr(I.bytesOf(args[1])))
	}
	m["internal/bytealg.IndexString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return index(I, args[0].(Str), args[1].(Str))
	}
	m["strings.Index"] = m["internal/bytealg.IndexString"]
	m["bytes.Index"] = m["internal/bytealg.Index"]
	m["internal/bytealg.MakeNoZero"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		n := I.cInt(args[0].(*Term))
		return I.newSlice(types.Typ[types.Uint8], n, n)
	}
	m["strings.Clone"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return args[0] }
	m["internal/stringslite.Clone"] = m["strings.Clone"]

	// fast concrete paths
	m["strings.Repeat"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		n := I.cInt(args[1].(*Term))
		if n < 0 {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("strings: negative Repeat count")}, where: I.where(), rt: true})
		}
		s := args[0].(Str)
		if s.concrete() {
			return cs(strings.Repeat(s.s, n))
		}
		b := I.sbytes(s)
		var r []*Term
		for i := 0; i < n; i++ {
			r = append(r, b...)
		}
		return mkStr(r)
	}

	// ---- sort ----
	m["sort.Slice"] = intrSortSlice("pdqsort_func")
	m["sort.SliceStable"] = intrSortSlice("stable_func")

	// ---- math/rand: arbitrary choices, the same ones again for the same seed and the same draws ----
	draw := func(I *Interp, r *randStream, n uint64, name string) *Term {
		if r == nil || r.hist == "" {
			return I.newVar(64, name)
		}
		r.hist += fmt.Sprintf(" %s:%d", name, n)
		v := I.rands[r.hist]
		if v == nil {
			v = I.newVar(64, name)
			I.rands[r.hist] = v
		}
		return v
	}
	stream := func(v Value) *randStream {
		n, _ := (*v.(Ptr).p).(*Native)
		r, _ := n.v.(*randStream)
		return r
	}
	m[R+"vzReplayed"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.Bool(false) }
	m[R+"vzReseeds"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		I.reseeded = false
		I.callClosure(args[0].(*Closure), nil)
		return I.tt.Bool(I.reseeded)
	}
	m[R+"vzPar"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		var fps [2]*footprint
		for i := range fps {
			fps[i] = newFootprint()
			I.fp, I.locks = fps[i], nil
			I.callClosure(args[i].(*Closure), nil)
			I.fp = nil
		}
		where := fps[0].conflict(fps[1])
		if where != "" {
			I.ex.note("conflict", where)
		}
		return I.tt.Bool(where == "")
	}
	shuffle := func(I *Interp, r *randStream, n *Term, swap *Closure) Value {
		k := I.cInt(n)
		if k < 0 {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("invalid argument to Shuffle")}, where: I.where(), rt: true})
		}
		for i := k - 1; i > 0; i-- {
			v := draw(I, r, uint64(i), "rand.shuffle")
			I.assume(I.tt.ULt(v, I.tt.BV(64, uint64(i+1))))
			j := I.concretize(v)
			I.callClosure(swap, []Value{I.tt.BV(64, uint64(i)), I.tt.BV(64, j)})
		}
		return nil
	}
	m["math/rand.Shuffle"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return shuffle(I, &I.grand, args[0].(*Term), args[1].(*Closure))
	}
	m["(*math/rand.Rand).Shuffle"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return shuffle(I, stream(args[0]), args[1].(*Term), args[2].(*Closure))
	}
	m["math/rand.New"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		s := new(Value)
		r := &randStream{}
		if src, ok := args[0].(Iface); ok {
			if n, ok := src.v.(*Native); ok {
				r, _ = n.v.(*randStream)
			}
		}
		*s = &Native{kind: "rand", v: r}
		return Ptr{p: s}
	}
	seeded := func(seed *Term) *randStream {
		if !seed.isConst() {
			return &randStream{}
		}
		return &randStream{hist: fmt.Sprintf("seed %d", seed.v)}
	}
	m["math/rand.NewSource"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return Iface{t: types.Typ[types.UnsafePointer], v: &Native{kind: "randsource", v: seeded(args[0].(*Term))}}
	}
	m["math/rand.Seed"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		I.reseeded = true
		I.grand = *seeded(args[0].(*Term))
		return nil
	}
	m["(*math/rand.Rand).Seed"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		*stream(args[0]) = *seeded(args[1].(*Term))
		return nil
	}
	intn := func(I *Interp, r *randStream, n *Term) Value {
		if n.isConst() == false {
			r = nil
		}
		v := draw(I, r, n.v, "rand.intn")
		if I.branch(I.tt.SLe(n, I.tt.BV(64, 0))) {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("invalid argument to Intn")}, where: I.where(), rt: true})
		}
		I.assume(I.tt.ULt(v, n))
		return v
	}
	m["math/rand.Intn"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return intn(I, &I.grand, args[0].(*Term)) }
	m["(*math/rand.Rand).Intn"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return intn(I, stream(args[0]), args[1].(*Term)) }
	for _, d := range []struct {
		name string
		bits int
		n    bool
		max  uint64
	}{{"Int31n", 32, true, 0}, {"Int63n", 64, true, 0}, {"Int63", 64, false, 1<<63 - 1}, {"Int", 64, false, 1<<63 - 1}, {"Int31", 32, false, 1<<31 - 1},
		{"Uint32", 32, false, 1<<32 - 1}, {"Uint64", 64, false, 1<<64 - 1}} {
		one := func(I *Interp, r *randStream, args []Value) Value {
			if !d.n {
				v := draw(I, r, 0, "rand."+d.name)
				I.assume(I.tt.Not(I.tt.ULt(I.tt.BV(64, d.max), v)))
				return I.tt.Resize(v, d.bits, false)
			}
			return I.tt.Resize(intn(I, r, I.tt.Resize(args[0].(*Term), 64, true)).(*Term), d.bits, false)
		}
		m["math/rand."+d.name] = func(I *Interp, fn *ssa.Function, args []Value) Value { return one(I, &I.grand, args) }
		m["(*math/rand.Rand)."+d.name] = func(I *Interp, fn *ssa.Function, args []Value) Value { return one(I, stream(args[0]), args[1:]) }
	}
	perm := func(I *Interp, r *randStream, n *Term) Value {
		k := I.cInt(n)
		e := make([]Value, k)
		for i := range e {
			e[i] = I.tt.BV(64, uint64(i))
		}
		for i := k - 1; i > 0; i-- {
			v := draw(I, r, uint64(i), "rand.perm")
			I.assume(I.tt.ULt(v, I.tt.BV(64, uint64(i+1))))
			j := I.concretize(v)
			e[i], e[j] = e[j], e[i]
		}
		return SliceV{e: e}
	}
	m["math/rand.Perm"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return perm(I, &I.grand, args[0].(*Term)) }
	m["(*math/rand.Rand).Perm"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return perm(I, stream(args[0]), args[1].(*Term)) }

	// ---- reflect ----
	m["reflect.TypeOf"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		x := args[0].(Iface)
		if x.t == nil {
			return Iface{}
		}
		return rtypeVal(I, x.t)
	}
	m["(reflect.Kind).String"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		k := args[0].(*Term)
		if !k.isConst() {
			panic(pathEnd{"unsupported", "reflect.Kind.String"})
		}
		return cs(reflect.Kind(k.v).String())
	}
	m["internal/reflectlite.TypeOf"] = m["reflect.TypeOf"]
	m["reflect.ValueOf"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return &Native{kind: "rvalue", v: args[0].(Iface)}
	}
	rv := func(v Value) Iface {
		n, ok := v.(*Native)
		if !ok || n.kind != "rvalue" {
			panic(pathEnd{"unsupported", "reflect.Value"})
		}
		return n.v.(Iface)
	}
	m["(reflect.Value).Int"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		x := rv(args[0])
		_, signed, ok := intInfo(x.t)
		if !ok || !signed {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("reflect: call of Int on " + x.t.String())}, where: I.where(), rt: true})
		}
		return I.tt.SExt(x.v.(*Term), 64)
	}
	m["(reflect.Value).Uint"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		x := rv(args[0])
		_, signed, ok := intInfo(x.t)
		if !ok || signed {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("reflect: call of Uint on " + x.t.String())}, where: I.where(), rt: true})
		}
		return I.tt.ZExt(x.v.(*Term), 64)
	}
	m["(reflect.Value).Float"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		x := rv(args[0])
		if _, ok := floatSort(x.t); !ok {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("reflect: call of Float on " + x.t.String())}, where: I.where(), rt: true})
		}
		return I.tt.FToF(x.v.(*Term), SFP64)
	}
	m["(reflect.Value).String"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		x := rv(args[0])
		if s, ok := x.v.(Str); ok && rkind(x.t) == int(reflect.String) {
			return s
		}
		return cs("<" + rtypeString(x.t) + " Value>")
	}
	m["(reflect.Value).Bool"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		x := rv(args[0])
		if rkind(x.t) != int(reflect.Bool) {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: cs("reflect: call of Bool on " + x.t.String())}, where: I.where(), rt: true})
		}
		return x.v
	}
	m["(reflect.Value).Interface"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return rv(args[0]) }
	m["(reflect.Value).IsValid"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.Bool(rv(args[0]).t != nil) }
	m["reflect.Zero"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		if x, ok := args[0].(Iface); ok {
			if n, ok := x.v.(*Native); ok && n.kind == "rtype" {
				t := n.v.(types.Type)
				return &Native{kind: "rvalue", v: Iface{t: t, v: I.zero(t)}}
			}
		}
		panic(pathEnd{"unsupported", "reflect.Zero"})
	}
	m["(reflect.Value).Kind"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.tt.BV(64, uint64(rkind(rv(args[0]).t)))
	}
	m["(reflect.Value).Type"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return rtypeVal(I, rv(args[0]).t) }
	m["(reflect.Value).Len"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		switch x := rv(args[0]).v.(type) {
		case SliceV:
			return I.tt.BV(64, uint64(len(x.e)))
		case Str:
			return I.tt.BV(64, uint64(I.slen(x)))
		}
		panic(pathEnd{"unsupported", "reflect Len"})
	}
	m["(reflect.Value).IsNil"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		switch x := rv(args[0]).v.(type) {
		case Ptr:
			return I.tt.Bool(x.p == nil)
		case SliceV:
			return I.tt.Bool(x.e == nil)
		}
		panic(pathEnd{"unsupported", "reflect IsNil"})
	}
	m["reflect.DeepEqual"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		return I.deepEq(args[0], args[1], map[[2]*Value]bool{})
	}

	// ---- time ----
	m["time.Now"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		panic(pathEnd{"unsupported", "time.Now"})
	}
	m["time.runtimeNano"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return I.tt.BV(64, 1) }
	m["time.runtimeNow"] = m["time.runtimeNano"]

	addFmt(m)
	addGob(m)
	addNum(m)
	addRegex(m)
	addTime(m)
	intrinsics = m
}

var onceTab = map[*Value]bool{}

func (I *Interp) onceDone(k *Value) bool { return I.flags[fmt.Sprintf("once:%p", k)] == 1 }
func (I *Interp) setOnce(k *Value)       { I.flags[fmt.Sprintf("once:%p", k)] = 1 }

func (I *Interp) floatBits(t *Term) *Term {
	w := 64
	if t.sort == SFP32 {
		w = 32
	}
	if t.isConst() {
		return I.tt.BV(w, t.v)
	}
	if x, ok := I.tt.fbits(t); ok {
		return x
	}
	v := I.freshVar(Sort(w), "fbits")
	// v is the bit pattern of t (canonical for non-NaN values)
	f := I.tt.FFromBits(v)
	eq := I.tt.And(I.tt.FCmp(OFEq, f, t), I.tt.Eq(I.signOf(f), I.signOf(t)))
	I.assumeDef(I.tt.Or(eq, I.tt.And(I.tt.FIsNaN(f), I.tt.FIsNaN(t))), v)
	return v
}

// signOf: 1/x distinguishes +0 and -0
func (I *Interp) signOf(f *Term) *Term {
	one := I.tt.F64(1)
	if f.sort == SFP32 {
		one = I.tt.F32(1)
	}
	zero := I.tt.FConst(f.sort, 0)
	return I.tt.FCmp(OFLt, I.tt.FBin(OFDiv, one, f), zero)
}

func (I *Interp) freshVar(s Sort, hint string) *Term {
	I.fresh++
	return I.tt.Var(s, fmt.Sprintf("%%%s%d", hint, I.fresh))
}

// assumeDef adds a constraint that always has a solution for the fresh variable(s); the current model must be repaired.
func (I *Interp) assumeDef(c *Term, vars ...*Term) {
	if I.pos < len(I.prefix) {
		I.assertPC(c)
		return
	}
	I.assume(c)
}

func intrErrorsAs(I *Interp, fn *ssa.Function, args []Value) Value {
	tgt := args[1].(Iface)
	et := deref(tgt.t)
	cur, ok := args[0].(Iface)
	for ok && cur.t != nil {
		match := false
		if it, isI := et.Underlying().(*types.Interface); isI {
			match = types.Implements(cur.t, it)
		} else {
			match = types.Identical(cur.t, et)
		}
		if match {
			if _, isI := et.Underlying().(*types.Interface); isI {
				I.store(tgt.v.(Ptr), cur)
			} else {
				I.store(tgt.v.(Ptr), cur.v)
			}
			return I.tt.True
		}
		un := I.prog.methodByName(cur.t, "Unwrap")
		if un == nil || un.Signature.Results().Len() != 1 {
			break
		}
		cur, ok = I.call(un, []Value{cur.v}, nil).(Iface)
	}
	return I.tt.False
}

func intrSortSlice(alg string) intrinsicFn {
	return func(I *Interp, fn *ssa.Function, args []Value) Value {
		x := args[0].(Iface)
		sl := x.v.(SliceV)
		n := len(sl.e)
		swap := &Closure{nat: func(I *Interp, a []Value) Value {
			i, j := I.cInt(a[0].(*Term)), I.cInt(a[1].(*Term))
			vi, vj := copyVal(sl.e[i]), copyVal(sl.e[j])
			I.storeSlot(&sl.e[i], vj, sl.base)
			I.storeSlot(&sl.e[j], vi, sl.base)
			return nil
		}}
		ls := StructV{args[1], swap}
		a := []Value{ls, I.tt.BV(64, 0), I.tt.BV(64, uint64(n))}
		if alg == "pdqsort_func" {
			lim := 0
			for k := n; k > 0; k >>= 1 {
				lim++
			}
			a = append(a, I.tt.BV(64, uint64(lim)))
		} else {
			a = []Value{ls, I.tt.BV(64, uint64(n))}
		}
		I.callStd("sort", alg, a)
		return nil
	}
}

func (I *Interp) deepEq(a, b Value, seen map[[2]*Value]bool) *Term {
	tt := I.tt
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return tt.False
		}
		if x.t == nil {
			return tt.True
		}
		if !types.Identical(x.t, y.t) {
			return tt.False
		}
		return I.deepEq(x.v, y.v, seen)
	case Ptr:
		y := b.(Ptr)
		if x.p == y.p {
			return tt.True
		}
		if x.p == nil || y.p == nil {
			return tt.False
		}
		k := [2]*Value{x.p, y.p}
		if seen[k] {
			return tt.True
		}
		seen[k] = true
		return I.deepEq(*x.p, *y.p, seen)
	case SliceV:
		y := b.(SliceV)
		if (x.e == nil) != (y.e == nil) || len(x.e) != len(y.e) {
			return tt.False
		}
		r := tt.True
		for i := range x.e {
			r = tt.And(r, I.deepEq(x.e[i], y.e[i], seen))
		}
		return r
	case StructV:
		y := b.(StructV)
		r := tt.True
		for i := range x {
			r = tt.And(r, I.deepEq(x[i], y[i], seen))
		}
		return r
	case ArrayV:
		return I.deepEq(StructV(x), StructV(b.(ArrayV)), seen)
	case *Closure:
		y := b.(*Closure)
		return tt.Bool(x == nil && y == nil)
	case *MapV:
		y := b.(*MapV)
		if x == y {
			return tt.True
		}
		if (x == nil) != (y == nil) || x.n != y.n {
			return tt.False
		}
		r := tt.True
		for _, e := range x.ents {
			o := I.mapFind(y, e.k)
			if o == nil {
				return tt.False
			}
			r = tt.And(r, I.deepEq(e.v, o.v, seen))
		}
		return r
	}
	return I.eqVal(a, b)
}
