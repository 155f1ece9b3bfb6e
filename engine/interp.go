package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	taken bool
	val   uint64
	conc  bool
	viol  bool
}

type fnInfo struct {
	slots slotTab
	n     int
}

type methKey struct {
	t types.Type
	m *types.Func
}

// randStream: what a random source gives depends on its seed and on what was drawn before; no history = arbitrary
type randStream struct{ hist string }

type Interp struct {
	tt     *TermTab
	sol    *Solver
	sol2   *Solver // for independent parts of a path condition with floating point
	varsOf map[*Term][]*Term
	prog   *Program
	infos  map[*ssa.Function]*fnInfo
	consts map[*ssa.Const]Value
	funcs  map[*ssa.Function]*Closure
	globs  map[*ssa.Global]*Value
	ginit  map[*ssa.Package]bool
	sizes  types.Sizes

	initMode bool
	undo     []func()

	// per path
	prefix  []Dec
	pos     int
	decs    []Dec
	pc      []*Term
	model   Model
	ev      *evaluator
	names   map[string]int
	inputs  []string
	trace   []traceItem
	steps   int
	maxStep int
	depth   int
	stackFn []*ssa.Function
	fresh   int
	facts   map[*Term]bool // conjuncts known true on this path
	bnd     map[*Term]iv   // bounds following from them
	ivMemo  map[*Term]iv

	onAlt    func(dec []Dec, m Model)
	ex       *Explorer
	seenFn   map[*ssa.Function]bool
	stubs    map[string]int
	deadline time.Time
	numTexts int
	flags    map[string]int
	fp       *footprint
	locks    []string
	reseeded bool
	grand    randStream       // the process-wide random source
	rands    map[string]*Term // draws of seeded sources, by seed and earlier draws
	digTab   map[string][]*Term
	gobToks  []*gobNode
	gobTypes []types.Type
	orgTab   map[*Term]*Origin
	approx   map[string]int
	curFr    *frame
	curInit  *ssa.Function
	intr     map[*ssa.Function]intrinsicFn
	meths    map[methKey]*ssa.Function
}

type frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	fv     []Value
	defers []func()
	result Value
	pan    *goPanic
	caller *frame
	recov  bool
}

func NewInterp(p *Program, kind string, timeoutMs int) *Interp {
	I := &Interp{tt: NewTermTab(), prog: p, infos: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{},
		funcs: map[*ssa.Function]*Closure{}, globs: map[*ssa.Global]*Value{}, ginit: map[*ssa.Package]bool{},
		seenFn: map[*ssa.Function]bool{}, stubs: map[string]int{},
		intr: map[*ssa.Function]intrinsicFn{}, meths: map[methKey]*ssa.Function{}}
	I.sizes = types.SizesFor("gc", "amd64")
	I.sol = NewSolver(kind, timeoutMs)
	I.varsOf = map[*Term][]*Term{}
	return I
}

func (I *Interp) rtPanic(msg string) *goPanic {
	return &goPanic{v: Iface{t: types.Typ[types.String], v: cs("runtime error: " + msg)}, where: I.where(), rt: true}
}

func (I *Interp) where() string {
	var sb strings.Builder
	n := len(I.stackFn)
	for i := n - 1; i >= 0 && i > n-7; i-- {
		if sb.Len() > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(I.stackFn[i].Name())
	}
	return sb.String()
}

// ---- path control ----

func (I *Interp) beginPath(prefix []Dec, m Model) {
	I.prefix, I.pos, I.decs = prefix, 0, nil
	I.pc = I.pc[:0:0]
	I.model = m
	I.ev = newEval(m)
	I.names = map[string]int{}
	I.grand, I.rands = randStream{}, map[string]*Term{}
	I.inputs = nil
	I.trace = nil
	I.steps = 0
	I.depth = 0
	I.stackFn = I.stackFn[:0]
	I.fresh = 0
	I.numTexts = 0
	I.facts = map[*Term]bool{}
	I.bnd = map[*Term]iv{}
	I.ivMemo = map[*Term]iv{}
	I.flags = map[string]int{}
	I.fp, I.locks = nil, nil
	I.digTab = map[string][]*Term{}
	I.gobToks = nil
	I.orgTab = map[*Term]*Origin{}
	I.approx = map[string]int{}
}

func (I *Interp) endPath() {
	for i := len(I.undo) - 1; i >= 0; i-- {
		I.undo[i]()
	}
	I.undo = I.undo[:0]
}

func (I *Interp) assertPC(c *Term) {
	if c.isConst() {
		if c.v == 0 {
			panic(pathEnd{"unknown", "asserted false path condition"})
		}
		return
	}
	if c.op == OAnd {
		I.assertPC(c.a)
		I.assertPC(c.b)
		return
	}
	if I.facts[c] {
		return
	}
	I.facts[c] = true
	I.pc = append(I.pc, c)
	I.learn(c)
}

func (I *Interp) setModel(m Model) {
	I.model = m
	I.ev = newEval(m)
}

func (I *Interp) known(c *Term) (bool, bool) {
	if c.isConst() {
		return c.v == 1, true
	}
	if I.facts[c] {
		return true, true
	}
	if I.facts[I.tt.Not(c)] {
		return false, true
	}
	return false, false
}

// branch decides a condition, forking when both outcomes are feasible.
func (I *Interp) branch(c *Term) bool {
	if v, ok := I.known(c); ok {
		return v
	}
	if I.initMode {
		panic(pathEnd{"unsupported", "symbolic branch during init"})
	}
	nc := I.tt.Not(c)
	if I.pos < len(I.prefix) {
		d := I.prefix[I.pos]
		if d.conc || d.viol {
			panic(pathEnd{"internal", "re-execution out of step at " + I.where()})
		}
		I.pos++
		I.decs = append(I.decs, d)
		if d.taken {
			I.assertPC(c)
		} else {
			I.assertPC(nc)
		}
		return d.taken
	}
	// what bounds decide is recorded like any forced outcome, so that re-execution does not depend on them
	if v, ok := I.ivBool(c, 0); ok {
		I.decs = append(I.decs, Dec{taken: v})
		I.pos++
		if v {
			I.addFact(c)
		} else {
			I.addFact(nc)
		}
		return v
	}
	I.checkDeadline()
	taken := I.ev.eval(c) == 1
	other := nc
	if !taken {
		other = c
	}
	res, m := I.check(other)
	switch res {
	case Sat:
		alt := make([]Dec, len(I.decs)+1)
		copy(alt, I.decs)
		alt[len(I.decs)] = Dec{taken: !taken}
		I.onAlt(alt, m)
	case Unknown:
		I.ex.note("solver-unknown", "branch alternative not decided at "+I.where())
	}
	// forced outcomes are recorded too, so that re-execution needs no solver call
	I.decs = append(I.decs, Dec{taken: taken})
	I.pos++
	if taken {
		I.assertPC(c)
	} else {
		I.assertPC(nc)
	}
	return taken
}

// concretize forks over the feasible values of t.
func (I *Interp) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.v
		}
		if n > 4096 {
			panic(pathEnd{"budget", "too many values to concretize at " + I.where()})
		}
		v := I.ev.eval(t)
		e := I.tt.Eq(t, I.tt.BV(int(t.sort), v))
		if e.isConst() && e.v == 1 {
			return v
		}
		if k, ok := I.known(e); ok && k { // before looking at the prefix: such values take no decision
			return v
		}
		if I.pos < len(I.prefix) {
			d := I.prefix[I.pos]
			if !d.conc {
				panic(pathEnd{"internal", "re-execution out of step at " + I.where()})
			}
			v = d.val
			I.pos++
			I.decs = append(I.decs, d)
			e = I.tt.Eq(t, I.tt.BV(int(t.sort), v))
			if d.taken {
				I.assertPC(e)
				return v
			}
			I.assertPC(I.tt.Not(e))
			continue
		}
		if k, ok := I.ivBool(e, 0); ok && k {
			I.decs = append(I.decs, Dec{taken: true, val: v, conc: true})
			I.pos++
			I.addFact(e)
			return v
		}
		I.checkDeadline()
		res, m := I.check(I.tt.Not(e))
		if res == Sat {
			alt := make([]Dec, len(I.decs)+1)
			copy(alt, I.decs)
			alt[len(I.decs)] = Dec{taken: false, val: v, conc: true}
			I.onAlt(alt, m)
		} else if res == Unknown {
			I.ex.note("solver-unknown", "concretization not decided at "+I.where())
		}
		d := Dec{taken: true, val: v, conc: true}
		I.decs = append(I.decs, d)
		I.pos++
		I.assertPC(e)
		return v
	}
}

func (I *Interp) cInt(t *Term) int { return int(sext(I.concretize(t), t.sort)) }

func (I *Interp) checkDeadline() {
	if !I.deadline.IsZero() && time.Now().After(I.deadline) {
		panic(pathEnd{"timeout", "time budget exhausted"})
	}
}

// assume prunes the path; it makes the condition part of the path condition.
func (I *Interp) assume(c *Term) {
	if v, ok := I.known(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if I.pos < len(I.prefix) || I.ev.eval(c) == 1 {
		// the inherited/current model satisfies the rest of the prefix, hence also this assumption
		I.assertPC(c)
		return
	}
	res, m := I.check(c)
	switch res {
	case Sat:
		I.setModel(m)
		I.assertPC(c)
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		I.ex.note("solver-unknown", "assumption not decided at "+I.where())
		panic(pathEnd{"unknown", "assumption not decided"})
	}
}

// ---- memory ----

func (I *Interp) load(p Ptr) Value {
	if p.p == nil {
		panic(I.rtPanic("invalid memory address or nil pointer dereference"))
	}
	if I.fp != nil {
		I.touchSlot(p.p, false)
	}
	return copyVal(*p.p)
}

func (I *Interp) store(p Ptr, v Value) {
	if p.p == nil {
		panic(I.rtPanic("invalid memory address or nil pointer dereference"))
	}
	I.storeSlot(p.p, v, p.base && !I.initMode)
}

func (I *Interp) storeSlot(p *Value, v Value, log bool) {
	if I.fp != nil && !I.initMode {
		I.touchSlot(p, true)
	}
	I.storeIn(p, v, log)
}

func (I *Interp) storeIn(p *Value, v Value, log bool) {
	switch n := v.(type) {
	case StructV:
		if o, ok := (*p).(StructV); ok && len(o) == len(n) {
			for i := range n {
				I.storeIn(&o[i], n[i], log)
			}
			return
		}
	case ArrayV:
		if o, ok := (*p).(ArrayV); ok && len(o) == len(n) {
			for i := range n {
				I.storeIn(&o[i], n[i], log)
			}
			return
		}
	}
	if log {
		old := *p
		I.undo = append(I.undo, func() { *p = old })
	}
	*p = v
}

func (I *Interp) global(g *ssa.Global) Ptr {
	if p, ok := I.globs[g]; ok {
		return Ptr{p: p, base: true}
	}
	if !I.prog.initOK(g.Pkg) && !I.initMode {
		if v, ok := specialGlobal(I, g); ok {
			s := new(Value)
			*s = v
			I.globs[g] = s
			return Ptr{p: s, base: true}
		}
		panic(pathEnd{"unsupported", "global of unmodelled package: " + g.String()})
	}
	s := new(Value)
	if v, ok := specialGlobal(I, g); ok {
		*s = v
	} else {
		*s = I.zero(deref(g.Type()))
	}
	I.globs[g] = s
	return Ptr{p: s, base: true}
}

// ---- evaluation ----

func (I *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := I.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{}
	var vals []ssa.Value
	add := func(v ssa.Value) { vals = append(vals, v); fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.slots = newSlotTab(vals)
	I.infos[fn] = fi
	return fi
}

func (I *Interp) constVal(c *ssa.Const) Value {
	if v, ok := I.consts[c]; ok {
		return v
	}
	v := I.constVal1(c)
	I.consts[c] = v
	return v
}

func (I *Interp) constVal1(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return I.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(pathEnd{"unsupported", "type parameter constant " + tp.String()})
	}
	if w, signed, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if signed {
			i, _ := constant.Int64Val(v)
			return I.tt.BV(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return I.tt.BV(w, u)
	}
	if s, ok := floatSort(t); ok {
		if s == SFP32 {
			f, _ := constant.Float32Val(c.Value)
			return I.tt.F32(f)
		}
		f, _ := constant.Float64Val(c.Value)
		return I.tt.F64(f)
	}
	if isBool(t) {
		return I.tt.Bool(constant.BoolVal(c.Value))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return cs(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return cs(string(rune(i)))
	}
	panic(pathEnd{"unsupported", "constant " + c.String()})
}

func (I *Interp) closureOf(fn *ssa.Function) *Closure {
	if c, ok := I.funcs[fn]; ok {
		return c
	}
	c := &Closure{fn: fn}
	I.funcs[fn] = c
	return c
}

func (I *Interp) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return I.constVal(x)
	case *ssa.Global:
		return I.global(x)
	case *ssa.Function:
		return I.closureOf(x)
	case *ssa.Builtin:
		return x
	}
	return fr.env[fr.info.slots.of(v)]
}

func (I *Interp) set(fr *frame, v ssa.Value, x Value) { fr.env[fr.info.slots.of(v)] = x }

func (I *Interp) term(fr *frame, v ssa.Value) *Term { return I.get(fr, v).(*Term) }

func (I *Interp) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		panic(I.rtPanic("invalid memory address or nil pointer dereference (nil func)"))
	}
	if c.nat != nil {
		return c.nat(I, args)
	}
	return I.call(c.fn, args, c.env)
}

func (I *Interp) call(fn *ssa.Function, args []Value, env []Value) Value {
	if I.initMode && fn.Name() == "init" && fn.Synthetic != "" && fn != I.curInit {
		return nil // imported packages are initialised by runInit
	}
	if nat := I.intrinsic(fn); nat != nil {
		if len(I.stubs) < 4096 {
			I.stubs[fn.String()]++
		}
		return nat(I, fn, args)
	}
	if fn.Blocks == nil || !I.prog.bodyOK(fn) {
		if I.initMode {
			return I.zeroResult(fn) // initialisers of unmodelled packages; using the value later ends the path
		}
		panic(pathEnd{"unsupported", "call of unmodelled function " + fn.String() + " from " + I.where()})
	}
	I.seenFn[fn] = true
	I.depth++
	if I.depth > 1500 {
		panic(pathEnd{"depth", "call depth exceeded in " + I.where()})
	}
	I.stackFn = append(I.stackFn, fn)
	fi := I.info(fn)
	fr := &frame{fn: fn, info: fi, env: make([]Value, fi.n), fv: env, caller: I.curFr}
	I.curFr = fr
	for i, p := range fn.Params {
		fr.env[fi.slots.of(p)] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.slots.of(p)] = env[i]
	}
	I.runFrame(fr)
	I.curFr = fr.caller
	I.depth--
	I.stackFn = I.stackFn[:len(I.stackFn)-1]
	return fr.result
}

func (I *Interp) runFrame(fr *frame) {
	depth, sl := I.depth, len(I.stackFn)
	gp := I.runBlocks(fr, fr.fn.Blocks[0])
	if gp == nil {
		return
	}
	// panicking
	I.depth = depth
	I.stackFn = I.stackFn[:sl]
	I.curFr = fr
	fr.pan = gp
	I.runDefers(fr)
	if fr.pan != nil {
		panic(fr.pan)
	}
	// recovered
	I.depth = depth
	I.stackFn = I.stackFn[:sl]
	I.curFr = fr
	if fr.fn.Recover != nil {
		if gp := I.runBlocks(fr, fr.fn.Recover); gp != nil {
			panic(gp)
		}
		return
	}
	// zero results
	res := fr.fn.Signature.Results()
	switch res.Len() {
	case 0:
		fr.result = nil
	case 1:
		fr.result = I.zero(res.At(0).Type())
	default:
		fr.result = I.zero(res)
	}
}

func (I *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(*goPanic); ok {
						fr.pan = gp
						return
					}
					panic(r)
				}
			}()
			I.curFr = fr
			d()
		}()
	}
}

// runBlocks executes from block b; a Go-level panic is returned, path ends propagate.
func (I *Interp) runBlocks(fr *frame, b *ssa.BasicBlock) (gp *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(*goPanic); ok {
				gp = g
				return
			}
			panic(r)
		}
	}()
	var prev *ssa.BasicBlock
	for {
		// phis first (parallel)
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				pi := 0
				for k, p := range b.Preds {
					if p == prev {
						pi = k
						break
					}
				}
				var vals []Value
				for i < len(b.Instrs) {
					ph, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, I.get(fr, ph.Edges[pi]))
					i++
				}
				for k := 0; k < i; k++ {
					I.set(fr, b.Instrs[k].(*ssa.Phi), vals[k])
				}
			}
		}
		I.steps += len(b.Instrs)
		if I.steps > I.maxStep {
			panic(pathEnd{"steps", "instruction budget exceeded in " + I.where()})
		}
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.If:
				if I.branch(I.term(fr, in.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = I.get(fr, in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for k, r := range in.Results {
						t[k] = I.get(fr, r)
					}
					fr.result = t
				}
				return nil
			case *ssa.Panic:
				panic(&goPanic{v: I.get(fr, in.X), where: I.where()})
			default:
				I.exec(fr, in)
			}
		}
		prev = b
		b = next
		if b == nil {
			panic(pathEnd{"unsupported", "block without successor in " + fr.fn.String()})
		}
	}
}

func (I *Interp) exec(fr *frame, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		s := new(Value)
		*s = I.zero(deref(in.Type()))
		I.set(fr, in, Ptr{p: s, base: I.initMode})
	case *ssa.UnOp:
		I.set(fr, in, I.unop(fr, in))
	case *ssa.BinOp:
		I.set(fr, in, I.binop(in.Op, in.X.Type(), in.Y.Type(), I.get(fr, in.X), I.get(fr, in.Y)))
	case *ssa.Store:
		I.store(I.get(fr, in.Addr).(Ptr), I.get(fr, in.Val))
	case *ssa.FieldAddr:
		p := I.get(fr, in.X).(Ptr)
		if p.p == nil {
			panic(I.rtPanic("invalid memory address or nil pointer dereference"))
		}
		sv, ok := (*p.p).(StructV)
		if !ok {
			panic(pathEnd{"unsupported", fmt.Sprintf("field of unmodelled object in %s", fr.fn)})
		}
		I.set(fr, in, Ptr{p: &sv[in.Field], base: p.base})
	case *ssa.Field:
		sv := I.get(fr, in.X).(StructV)
		I.set(fr, in, sv[in.Field])
	case *ssa.IndexAddr:
		I.set(fr, in, I.indexAddr(fr, in))
	case *ssa.Index:
		I.set(fr, in, I.index(fr, in))
	case *ssa.Call:
		I.set(fr, in, I.doCall(fr, &in.Call, instr))
	case *ssa.Defer:
		f := I.prepCall(fr, &in.Call)
		fr.defers = append(fr.defers, func() { f() })
	case *ssa.RunDefers:
		I.runDefers(fr)
		if fr.pan != nil {
			p := fr.pan
			panic(p)
		}
	case *ssa.Go:
		panic(pathEnd{"unsupported", "go statement in " + fr.fn.String()})
	case *ssa.Extract:
		I.set(fr, in, I.get(fr, in.Tuple).(Tuple)[in.Index])
	case *ssa.MakeInterface:
		I.set(fr, in, Iface{t: in.X.Type(), v: I.get(fr, in.X)})
	case *ssa.ChangeInterface:
		I.set(fr, in, I.get(fr, in.X))
	case *ssa.ChangeType:
		I.set(fr, in, I.get(fr, in.X))
	case *ssa.Convert:
		I.set(fr, in, I.convert(in.X.Type(), in.Type(), I.get(fr, in.X)))
	case *ssa.MultiConvert:
		I.set(fr, in, I.convert(in.X.Type(), in.Type(), I.get(fr, in.X)))
	case *ssa.SliceToArrayPointer:
		sl := I.get(fr, in.X).(SliceV)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if n > len(sl.e) {
			panic(I.rtPanic("cannot convert slice to array pointer"))
		}
		var v Value = ArrayV(sl.e[:n:n])
		I.set(fr, in, Ptr{p: &v, base: sl.base})
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = I.get(fr, b)
		}
		I.set(fr, in, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeMap:
		I.set(fr, in, &MapV{idx: map[string]*mapEntry{}, base: I.initMode})
	case *ssa.MakeSlice:
		n := I.makeLen(I.term(fr, in.Len), in.Len.Type(), "makeslice: len out of range")
		c := I.makeLen(I.term(fr, in.Cap), in.Cap.Type(), "makeslice: cap out of range")
		if n > c {
			panic(I.rtPanic("makeslice: cap out of range"))
		}
		I.set(fr, in, I.newSlice(in.Type().Underlying().(*types.Slice).Elem(), n, c))
	case *ssa.Slice:
		I.set(fr, in, I.sliceOp(fr, in))
	case *ssa.Lookup:
		I.set(fr, in, I.lookup(fr, in))
	case *ssa.MapUpdate:
		m := I.get(fr, in.Map).(*MapV)
		if m == nil {
			panic(I.rtPanic("assignment to entry in nil map"))
		}
		I.touch(m, true)
		I.mapSet(m, I.get(fr, in.Key), I.get(fr, in.Value))
	case *ssa.Range:
		x := I.get(fr, in.X)
		switch v := x.(type) {
		case Str:
			I.slen(v)
			I.set(fr, in, &mapIter{isS: true, str: v})
		case *MapV:
			it := &mapIter{m: v}
			if v != nil {
				I.touch(v, false)
				it.ord = append([]*mapEntry(nil), v.ents...)
				if I.flags["maporder"] == 1 && len(it.ord) > 1 && !I.initMode {
					it.ord = I.permute(it.ord)
				}
			}
			I.set(fr, in, it)
		default:
			panic(pathEnd{"unsupported", "range over " + in.X.Type().String()})
		}
	case *ssa.Next:
		I.set(fr, in, I.next(fr, in))
	case *ssa.TypeAssert:
		I.set(fr, in, I.typeAssert(fr, in))
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		panic(pathEnd{"unsupported", "channel operation in " + fr.fn.String()})
	default:
		panic(pathEnd{"unsupported", fmt.Sprintf("instruction %T in %s", instr, fr.fn)})
	}
}

// permute forks over all iteration orders of a (small) map.
func (I *Interp) permute(e []*mapEntry) []*mapEntry {
	rest := append([]*mapEntry(nil), e...)
	var out []*mapEntry
	for len(rest) > 1 {
		v := I.newVar(Sort(8), "maporder")
		I.assume(I.tt.ULt(v, I.tt.BV(8, uint64(len(rest)))))
		k := int(I.concretize(v))
		out = append(out, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return append(out, rest...)
}

func (I *Interp) makeLen(t *Term, typ types.Type, msg string) int {
	_, signed, _ := intInfo(typ)
	n := I.tt.Resize(t, 64, signed)
	lim := I.tt.BV(64, 1<<20)
	if I.branch(I.tt.ULe(n, lim)) {
		return int(I.concretize(n))
	}
	if I.branch(I.tt.SLt(n, I.tt.BV(64, 0))) {
		panic(I.rtPanic(msg))
	}
	panic(pathEnd{"unsupported", "allocation larger than 1M elements"})
}

func (I *Interp) newSlice(elem types.Type, n, c int) SliceV {
	e := make([]Value, c)
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range e {
			e[i] = I.zero(elem)
		}
	default:
		if c > 0 {
			z := I.zero(elem)
			for i := range e {
				e[i] = z
			}
		}
	}
	return SliceV{e: e[:n], base: I.initMode}
}

func (I *Interp) unop(fr *frame, in *ssa.UnOp) Value {
	x := I.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		return I.load(x.(Ptr))
	case token.NOT:
		return I.tt.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.sort < 0 {
			return I.tt.FUn(OFNeg, t)
		}
		return I.tt.Neg(t)
	case token.XOR:
		return I.tt.BNot(x.(*Term))
	}
	panic(pathEnd{"unsupported", "unop " + in.Op.String()})
}

func (I *Interp) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	tt := I.tt
	switch op {
	case token.EQL:
		return I.eqOp(xt, yt, x, y)
	case token.NEQ:
		return tt.Not(I.eqOp(xt, yt, x, y))
	}
	if isString(xt) {
		a, b := x.(Str), y.(Str)
		switch op {
		case token.ADD:
			return I.sconcat(a, b)
		case token.LSS:
			return I.slt(a, b)
		case token.GTR:
			return I.slt(b, a)
		case token.LEQ:
			return tt.Not(I.slt(b, a))
		case token.GEQ:
			return tt.Not(I.slt(a, b))
		}
	}
	a, okA := x.(*Term)
	b, okB := y.(*Term)
	if !okA || !okB {
		panic(pathEnd{"unsupported", fmt.Sprintf("binop %s on %v", op, xt)})
	}
	if s, ok := floatSort(xt); ok {
		_ = s
		switch op {
		case token.ADD:
			return tt.FBin(OFAdd, a, b)
		case token.SUB:
			return tt.FBin(OFSub, a, b)
		case token.MUL:
			return tt.FBin(OFMul, a, b)
		case token.QUO:
			return tt.FBin(OFDiv, a, b)
		case token.LSS:
			return tt.FCmp(OFLt, a, b)
		case token.LEQ:
			return tt.FCmp(OFLe, a, b)
		case token.GTR:
			return tt.FCmp(OFLt, b, a)
		case token.GEQ:
			return tt.FCmp(OFLe, b, a)
		}
	}
	w, signed, ok := intInfo(xt)
	if !ok {
		panic(pathEnd{"unsupported", fmt.Sprintf("binop %s on %v", op, xt)})
	}
	switch op {
	case token.ADD:
		return tt.Bin(OAdd, a, b)
	case token.SUB:
		return tt.Bin(OSub, a, b)
	case token.MUL:
		return tt.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if I.branch(tt.Eq(b, tt.BV(w, 0))) {
			panic(I.rtPanic("integer divide by zero"))
		}
		switch {
		case op == token.QUO && signed:
			return tt.Bin(OSDiv, a, b)
		case op == token.QUO:
			return tt.Bin(OUDiv, a, b)
		case signed:
			return tt.Bin(OSRem, a, b)
		}
		return tt.Bin(OURem, a, b)
	case token.AND:
		return tt.Bin(OBAnd, a, b)
	case token.OR:
		return tt.Bin(OBOr, a, b)
	case token.XOR:
		return tt.Bin(OBXor, a, b)
	case token.AND_NOT:
		return tt.Bin(OBAnd, a, tt.BNot(b))
	case token.SHL, token.SHR:
		yw, ysigned, _ := intInfo(yt)
		if ysigned {
			if I.branch(tt.SLt(b, tt.BV(yw, 0))) {
				panic(I.rtPanic("negative shift amount"))
			}
		}
		var cnt *Term
		if yw > w {
			cnt = tt.Ite(tt.ULt(b, tt.BV(yw, uint64(w))), tt.Extract(b, w-1, 0), tt.BV(w, uint64(w)))
		} else {
			cnt = tt.ZExt(b, w)
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if signed {
				o = OAShr
			}
		}
		return tt.Bin(o, a, cnt)
	case token.LSS:
		if signed {
			return tt.SLt(a, b)
		}
		return tt.ULt(a, b)
	case token.LEQ:
		if signed {
			return tt.SLe(a, b)
		}
		return tt.ULe(a, b)
	case token.GTR:
		if signed {
			return tt.SLt(b, a)
		}
		return tt.ULt(b, a)
	case token.GEQ:
		if signed {
			return tt.SLe(b, a)
		}
		return tt.ULe(b, a)
	}
	panic(pathEnd{"unsupported", "binop " + op.String()})
}

func (I *Interp) eqOp(xt, yt types.Type, x, y Value) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		y = Iface{t: yt, v: y}
	} else if yi && !xi {
		x = Iface{t: xt, v: x}
	}
	return I.eqVal(x, y)
}

// symbolic index handling: bounds check forks; the element choice forks unless an ITE read is possible
func (I *Interp) boundIndex(t *Term, typ types.Type, n int) *Term {
	_, signed, _ := intInfo(typ)
	i := I.tt.Resize(t, 64, signed)
	if i.isConst() {
		if i.v >= uint64(n) {
			panic(I.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.v), n)))
		}
		return i
	}
	if !I.branch(I.tt.ULt(i, I.tt.BV(64, uint64(n)))) {
		panic(I.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n)))
	}
	return i
}

func (I *Interp) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := I.get(fr, in.X)
	idx := I.term(fr, in.Index)
	switch v := x.(type) {
	case SliceV:
		i := I.boundIndex(idx, in.Index.Type(), len(v.e))
		if !i.isConst() {
			if p, ok := I.iteRead(in, v.e, i); ok {
				return p
			}
		}
		k := int(I.concretize(i))
		return Ptr{p: &v.e[k], arr: v.e[k:], base: v.base}
	case Ptr:
		if v.p == nil {
			panic(I.rtPanic("invalid memory address or nil pointer dereference"))
		}
		av := (*v.p).(ArrayV)
		i := I.boundIndex(idx, in.Index.Type(), len(av))
		if !i.isConst() {
			if p, ok := I.iteRead(in, av, i); ok {
				return p
			}
		}
		k := int(I.concretize(i))
		return Ptr{p: &av[k], arr: av[k:], base: v.base}
	}
	panic(pathEnd{"unsupported", "indexaddr on " + in.X.Type().String()})
}

// iteRead: &a[i] that is only ever loaded from reads a fresh cell holding an ITE chain.
func (I *Interp) iteRead(in *ssa.IndexAddr, e []Value, i *Term) (Value, bool) {
	if I.fp != nil {
		return nil, false
	}
	for _, r := range *in.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return nil, false
		}
	}
	t, ok := I.iteChain(e, i)
	if !ok {
		return nil, false
	}
	s := new(Value)
	*s = t
	return Ptr{p: s}, true
}

func (I *Interp) iteChain(e []Value, i *Term) (*Term, bool) {
	if len(e) == 0 || len(e) > 1024 {
		return nil, false
	}
	for _, v := range e {
		if _, ok := v.(*Term); !ok {
			return nil, false
		}
	}
	r := e[len(e)-1].(*Term)
	for k := len(e) - 2; k >= 0; k-- {
		r = I.tt.Ite(I.tt.Eq(i, I.tt.BV(64, uint64(k))), e[k].(*Term), r)
	}
	return r, true
}

func (I *Interp) index(fr *frame, in *ssa.Index) Value {
	x := I.get(fr, in.X)
	idx := I.term(fr, in.Index)
	switch v := x.(type) {
	case ArrayV:
		i := I.boundIndex(idx, in.Index.Type(), len(v))
		if !i.isConst() {
			if t, ok := I.iteChain(v, i); ok {
				return t
			}
		}
		return copyVal(v[I.concretize(i)])
	case Str:
		return I.strIndex(v, idx, in.Index.Type())
	}
	panic(pathEnd{"unsupported", "index on " + in.X.Type().String()})
}

func (I *Interp) strIndex(s Str, idx *Term, it types.Type) Value {
	i := I.boundIndex(idx, it, I.slen(s))
	if i.isConst() {
		return I.sat(s, int(i.v))
	}
	b := I.sbytes(s)
	e := make([]Value, len(b))
	for k := range b {
		e[k] = b[k]
	}
	if t, ok := I.iteChain(e, i); ok {
		return t
	}
	return I.sat(s, int(I.concretize(i)))
}

func (I *Interp) lookup(fr *frame, in *ssa.Lookup) Value {
	x := I.get(fr, in.X)
	if s, ok := x.(Str); ok {
		return I.strIndex(s, I.term(fr, in.Index), in.Index.Type())
	}
	m := x.(*MapV)
	k := I.get(fr, in.Index)
	if m != nil {
		I.touch(m, false)
	}
	e := I.mapFind(m, k)
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = I.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, I.tt.Bool(e != nil)}
	}
	return v
}

func (I *Interp) sliceOp(fr *frame, in *ssa.Slice) Value {
	x := I.get(fr, in.X)
	opt := func(v ssa.Value) (*Term, bool) {
		if v == nil {
			return nil, false
		}
		_, signed, _ := intInfo(v.Type())
		return I.tt.Resize(I.term(fr, v), 64, signed), true
	}
	lo, hasLo := opt(in.Low)
	hi, hasHi := opt(in.High)
	mx, hasMx := opt(in.Max)
	fix := func(t *Term, lim int) int {
		// 0 <= t <= lim
		if !I.branch(I.tt.ULe(t, I.tt.BV(64, uint64(lim)))) {
			panic(I.rtPanic(fmt.Sprintf("slice bounds out of range with capacity %d", lim)))
		}
		return int(I.concretize(t))
	}
	switch v := x.(type) {
	case Str:
		n := I.slen(v)
		h := n
		if hasHi {
			h = fix(hi, n)
		}
		l := 0
		if hasLo {
			l = fix(lo, h)
		}
		return I.sslice(v, l, h)
	case SliceV:
		c := cap(v.e)
		m := c
		if hasMx {
			m = fix(mx, c)
		}
		h := len(v.e)
		if hasHi {
			h = fix(hi, m)
		}
		l := 0
		if hasLo {
			l = fix(lo, h)
		}
		if v.e == nil {
			return SliceV{}
		}
		if hasMx {
			return SliceV{e: v.e[l:h:m], base: v.base}
		}
		return SliceV{e: v.e[l:h], base: v.base}
	case Ptr:
		if v.p == nil {
			panic(I.rtPanic("invalid memory address or nil pointer dereference"))
		}
		av := []Value((*v.p).(ArrayV))
		c := len(av)
		m := c
		if hasMx {
			m = fix(mx, c)
		}
		h := c
		if hasHi {
			h = fix(hi, m)
		}
		l := 0
		if hasLo {
			l = fix(lo, h)
		}
		if av == nil {
			av = []Value{}
		}
		return SliceV{e: av[l:h:m], base: v.base}
	}
	panic(pathEnd{"unsupported", "slice of " + in.X.Type().String()})
}

func (I *Interp) decodeRune(s Str, i int) (*Term, int) {
	b := I.sat(s, i)
	if I.branch(I.tt.ULt(b, I.tt.BV(8, 0x80))) {
		return I.tt.ZExt(b, 32), 1
	}
	end := min(i+4, I.slen(s))
	r := I.callStd("unicode/utf8", "DecodeRuneInString", []Value{I.sslice(s, i, end)}).(Tuple)
	return r[0].(*Term), I.cInt(r[1].(*Term))
}

func (I *Interp) next(fr *frame, in *ssa.Next) Value {
	it := I.get(fr, in.Iter).(*mapIter)
	tt := I.tt
	if it.isS {
		if it.i >= I.slen(it.str) {
			return Tuple{tt.False, tt.BV(64, 0), tt.BV(32, 0)}
		}
		p := it.i
		r, n := I.decodeRune(it.str, p)
		it.i += n
		return Tuple{tt.True, tt.BV(64, uint64(p)), r}
	}
	if it.m != nil {
		for it.i < len(it.ord) {
			e := it.ord[it.i]
			it.i++
			if e.deleted {
				continue
			}
			return Tuple{tt.True, copyVal(e.k), copyVal(e.v)}
		}
	}
	tup := in.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return I.zero(t)
	}
	return Tuple{tt.False, z(tup.At(1).Type()), z(tup.At(2).Type())}
}

func (I *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (I *Interp) typeAssert(fr *frame, in *ssa.TypeAssert) Value {
	x := I.get(fr, in.X).(Iface)
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = I.implements(x.t, it)
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = x.v
		}
	}
	if ok {
		v = copyVal(v)
	}
	if !ok {
		if !in.CommaOk {
			dyn := "nil"
			if x.t != nil {
				dyn = x.t.String()
			}
			panic(I.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, in.AssertedType)))
		}
		v = I.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, I.tt.Bool(ok)}
	}
	return v
}

// ---- calls ----

func (I *Interp) prepCall(fr *frame, c *ssa.CallCommon) func() Value {
	if c.IsInvoke() {
		recv := I.get(fr, c.Value)
		args := make([]Value, 0, len(c.Args)+1)
		for _, a := range c.Args {
			args = append(args, I.get(fr, a))
		}
		return func() Value { return I.invoke(recv, c.Method, args) }
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = I.get(fr, a)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return func() Value { return I.builtin(fr, f, c, args) }
	case *ssa.Function:
		return func() Value { return I.call(f, args, nil) }
	}
	cl, _ := I.get(fr, c.Value).(*Closure)
	return func() Value { return I.callClosure(cl, args) }
}

func (I *Interp) doCall(fr *frame, c *ssa.CallCommon, instr ssa.Instruction) Value {
	return I.prepCall(fr, c)()
}

func (I *Interp) invoke(recv Value, m *types.Func, args []Value) Value {
	x, ok := recv.(Iface)
	if !ok {
		panic(pathEnd{"unsupported", "invoke on non-interface"})
	}
	if x.t == nil {
		panic(I.rtPanic("invalid memory address or nil pointer dereference (nil interface)"))
	}
	if n, ok := x.v.(*Native); ok {
		return nativeInvoke(I, n, m.Name(), args)
	}
	mk := methKey{x.t, m}
	fn, okm := I.meths[mk]
	if !okm {
		fn = I.prog.method(x.t, m)
		I.meths[mk] = fn
	}
	if fn == nil {
		panic(pathEnd{"unsupported", fmt.Sprintf("method %s of %s", m.Name(), x.t)})
	}
	a := append([]Value{x.v}, args...)
	return I.call(fn, a, nil)
}

func (I *Interp) callStd(pkg, name string, args []Value) Value {
	fn := I.prog.stdFunc(pkg, name)
	if fn == nil {
		panic(pathEnd{"unsupported", "missing " + pkg + "." + name})
	}
	return I.call(fn, args, nil)
}

func (I *Interp) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	tt := I.tt
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return tt.BV(64, uint64(I.slen(x)))
		case SliceV:
			return tt.BV(64, uint64(len(x.e)))
		case *MapV:
			if x == nil {
				return tt.BV(64, 0)
			}
			I.touch(x, false)
			return tt.BV(64, uint64(x.n))
		case ArrayV:
			return tt.BV(64, uint64(len(x)))
		case Ptr:
			return tt.BV(64, uint64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return tt.BV(64, uint64(cap(x.e)))
		case ArrayV:
			return tt.BV(64, uint64(len(x)))
		}
	case "append":
		s := args[0].(SliceV)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			add = y.e
			I.touchAll(add)
		case Str:
			for _, t := range I.sbytes(y) {
				add = append(add, t)
			}
		}
		return I.appendVals(s, add, c.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			src = y.e
			I.touchAll(src)
		case Str:
			for _, t := range I.sbytes(y) {
				src = append(src, t)
			}
		}
		n := min(len(d.e), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			I.storeSlot(&d.e[i], tmp[i], d.base && !I.initMode)
		}
		return tt.BV(64, uint64(n))
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			I.touch(m, true)
		}
		if m != nil {
			I.mapDelete(m, args[1])
		}
		return nil
	case "panic":
		panic(&goPanic{v: args[0], where: I.where()})
	case "recover":
		// recover() called by a deferred function: the panicking frame is the caller of this frame
		p := fr.caller
		if p != nil && p.pan != nil {
			v := p.pan.v
			p.pan = nil
			if p.caller == nil && false {
				return v
			}
			if i, ok := v.(Iface); ok {
				return i
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.p == nil {
			panic(I.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			t := c.Args[0].Type()
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			x, okx := a.(*Term)
			y, oky := r.(*Term)
			if !okx || !oky || x.sort < 0 {
				panic(pathEnd{"unsupported", "min/max on " + t.String()})
			}
			r = tt.Ite(I.binop(op, t, t, x, y).(*Term), x, y)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				I.touch(x, true)
				I.mapTouch(x)
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents, x.idx, x.n, x.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
			return nil
		case SliceV:
			z := I.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x.e {
				I.storeSlot(&x.e[i], copyVal(z), x.base && !I.initMode)
			}
			return nil
		}
	case "String": // unsafe.String(ptr, len)
		n := I.cInt(tt.Resize(args[1].(*Term), 64, true))
		p := args[0].(Ptr)
		if n == 0 {
			return Str{}
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = p.arr[i].(*Term)
		}
		return mkStr(bs)
	case "SliceData":
		s := args[0].(SliceV)
		if len(s.e) == 0 {
			if cap(s.e) == 0 {
				return Ptr{}
			}
			e := s.e[:1]
			return Ptr{p: &e[0], arr: s.e[:cap(s.e)], base: s.base}
		}
		return Ptr{p: &s.e[0], arr: s.e[:cap(s.e)], base: s.base}
	case "StringData":
		bs := I.sbytes(args[0].(Str))
		sl := I.bytesToSlice(bs)
		if len(sl.e) == 0 {
			return Ptr{}
		}
		return Ptr{p: &sl.e[0], arr: sl.e}
	case "Slice":
		n := I.cInt(tt.Resize(args[1].(*Term), 64, true))
		p := args[0].(Ptr)
		if n == 0 {
			return SliceV{e: []Value{}}
		}
		return SliceV{e: p.arr[:n:n], base: p.base}
	}
	panic(pathEnd{"unsupported", "builtin " + b.Name()})
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need, esz int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return nc
	}
	mem := nc * esz
	i := sort.SearchInts(sizeClasses, mem)
	if i < len(sizeClasses) {
		mem = sizeClasses[i]
	} else {
		mem = (mem + 8191) &^ 8191
	}
	return mem / esz
}

func (I *Interp) appendVals(s SliceV, add []Value, elem types.Type) SliceV {
	n := len(s.e) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s.e) {
		e := s.e[:n]
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			I.storeSlot(&e[len(s.e)+i], v, s.base && !I.initMode)
		}
		return SliceV{e: e, base: s.base}
	}
	I.touchAll(s.e)
	c := growCap(cap(s.e), n, int(I.sizes.Sizeof(elem)))
	if c < n {
		c = n
	}
	e := make([]Value, c)
	for i := range s.e {
		e[i] = copyVal(s.e[i])
	}
	for i, v := range add {
		e[len(s.e)+i] = copyVal(v)
	}
	if c > n {
		switch elem.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := n; i < c; i++ {
				e[i] = I.zero(elem)
			}
		default:
			z := I.zero(elem)
			for i := n; i < c; i++ {
				e[i] = z
			}
		}
	}
	return SliceV{e: e[:n], base: I.initMode}
}

// ---- conversions ----

func (I *Interp) convert(from, to types.Type, x Value) Value {
	tt := I.tt
	uf, ut := from.Underlying(), to.Underlying()
	if ptr, ok := ut.(*types.Basic); ok && ptr.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	tw, tsigned, tint := intInfo(to)
	_ = tsigned
	_, fsigned, fint := intInfo(from)
	fs, ffl := floatSort(from)
	ts, tfl := floatSort(to)
	_ = fs
	switch {
	case fint && tint:
		return tt.Resize(x.(*Term), tw, fsigned)
	case fint && tfl:
		return tt.FFromInt(x.(*Term), ts, fsigned)
	case ffl && tfl:
		return tt.FToF(x.(*Term), ts)
	case ffl && tint:
		if !tsigned && tw == 64 {
			return tt.FToUint64(x.(*Term))
		}
		// gc/amd64: conversions to narrower integers truncate the 64-bit result
		if tsigned && tw == 32 {
			// CVTTSD2SL would give 0x80000000 out of range; gc uses the 64-bit form and truncates
			return tt.Resize(tt.FToInt64(x.(*Term)), 32, true)
		}
		return tt.Resize(tt.FToInt64(x.(*Term)), tw, true)
	}
	if isString(to) {
		if fint {
			r := tt.Resize(x.(*Term), 64, fsigned)
			return I.runeToStr(r)
		}
		if isString(from) {
			return x
		}
		if sl, ok := uf.(*types.Slice); ok {
			w, _, _ := intInfo(sl.Elem())
			if w == 8 {
				if sl, ok := x.(SliceV); ok {
					I.touchAll(sl.e)
				}
				return mkStr(I.bytesOf(x))
			}
			out := Str{}
			for _, e := range x.(SliceV).e {
				out = I.sconcat(out, I.runeToStr(tt.SExt(e.(*Term), 64)))
			}
			return out
		}
	}
	if isString(from) {
		if sl, ok := ut.(*types.Slice); ok {
			w, _, _ := intInfo(sl.Elem())
			s := x.(Str)
			if w == 8 {
				sv := I.bytesToSlice(I.sbytes(s))
				sv.base = I.initMode
				return sv
			}
			var e []Value
			for i := 0; i < I.slen(s); {
				r, n := I.decodeRune(s, i)
				e = append(e, r)
				i += n
			}
			if e == nil {
				e = []Value{}
			}
			return SliceV{e: e, base: I.initMode}
		}
	}
	if types.Identical(uf, ut) {
		return x
	}
	switch ut.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Struct, *types.Signature:
		return x
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("conversion %v -> %v", from, to)})
}

func (I *Interp) runeToStr(r *Term) Str {
	tt := I.tt
	if r.isConst() {
		v := int64(r.v)
		if v < 0 || v > 0x10FFFF {
			return cs("\ufffd")
		}
		return cs(string(rune(v)))
	}
	if I.branch(tt.ULt(r, tt.BV(64, 0x80))) {
		return mkStr([]*Term{tt.Extract(r, 7, 0)})
	}
	if I.branch(tt.ULt(tt.BV(64, 0x10FFFF), r)) {
		return cs("\ufffd")
	}
	sl := I.callStd("unicode/utf8", "AppendRune", []Value{SliceV{}, tt.Extract(r, 31, 0)})
	return mkStr(I.bytesOf(sl))
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

// vid identifies an SSA value (always a pointer) cheaply; the program keeps all of them alive.
func vid(v ssa.Value) uintptr { return (*[2]uintptr)(unsafe.Pointer(&v))[1] }

// slotTab maps the SSA values of a function to frame slots (open addressing).
type slotTab struct {
	keys  []uintptr
	vals  []int32
	shift uint
}

func newSlotTab(vals []ssa.Value) slotTab {
	bitsN := uint(3)
	for 1<<bitsN < 3*len(vals) {
		bitsN++
	}
	t := slotTab{keys: make([]uintptr, 1<<bitsN), vals: make([]int32, 1<<bitsN), shift: 64 - bitsN}
	for i, v := range vals {
		k := vid(v)
		h := uint64(k) * 0x9e3779b97f4a7c15 >> t.shift
		for t.keys[h] != 0 {
			h = (h + 1) & uint64(len(t.keys)-1)
		}
		t.keys[h], t.vals[h] = k, int32(i)
	}
	return t
}

func (t *slotTab) of(v ssa.Value) int32 {
	k := vid(v)
	h := uint64(k) * 0x9e3779b97f4a7c15 >> t.shift
	for t.keys[h] != k {
		if t.keys[h] == 0 {
			panic("engine: SSA value without slot")
		}
		h = (h + 1) & uint64(len(t.keys)-1)
	}
	return t.vals[h]
}
