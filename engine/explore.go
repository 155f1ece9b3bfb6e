package main

// Path exploration: a pool of workers, each with its own interpreter state and solver process,
// explores every feasible path of every harness (depth first, re-executing decision prefixes).

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Kind    string            `json:"kind"` // assert, panic, suspect
	Where   string            `json:"where"`
	Model   map[string]uint64 `json:"values"`
	Trace   []string          `json:"trace"`
	Flags   map[string]int    `json:"flags,omitempty"`

	Confirmed bool   `json:"confirmed"`
	Native    string `json:"native,omitempty"`
}

type Sample struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"values"`
	Trace   []string          `json:"trace"`
	Rand    bool              `json:"rand,omitempty"`
}

type Explorer struct {
	mu      sync.Mutex
	tier    int
	name    string
	fn      *ssa.Function
	notes   map[string]int
	reached map[string]int
	viols   map[string][]*Violation
	samples []*Sample
	probes  []*Sample // models of paths whose encoding ended early (unmodelled construct): run natively only
	probeN  map[string]int
	seen    int
	rnd     *rand.Rand

	pending  []task
	inflight int
	paths    int
	ends     map[string]int
	decs     int64
	steps    int64
	asserts  int64 // assertion instances decided by the solver or folded to true
	asserted int64 // of these: solver queries
	spent    time.Duration
	maxPaths int
	cut      bool
	approx   map[string]int
	flagsUsd map[string]int
}

type task struct {
	prefix []Dec
	model  Model
}

func newExplorer(name string, fn *ssa.Function, tier int, seed int64) *Explorer {
	h := fnv.New64a()
	h.Write([]byte(name))
	return &Explorer{tier: tier, name: name, fn: fn, notes: map[string]int{}, reached: map[string]int{}, viols: map[string][]*Violation{},
		probeN: map[string]int{}, ends: map[string]int{}, approx: map[string]int{}, flagsUsd: map[string]int{},
		rnd: rand.New(rand.NewSource(seed ^ int64(h.Sum64()))), pending: []task{{nil, Model{}}}}
}

func (e *Explorer) note(kind, msg string) {
	e.mu.Lock()
	e.notes[kind+": "+msg]++
	e.mu.Unlock()
}

func (e *Explorer) reach(l string) {
	e.mu.Lock()
	e.reached[l]++
	e.mu.Unlock()
}

const maxViolPerMsg = 4

func (e *Explorer) violation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if l := e.viols[v.Msg]; len(l) < maxViolPerMsg {
		e.viols[v.Msg] = append(l, v)
	}
}

func (I *Interp) addFact(c *Term) {
	if c.isConst() || I.facts[c] {
		return
	}
	if c.op == OAnd {
		I.addFact(c.a)
		I.addFact(c.b)
		return
	}
	I.facts[c] = true
	I.learn(c)
}

func (I *Interp) snapshot(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, n := range I.inputs {
		r[n] = m[n]
	}
	return r
}

func (I *Interp) renderTrace(ev *evaluator) []string {
	out := make([]string, 0, len(I.trace))
	for _, t := range I.trace {
		out = append(out, t.render(ev))
	}
	return out
}

func (I *Interp) recordViolation(kind, msg string, m Model) {
	fl := map[string]int{}
	for k, v := range I.flags {
		if len(k) < 5 || k[:5] != "once:" {
			fl[k] = v
		}
	}
	I.ex.violation(&Violation{Harness: I.ex.name, Msg: msg, Kind: kind, Where: I.where(), Model: I.snapshot(m), Trace: I.renderTrace(newEval(m)), Flags: fl})
}

// doAssert decides whether the path condition admits a value violating c.
func (I *Interp) doAssert(c *Term, msg string) {
	I.ex.mu.Lock()
	I.ex.asserts++
	I.ex.mu.Unlock()
	if v, ok := I.known(c); ok {
		if !v {
			I.recordViolation("assert", msg, I.model)
			panic(pathEnd{"violated", msg})
		}
		return
	}
	if I.pos < len(I.prefix) { // decided by the path this one forked from
		if d := I.prefix[I.pos]; d.viol {
			I.decs = append(I.decs, d)
			I.pos++
			I.assertPC(c)
		} else {
			I.addFact(c)
		}
		return
	}
	if v, ok := I.ivBool(c, 0); ok && v {
		I.addFact(c)
		return
	}
	I.checkDeadline()
	nc := I.tt.Not(c)
	violated := func() { // continue on the values that satisfy the assertion
		I.decs = append(I.decs, Dec{taken: true, viol: true})
		I.pos++
		I.assertPC(c)
	}
	if I.ev.eval(c) != 1 {
		I.recordViolation("assert", msg, I.model)
		res, m := I.check(c)
		if res != Sat {
			panic(pathEnd{"violated", msg})
		}
		I.setModel(m)
		violated()
		return
	}
	I.ex.mu.Lock()
	I.ex.asserted++
	I.ex.mu.Unlock()
	res, m := I.check(nc)
	switch res {
	case Sat:
		I.recordViolation("assert", msg, m)
		violated()
	case Unsat:
		I.addFact(c)
	default:
		I.ex.note("solver-unknown", "assertion not decided: "+msg)
		violated()
	}
}

type traceItem struct {
	kind  byte // R, O
	label string
	v     Value
}

func (t traceItem) render(ev *evaluator) string {
	if t.kind == 'R' {
		return "R:" + t.label
	}
	switch x := t.v.(type) {
	case *Term:
		v := ev.eval(x)
		return fmt.Sprintf("O:%s=%d", t.label, v)
	case Str:
		if x.opq {
			return "O:" + t.label + "=?"
		}
		if x.b == nil {
			return fmt.Sprintf("O:%s=%x", t.label, x.s)
		}
		b := make([]byte, len(x.b))
		for i := range b {
			b[i] = byte(ev.eval(x.b[i]))
		}
		return fmt.Sprintf("O:%s=%x", t.label, b)
	}
	return "O:" + t.label + "=?"
}

// runPath executes one path of the harness.
func (I *Interp) runPath(ex *Explorer, t task, maxStep int) {
	I.ex = ex
	I.maxStep = maxStep
	I.beginPath(t.prefix, t.model)
	var end pathEnd
	var gp *goPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x
				case *goPanic:
					gp = x
				default:
					if os.Getenv("VZ_CRASH") != "" {
						panic(r)
					}
					end = pathEnd{"internal", fmt.Sprintf("%v in %s", r, I.where())}
				}
			}
		}()
		I.call(ex.fn, nil, nil)
		end = pathEnd{"done", ""}
	}()
	if gp != nil {
		end = pathEnd{"panic", panicText(gp)}
		I.recordViolation("panic", "uncaught panic: "+panicText(gp)+" @ "+gp.where, I.model)
	}
	var sm *Sample
	switch end.kind {
	case "done":
		sm = &Sample{Harness: ex.name, Model: I.snapshot(I.model), Trace: I.renderTrace(I.ev), Rand: I.flags["rand"] == 1}
	case "steps", "depth":
		I.recordViolation("suspect", "does not terminate within budget ("+end.kind+")", I.model)
	}
	ex.mu.Lock()
	ex.paths++
	ex.ends[end.kind]++
	ex.decs += int64(len(I.decs))
	ex.steps += int64(I.steps)
	for k, v := range I.approx {
		ex.approx[k] += v
	}
	for k, v := range I.flags {
		if len(k) < 5 || k[:5] != "once:" {
			ex.flagsUsd[k] = v
		}
	}
	if sm != nil {
		ex.seen++
		if len(ex.samples) < maxSamples {
			ex.samples = append(ex.samples, sm)
		} else if k := ex.rnd.Intn(ex.seen); k < maxSamples {
			ex.samples[k] = sm
		}
	}
	ex.mu.Unlock()
	if end.kind == "unsupported" || end.kind == "budget" || end.kind == "internal" || end.kind == "unknown" {
		ex.note(end.kind, end.msg)
		ex.mu.Lock()
		if k := end.kind + end.msg; end.kind != "budget" && ex.probeN[k] < 12 && len(ex.probes) < 60 {
			ex.probeN[k]++
			ex.probes = append(ex.probes, &Sample{Harness: ex.name, Model: I.snapshot(I.model), Rand: I.flags["rand"] == 1})
		}
		ex.mu.Unlock()
	}
	I.endPath()
}

var maxSamples = 24

func panicText(gp *goPanic) string {
	v := gp.v
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if s, ok := v.(Str); ok && s.concrete() {
		return s.s
	}
	if p, ok := v.(Ptr); ok && p.p != nil {
		if sv, ok := (*p.p).(StructV); ok && len(sv) > 0 {
			if s, ok := sv[0].(Str); ok && s.concrete() {
				return s.s
			}
		}
	}
	return "panic"
}

// ---- pool ----

type Pool struct {
	mu       sync.Mutex
	cond     *sync.Cond
	P        *Program
	exs      []*Explorer
	deadline time.Time
	maxStep  int
	waiting  int
	workers  int
	solver   string
	timeout  int
	stats    []Solver
	seenFn   map[string]bool
	stubs    map[string]int
	initErr  []string
	initDur  time.Duration
}

func (pl *Pool) next() (*Explorer, task, bool) {
	pl.mu.Lock()
	defer pl.mu.Unlock()
	for {
		if time.Now().After(pl.deadline) {
			return nil, task{}, false
		}
		var best *Explorer
		busy := false
		for _, e := range pl.exs {
			if e.inflight > 0 {
				busy = true
			}
			if len(e.pending) == 0 {
				continue
			}
			if best == nil || e.inflight < best.inflight || e.inflight == best.inflight && e.spent < best.spent {
				best = e
			}
		}
		if best != nil {
			n := len(best.pending) - 1
			t := best.pending[n]
			best.pending = best.pending[:n]
			best.inflight++
			return best, t, true
		}
		if !busy {
			pl.cond.Broadcast()
			return nil, task{}, false
		}
		pl.waiting++
		pl.cond.Wait()
		pl.waiting--
	}
}

func (pl *Pool) worker() {
	I := NewInterp(pl.P, pl.solver, pl.timeout)
	defer func() { I.closeSolvers() }()
	t0 := time.Now()
	if err := I.initPackages(); err != nil {
		pl.mu.Lock()
		pl.initErr = append(pl.initErr, err.Error())
		pl.mu.Unlock()
		return
	}
	pl.mu.Lock()
	if d := time.Since(t0); d > pl.initDur {
		pl.initDur = d
	}
	pl.mu.Unlock()
	I.deadline = pl.deadline
	for {
		ex, t, ok := pl.next()
		if !ok {
			break
		}
		start := time.Now()
		local := []task{t}
		I.onAlt = func(d []Dec, m Model) { local = append(local, task{d, m}) }
		for n := 0; len(local) > 0; n++ {
			now := time.Now()
			if now.After(pl.deadline) || now.Sub(start) > 2*time.Second {
				break
			}
			k := len(local) - 1
			cur := local[k]
			local = local[:k]
			I.runPath(ex, cur, pl.maxStep)
			if ex.maxPaths > 0 && ex.paths >= ex.maxPaths {
				ex.cut = true
				ex.mu.Lock()
				ex.notes["path-limit: exploration cut off"]++
				ex.mu.Unlock()
				local = nil
				pl.mu.Lock()
				ex.pending = nil
				pl.mu.Unlock()
				break
			}
			if len(local) > 1 {
				pl.mu.Lock()
				if pl.waiting > 0 {
					h := len(local) / 2
					ex.pending = append(ex.pending, local[:h]...)
					local = append([]task(nil), local[h:]...)
					pl.cond.Broadcast()
				}
				pl.mu.Unlock()
			}
			if I.tt.next > 4000000 {
				break
			}
		}
		pl.mu.Lock()
		ex.pending = append(ex.pending, local...)
		ex.inflight--
		ex.spent += time.Since(start)
		pl.cond.Broadcast()
		pl.mu.Unlock()
		if I.tt.next > 4000000 {
			pl.absorb(I)
			I.closeSolvers()
			I = NewInterp(pl.P, pl.solver, pl.timeout)
			if err := I.initPackages(); err != nil {
				return
			}
			I.deadline = pl.deadline
		}
	}
	pl.absorb(I)
}

func (pl *Pool) absorb(I *Interp) {
	pl.mu.Lock()
	defer pl.mu.Unlock()
	for _, sol := range []*Solver{I.sol, I.sol2} {
		if sol != nil {
			pl.stats = append(pl.stats, Solver{kind: sol.kind, Queries: sol.Queries, NSat: sol.NSat, NUnsat: sol.NUnsat, NUnk: sol.NUnk, NErr: sol.NErr, Time: sol.Time, MaxTime: sol.MaxTime})
		}
	}
	for f := range I.seenFn {
		pl.seenFn[f.String()] = true
	}
	for k, v := range I.stubs {
		pl.stubs[k] += v
	}
}

func (pl *Pool) run() {
	pl.cond = sync.NewCond(&pl.mu)
	pl.seenFn = map[string]bool{}
	pl.stubs = map[string]int{}
	var wg sync.WaitGroup
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
				pl.mu.Lock()
				pl.cond.Broadcast()
				pl.mu.Unlock()
			}
		}
	}()
	for i := 0; i < pl.workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); pl.worker() }()
	}
	wg.Wait()
	close(stop)
	for _, e := range pl.exs {
		if len(e.pending) > 0 {
			e.cut = true
			e.notes[fmt.Sprintf("time-limit: exploration cut off with %d open branches", len(e.pending))]++
		}
	}
}

// ---- package initialisation ----

func (I *Interp) initPackages() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				err = fmt.Errorf("init: %s %s", x.kind, x.msg)
			case *goPanic:
				err = fmt.Errorf("init: panic %s at %s", panicText(x), x.where)
			default:
				panic(r)
			}
		}
	}()
	I.beginPath(nil, Model{})
	I.ex = newExplorer("init", nil, 0, 0)
	I.initMode = true
	I.maxStep = 1 << 40
	I.runInit(I.prog.pkg, map[*ssa.Package]bool{})
	I.initMode = false
	I.undo = nil
	return nil
}

func (I *Interp) runInit(p *ssa.Package, done map[*ssa.Package]bool) {
	if done[p] {
		return
	}
	done[p] = true
	imps := p.Pkg.Imports()
	sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
	for _, im := range imps {
		if q := I.prog.prog.Package(im); q != nil && I.prog.initReach(q) {
			I.runInit(q, done)
		}
	}
	if !I.prog.initOK(p) {
		return
	}
	if f := p.Func("init"); f != nil {
		I.curInit = f
		I.call(f, nil, nil)
	}
}
