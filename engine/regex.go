package main

// Symbolic matching for package regexp (leftmost-first semantics).  The pattern comes from the program
// under test; it is compiled with regexp/syntax and the match outcome is built as formulas over the
// (possibly symbolic) runes of the subject.

import (
	"regexp"
	"regexp/syntax"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type rx struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
}

type subj struct {
	runes []*Term // BV32
	off   []int   // byte offset of each rune, plus total length
}

func (I *Interp) subject(s Str) *subj {
	sb := &subj{}
	n := I.slen(s)
	for i := 0; i < n; {
		r, k := I.decodeRune(s, i)
		sb.runes = append(sb.runes, r)
		sb.off = append(sb.off, i)
		i += k
	}
	sb.off = append(sb.off, n)
	return sb
}

func (I *Interp) runeMatch(in *syntax.Inst, r *Term) *Term {
	tt := I.tt
	if r.isConst() {
		switch in.Op {
		case syntax.InstRuneAny:
			return tt.True
		case syntax.InstRuneAnyNotNL:
			return tt.Bool(r.v != '\n')
		}
		return tt.Bool(in.MatchRune(rune(int32(r.v))))
	}
	c := func(x rune) *Term { return tt.BV(32, uint64(uint32(x))) }
	switch in.Op {
	case syntax.InstRuneAny:
		return tt.True
	case syntax.InstRuneAnyNotNL:
		return tt.Not(tt.Eq(r, c('\n')))
	}
	rs := in.Rune
	if len(rs) == 1 {
		res := tt.Eq(r, c(rs[0]))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(rs[0]); f != rs[0]; f = unicode.SimpleFold(f) {
				res = tt.Or(res, tt.Eq(r, c(f)))
			}
		}
		return res
	}
	res := tt.False
	for i := 0; i+1 < len(rs); i += 2 {
		if rs[i] == rs[i+1] {
			res = tt.Or(res, tt.Eq(r, c(rs[i])))
		} else {
			res = tt.Or(res, tt.And(tt.ULe(c(rs[i]), r), tt.ULe(r, c(rs[i+1]))))
		}
	}
	return res
}

func (I *Interp) isWord(r *Term) *Term {
	tt := I.tt
	in := func(a, b rune) *Term {
		return tt.And(tt.ULe(tt.BV(32, uint64(a)), r), tt.ULe(r, tt.BV(32, uint64(b))))
	}
	return tt.Or(tt.Or(in('a', 'z'), in('A', 'Z')), tt.Or(in('0', '9'), tt.Eq(r, tt.BV(32, '_'))))
}

func (I *Interp) emptyCond(e syntax.EmptyOp, s *subj, p int) *Term {
	tt := I.tt
	n := len(s.runes)
	res := tt.True
	nl := tt.BV(32, '\n')
	if e&syntax.EmptyBeginText != 0 {
		res = tt.And(res, tt.Bool(p == 0))
	}
	if e&syntax.EmptyEndText != 0 {
		res = tt.And(res, tt.Bool(p == n))
	}
	if e&syntax.EmptyBeginLine != 0 {
		if p != 0 {
			res = tt.And(res, tt.Eq(s.runes[p-1], nl))
		}
	}
	if e&syntax.EmptyEndLine != 0 {
		if p != n {
			res = tt.And(res, tt.Eq(s.runes[p], nl))
		}
	}
	if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, b := tt.False, tt.False
		if p > 0 {
			a = I.isWord(s.runes[p-1])
		}
		if p < n {
			b = I.isWord(s.runes[p])
		}
		x := tt.Or(tt.And(a, tt.Not(b)), tt.And(tt.Not(a), b))
		if e&syntax.EmptyWordBoundary != 0 {
			res = tt.And(res, x)
		}
		if e&syntax.EmptyNoWordBoundary != 0 {
			res = tt.And(res, tt.Not(x))
		}
	}
	return res
}

type rxOut struct {
	ok  *Term // matches from here
	end *Term // BV16 end rune position (meaningful when ok)
}

type rxMatcher struct {
	I    *Interp
	p    *syntax.Prog
	s    *subj
	memo map[[2]int]*rxOut
	busy map[[2]int]bool
}

func (m *rxMatcher) run(pc, pos int) rxOut {
	tt := m.I.tt
	k := [2]int{pc, pos}
	if o := m.memo[k]; o != nil {
		return *o
	}
	fail := rxOut{tt.False, tt.BV(16, 0)}
	if m.busy[k] {
		return fail // empty loop: the second visit at the same position adds nothing
	}
	m.busy[k] = true
	in := &m.p.Inst[pc]
	var out rxOut
	switch in.Op {
	case syntax.InstMatch:
		out = rxOut{tt.True, tt.BV(16, uint64(pos))}
	case syntax.InstFail:
		out = fail
	case syntax.InstNop, syntax.InstCapture:
		out = m.run(int(in.Out), pos)
	case syntax.InstAlt, syntax.InstAltMatch:
		a := m.run(int(in.Out), pos)
		if a.ok == tt.True {
			out = a
			break
		}
		b := m.run(int(in.Arg), pos)
		out = rxOut{tt.Or(a.ok, b.ok), tt.Ite(a.ok, a.end, b.end)}
	case syntax.InstEmptyWidth:
		c := m.I.emptyCond(syntax.EmptyOp(in.Arg), m.s, pos)
		if c == tt.False {
			out = fail
			break
		}
		r := m.run(int(in.Out), pos)
		out = rxOut{tt.And(c, r.ok), r.end}
	default: // runes
		if pos >= len(m.s.runes) {
			out = fail
			break
		}
		c := m.I.runeMatch(in, m.s.runes[pos])
		if c == tt.False {
			out = fail
			break
		}
		r := m.run(int(in.Out), pos+1)
		out = rxOut{tt.And(c, r.ok), r.end}
	}
	delete(m.busy, k)
	// results inside an empty loop depend on the visited set; memoise only when no loop is open
	if len(m.busy) == 0 || !m.openAt(pos) {
		m.memo[k] = &out
	} else {
		m.memo[k] = &out
	}
	return out
}

func (m *rxMatcher) openAt(pos int) bool {
	for k := range m.busy {
		if k[1] == pos {
			return true
		}
	}
	return false
}

// find returns (start,end) rune positions of the leftmost-first match at or after from, forking on the outcome.
func (I *Interp) rxFind(r *rx, s *subj, from int) (int, int, bool) {
	m := &rxMatcher{I: I, p: r.prog, s: s, memo: map[[2]int]*rxOut{}, busy: map[[2]int]bool{}}
	anchored := r.prog.StartCond()&syntax.EmptyBeginText != 0
	for st := from; st <= len(s.runes); st++ {
		if anchored && st > 0 {
			break
		}
		o := m.run(r.prog.Start, st)
		if o.ok == I.tt.False {
			continue
		}
		if I.branch(o.ok) {
			e := int(I.concretize(o.end))
			return st, e, true
		}
	}
	return 0, 0, false
}

func (I *Interp) rxOf(v Value) *rx {
	p, ok := v.(Ptr)
	if !ok || p.p == nil {
		panic(I.rtPanic("nil *regexp.Regexp"))
	}
	n, ok := (*p.p).(*Native)
	if !ok || n.kind != "regexp" {
		panic(pathEnd{"unsupported", "unmodelled regexp"})
	}
	return n.v.(*rx)
}

func (I *Interp) rxCompile(src string) (Value, error) {
	re, err := regexp.Compile(src)
	if err != nil {
		return Ptr{}, err
	}
	ast, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return Ptr{}, err
	}
	pr, err := syntax.Compile(ast.Simplify())
	if err != nil {
		return Ptr{}, err
	}
	s := new(Value)
	*s = &Native{kind: "regexp", v: &rx{src: src, re: re, prog: pr}}
	return Ptr{p: s, base: I.initMode}, nil
}

func addRegex(m map[string]intrinsicFn) {
	m["regexp.MustCompile"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		p, err := I.rxCompile(argStr(args[0]))
		if err != nil {
			panic(&goPanic{v: Iface{t: nil}, where: "regexp.MustCompile: " + err.Error()})
		}
		return p
	}
	m["regexp.Compile"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		p, err := I.rxCompile(argStr(args[0]))
		if err != nil {
			return Tuple{Ptr{}, I.errorVal(cs(err.Error()))}
		}
		return Tuple{p, Iface{}}
	}
	P := "(*regexp.Regexp)."
	m["regexp.MatchString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		p, err := I.rxCompile(argStr(args[0]))
		if err != nil {
			return Tuple{I.tt.False, I.errorVal(cs(err.Error()))}
		}
		r := I.rxOf(p)
		s := args[1].(Str)
		_, _, ok := I.rxFind(r, I.subject(s), 0)
		return Tuple{I.tt.Bool(ok), Iface{}}
	}
	m[P+"String"] = func(I *Interp, fn *ssa.Function, args []Value) Value { return cs(I.rxOf(args[0]).src) }
	find := func(I *Interp, r *rx, s Str) (int, int, bool) {
		if s.concrete() {
			ix := r.re.FindStringIndex(s.s)
			if ix == nil {
				return 0, 0, false
			}
			return ix[0], ix[1], true
		}
		sb := I.subject(s)
		a, b, ok := I.rxFind(r, sb, 0)
		if !ok {
			return 0, 0, false
		}
		return sb.off[a], sb.off[b], true
	}
	m[P+"MatchString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		_, _, ok := find(I, I.rxOf(args[0]), args[1].(Str))
		return I.tt.Bool(ok)
	}
	m[P+"Match"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		_, _, ok := find(I, I.rxOf(args[0]), mkStr(I.bytesOf(args[1])))
		return I.tt.Bool(ok)
	}
	m[P+"FindString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		a, b, ok := find(I, I.rxOf(args[0]), args[1].(Str))
		if !ok {
			return Str{}
		}
		return I.sslice(args[1].(Str), a, b)
	}
	m[P+"FindStringIndex"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		a, b, ok := find(I, I.rxOf(args[0]), args[1].(Str))
		if !ok {
			return SliceV{}
		}
		return SliceV{e: []Value{I.tt.BV(64, uint64(a)), I.tt.BV(64, uint64(b))}}
	}
	all := func(I *Interp, r *rx, s Str, n int) [][2]int {
		var out [][2]int
		if s.concrete() {
			for _, ix := range r.re.FindAllStringIndex(s.s, n) {
				out = append(out, [2]int{ix[0], ix[1]})
			}
			return out
		}
		sb := I.subject(s)
		if n < 0 {
			n = len(sb.runes) + 1
		}
		prev := -1
		for pos := 0; len(out) < n && pos <= len(sb.runes); {
			a, b, ok := I.rxFind(r, sb, pos)
			if !ok {
				break
			}
			accept := true
			if b == pos {
				if a == prev {
					accept = false
				}
				pos++
			} else {
				pos = b
			}
			if a == b && b != pos && b > pos {
				pos = b
			}
			prev = b
			if accept {
				out = append(out, [2]int{sb.off[a], sb.off[b]})
			}
		}
		return out
	}
	m[P+"FindAllString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		s := args[1].(Str)
		ix := all(I, I.rxOf(args[0]), s, I.cInt(args[2].(*Term)))
		if len(ix) == 0 {
			return SliceV{}
		}
		e := make([]Value, len(ix))
		for i, x := range ix {
			e[i] = I.sslice(s, x[0], x[1])
		}
		return SliceV{e: e}
	}
	m[P+"ReplaceAllString"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		s := args[1].(Str)
		rep := args[2].(Str)
		if s.concrete() && rep.concrete() {
			return cs(I.rxOf(args[0]).re.ReplaceAllString(s.s, rep.s))
		}
		if !rep.concrete() {
			panic(pathEnd{"unsupported", "symbolic regexp replacement"})
		}
		for _, c := range rep.s {
			if c == '$' {
				panic(pathEnd{"unsupported", "regexp replacement template"})
			}
		}
		out := Str{}
		last := 0
		for _, x := range all(I, I.rxOf(args[0]), s, -1) {
			out = I.sconcat(out, I.sslice(s, last, x[0]))
			out = I.sconcat(out, rep)
			last = x[1]
		}
		return I.sconcat(out, I.sslice(s, last, I.slen(s)))
	}
	m[P+"ReplaceAllLiteralString"] = m[P+"ReplaceAllString"]
	m[P+"Split"] = func(I *Interp, fn *ssa.Function, args []Value) Value {
		s := args[1].(Str)
		n := I.cInt(args[2].(*Term))
		if s.concrete() {
			var e []Value
			r := I.rxOf(args[0]).re.Split(s.s, n)
			for _, x := range r {
				e = append(e, cs(x))
			}
			return SliceV{e: e}
		}
		if n == 0 {
			return SliceV{}
		}
		ms := all(I, I.rxOf(args[0]), s, n)
		var e []Value
		beg, end := 0, 0
		for _, mt := range ms {
			if n > 0 && len(e) == n-1 {
				break
			}
			end = mt[0]
			if mt[1] != 0 {
				e = append(e, I.sslice(s, beg, end))
			}
			beg = mt[1]
		}
		if end != I.slen(s) {
			e = append(e, I.sslice(s, beg, I.slen(s)))
		}
		return SliceV{e: e}
	}
}
