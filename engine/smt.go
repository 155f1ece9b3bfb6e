package main

// One persistent SMT solver process, driven over SMT-LIB2 with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Sat Result = iota
	Unsat
	Unknown
)

type Solver struct {
	kind     string // z3-new, z3, cvc5
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	stack    []*Term   // asserted path conjuncts, one level each
	levels   [][]*Term // terms defined at each level (level 0 = base)
	defined  map[*Term]bool
	vars     map[*Term]bool
	varList  []*Term
	Queries  int
	NSat     int
	NUnsat   int
	NUnk     int
	NErr     int
	Time     time.Duration
	MaxTime  time.Duration
	dead     bool
	timeout  int // ms; queries it leaves open go to a fresh solver
	slow     int // ms, timeout of the fresh solver
	oneShot  bool
	tail     [6]string // last commands, for diagnosing solver errors
	ntail    int
	OneShots int
	log      *os.File
}

func NewSolver(kind string, timeoutMs int) *Solver {
	s := &Solver{kind: kind, timeout: 400, slow: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	var cmd *exec.Cmd
	switch s.kind {
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--fp-exp", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout))
	default:
		cmd = exec.Command(s.kind, "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		fatal("solver %s: %v", s.kind, err)
	}
	s.cmd, s.inRaw, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.levels = [][]*Term{nil}
	s.defined = map[*Term]bool{}
	s.vars = map[*Term]bool{}
	s.varList = nil
	s.dead = false
	s.send("(set-option :produce-models true)\n")
	if s.kind != "cvc5" {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	s.send("(set-logic ALL)\n")
}

func (s *Solver) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	s.tail[s.ntail%len(s.tail)] = t
	s.ntail++
	if _, err := s.in.WriteString(t); err != nil {
		s.dead = true
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func sortStr(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SFP32:
		return "(_ FloatingPoint 8 24)"
	case SFP64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

func constStr(t *Term) string {
	switch t.sort {
	case SBool:
		if t.v == 1 {
			return "true"
		}
		return "false"
	case SFP32:
		if fval(t) != fval(t) {
			return "(_ NaN 8 24)"
		}
		b := fmt.Sprintf("%032b", uint32(t.v))
		return fmt.Sprintf("(fp #b%s #b%s #b%s)", b[:1], b[1:9], b[9:])
	case SFP64:
		if fval(t) != fval(t) {
			return "(_ NaN 11 53)"
		}
		b := fmt.Sprintf("%064b", t.v)
		return fmt.Sprintf("(fp #b%s #b%s #b%s)", b[:1], b[1:12], b[12:])
	}
	return fmt.Sprintf("(_ bv%d %d)", t.v, int(t.sort))
}

var opStr = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OSLt: "bvslt", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
	OFRtz: "fp.roundToIntegral RTZ", OFFloor: "fp.roundToIntegral RTN", OFCeil: "fp.roundToIntegral RTP", OFSqrt: "fp.sqrt RNE"}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// define emits declarations/definitions for t and everything below it, at the current level.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t] {
		return
	}
	// iterative post-order to survive deep DAGs
	type fr struct {
		t  *Term
		ph int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defined[f.t] {
			st = st[:len(st)-1]
			continue
		}
		var kid *Term
		switch f.ph {
		case 0:
			kid = f.t.a
		case 1:
			kid = f.t.b
		case 2:
			kid = f.t.c
		}
		if f.ph < 3 {
			f.ph++
			if kid != nil && kid.op != OConst && !s.defined[kid] {
				st = append(st, fr{kid, 0})
			}
			continue
		}
		s.emit(f.t)
		st = st[:len(st)-1]
	}
}

func (s *Solver) emit(t *Term) {
	s.defined[t] = true
	top := len(s.levels) - 1
	s.levels[top] = append(s.levels[top], t)
	if t.op == OVar {
		s.vars[t] = true
		s.varList = append(s.varList, t)
		s.send("(declare-const |" + t.name + "| " + sortStr(t.sort) + ")\n")
		return
	}
	var body string
	switch t.op {
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort-t.a.sort), s.ref(t.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort-t.a.sort), s.ref(t.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.v>>8, t.v&255, s.ref(t.a))
	case OFFromBits:
		if t.sort == SFP32 {
			body = "((_ to_fp 8 24) " + s.ref(t.a) + ")"
		} else {
			body = "((_ to_fp 11 53) " + s.ref(t.a) + ")"
		}
	case OFFromS, OFFromU:
		nm := "to_fp"
		if t.op == OFFromU {
			nm = "to_fp_unsigned"
		}
		if t.sort == SFP32 {
			body = "((_ " + nm + " 8 24) RNE " + s.ref(t.a) + ")"
		} else {
			body = "((_ " + nm + " 11 53) RNE " + s.ref(t.a) + ")"
		}
	case OFToF:
		if t.sort == SFP32 {
			body = "((_ to_fp 8 24) RNE " + s.ref(t.a) + ")"
		} else {
			body = "((_ to_fp 11 53) RNE " + s.ref(t.a) + ")"
		}
	case OFToS:
		body = "((_ fp.to_sbv 64) RTZ " + s.ref(t.a) + ")"
	default:
		var sb strings.Builder
		sb.WriteString("(" + opStr[t.op])
		for _, k := range [...]*Term{t.a, t.b, t.c} {
			if k != nil {
				sb.WriteString(" ")
				sb.WriteString(s.ref(k))
			}
		}
		sb.WriteString(")")
		body = sb.String()
	}
	s.send("(define-fun t" + strconv.Itoa(t.id) + " () " + sortStr(t.sort) + " " + body + ")\n")
}

func (s *Solver) push() {
	s.send("(push 1)\n")
	s.levels = append(s.levels, nil)
}
func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
	for i := 0; i < n; i++ {
		top := len(s.levels) - 1
		for _, t := range s.levels[top] {
			delete(s.defined, t)
			if t.op == OVar {
				delete(s.vars, t)
			}
		}
		s.levels = s.levels[:top]
	}
	// rebuild varList
	vl := s.varList[:0]
	for _, v := range s.varList {
		if s.vars[v] {
			vl = append(vl, v)
		}
	}
	s.varList = vl
}

// sync makes the solver's assertion stack equal pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	s.pop(len(s.stack) - n)
	s.stack = s.stack[:n]
	for ; n < len(pc); n++ {
		s.push()
		s.define(pc[n])
		s.send("(assert " + s.ref(pc[n]) + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc AND extra; on Sat it returns a model of all declared variables.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	if s.dead {
		s.restart()
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	if !s.oneShot {
		s.sync(pc)
		s.push()
		want := 400
		for _, c := range pc {
			if c.fp {
				want = s.slow
			}
		}
		if extra != nil && extra.fp {
			want = s.slow
		}
		if want != s.timeout && s.kind != "cvc5" {
			s.timeout = want
			s.send(fmt.Sprintf("(set-option :timeout %d)\n", want))
		}
	}
	if extra != nil {
		s.define(extra)
		s.send("(assert " + s.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, ok := s.readLine()
	var res Result
	switch {
	case !ok:
		res = Unknown
		s.NUnk++
		s.dead = true
		return res, nil
	case line == "sat":
		res = Sat
		s.NSat++
	case line == "unsat":
		res = Unsat
		s.NUnsat++
	default:
		if strings.HasPrefix(line, "(error") && strings.Contains(line, "canceled") {
			// the time limit struck outside check-sat proper: no answer, and a state not to be trusted
			s.NUnk++
			s.dead = true
			return Unknown, nil
		}
		if strings.HasPrefix(line, "(error") {
			s.NErr++
			fmt.Fprintf(os.Stderr, "solver error: %s\n", line)
			for i := range s.tail {
				fmt.Fprintf(os.Stderr, "    %s", s.tail[(s.ntail+i)%len(s.tail)])
			}
			s.NUnk++
			s.dead = true // resynchronise from scratch
			return Unknown, nil
		}
		res = Unknown
		s.NUnk++
	}
	if res == Unknown && !s.oneShot {
		// a fresh, non-incremental solver uses stronger preprocessing
		o := &Solver{kind: s.kind, timeout: s.slow, oneShot: true}
		o.start()
		for _, c := range pc {
			o.define(c)
			o.send("(assert " + o.ref(c) + ")\n")
		}
		s.OneShots++
		r, m := o.Check(nil, extra)
		o.Close()
		if r != Unknown {
			s.NUnk--
			if r == Sat {
				s.NSat++
			} else {
				s.NUnsat++
			}
		}
		s.pop(1)
		return r, m
	}
	var m Model
	if res == Sat {
		m = s.getModel()
		if m == nil {
			res = Unknown
			s.dead = true
			return res, nil
		}
	}
	if !s.oneShot {
		s.pop(1)
	}
	return res, m
}

// readLine waits for an answer, with a hard wall-clock limit beyond the solver's own.
func (s *Solver) readLine() (string, bool) {
	type rl struct {
		l   string
		err error
	}
	ch := make(chan rl, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- rl{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return "", false
		}
		return strings.TrimSpace(r.l), true
	case <-time.After(time.Duration(s.timeout)*time.Millisecond + 5*time.Second):
		s.cmd.Process.Kill()
		return "", false
	}
}

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.varList) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.varList {
		sb.WriteString("|" + v.name + "| ")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	txt, ok := s.readSexp()
	if !ok {
		return nil
	}
	toks := tokenize(txt)
	// ((|x| val) (|y| val) ...)
	i := 1
	for i < len(toks) && toks[i] == "(" {
		name := strings.Trim(toks[i+1], "|")
		v, ni, ok := parseVal(toks, i+2)
		if !ok {
			fmt.Fprintf(os.Stderr, "cannot parse model value near %v\n", toks[i:min(i+8, len(toks))])
			return nil
		}
		m[name] = v
		i = ni + 1
	}
	return m
}

func (s *Solver) readSexp() (string, bool) {
	var sb strings.Builder
	depth := 0
	bar := false
	started := false
	done := make(chan bool, 1)
	go func() {
		for {
			c, err := s.out.ReadByte()
			if err != nil {
				done <- false
				return
			}
			sb.WriteByte(c)
			if c == '|' {
				bar = !bar
			}
			if bar {
				continue
			}
			if c == '(' {
				depth++
				started = true
			}
			if c == ')' {
				depth--
			}
			if started && depth == 0 {
				// consume rest of line
				s.out.ReadString('\n')
				done <- true
				return
			}
		}
	}()
	select {
	case ok := <-done:
		return sb.String(), ok
	case <-time.After(30 * time.Second):
		s.cmd.Process.Kill()
		return "", false
	}
}

func tokenize(t string) []string {
	var out []string
	i := 0
	for i < len(t) {
		c := t[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for t[j] != '|' {
				j++
			}
			out = append(out, t[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(t) && !strings.ContainsRune("() \n\t\r", rune(t[j])) {
				j++
			}
			out = append(out, t[i:j])
			i = j
		}
	}
	return out
}

func parseVal(toks []string, i int) (uint64, int, bool) {
	t := toks[i]
	switch {
	case t == "true":
		return 1, i + 1, true
	case t == "false":
		return 0, i + 1, true
	case strings.HasPrefix(t, "#x"):
		v, err := strconv.ParseUint(t[2:], 16, 64)
		return v, i + 1, err == nil
	case strings.HasPrefix(t, "#b"):
		v, err := strconv.ParseUint(t[2:], 2, 64)
		return v, i + 1, err == nil
	case t == "(" && toks[i+1] == "_" && strings.HasPrefix(toks[i+2], "bv"):
		v, err := strconv.ParseUint(toks[i+2][2:], 10, 64)
		return v, i + 5, err == nil
	}
	return 0, i, false
}
