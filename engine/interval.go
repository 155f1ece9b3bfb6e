package main

// Unsigned interval reasoning over terms. It decides many conditions (digit classes, overflow guards) from the bounds that the
// path condition puts on subterms, without a solver call. It is only an accelerator: what it cannot decide goes to the solver.

import "math/bits"

type iv struct{ lo, hi uint64 }

func full(s Sort) iv { return iv{0, mask(s)} }

// bound narrows the known interval of t.
func (I *Interp) bound(t *Term, lo, hi uint64) {
	if t.isConst() || t.sort <= 0 {
		return
	}
	cur, ok := I.bnd[t]
	if !ok {
		cur = full(t.sort)
	}
	n := cur
	if lo > n.lo {
		n.lo = lo
	}
	if hi < n.hi {
		n.hi = hi
	}
	if n == cur || n.lo > n.hi {
		return
	}
	I.bnd[t] = n
	if len(I.ivMemo) > 0 {
		I.ivMemo = map[*Term]iv{}
	}
	switch t.op {
	case OZExt:
		if n.lo <= mask(t.a.sort) {
			h := n.hi
			if h > mask(t.a.sort) {
				h = mask(t.a.sort)
			}
			I.bound(t.a, n.lo, h)
		}
	case OAdd:
		for _, p := range [2][2]*Term{{t.a, t.b}, {t.b, t.a}} {
			if p[1].isConst() {
				m := mask(t.sort)
				l, h := (n.lo-p[1].v)&m, (n.hi-p[1].v)&m
				if l <= h {
					I.bound(p[0], l, h)
				}
			}
		}
	case OSub:
		if t.b.isConst() {
			m := mask(t.sort)
			l, h := (n.lo+t.b.v)&m, (n.hi+t.b.v)&m
			if l <= h {
				I.bound(t.a, l, h)
			}
		}
	}
}

// learn extracts bounds from a fact.
func (I *Interp) learn(c *Term) {
	switch c.op {
	case OEq:
		if c.a.sort > 0 {
			if c.a.isConst() {
				I.bound(c.b, c.a.v, c.a.v)
			} else if c.b.isConst() {
				I.bound(c.a, c.b.v, c.b.v)
			}
		}
	case OULt:
		a, b := I.ivOf(c.a, 0), I.ivOf(c.b, 0)
		if b.hi > 0 {
			I.bound(c.a, 0, b.hi-1)
		}
		if a.lo < mask(c.a.sort) {
			I.bound(c.b, a.lo+1, mask(c.a.sort))
		}
	case OSLt: // a <s b
		half := mask(c.a.sort) >> 1
		if c.a.isConst() && c.a.v <= half && c.a.v < half {
			I.bound(c.b, c.a.v+1, half)
		}
		if c.a.isConst() && c.a.v == mask(c.a.sort) { // -1 < b
			I.bound(c.b, 0, half)
		}
		if c.b.isConst() && c.b.v <= half && c.b.v > 0 && I.ivOf(c.a, 0).hi <= half {
			I.bound(c.a, 0, c.b.v-1)
		}
	case ONot:
		x := c.a
		switch x.op {
		case OULt: // b <= a
			a, b := I.ivOf(x.a, 0), I.ivOf(x.b, 0)
			I.bound(x.b, 0, a.hi)
			I.bound(x.a, b.lo, mask(x.a.sort))
		case OSLt: // b <=s a
			half := mask(x.a.sort) >> 1
			if x.b.isConst() && x.b.v <= half {
				I.bound(x.a, x.b.v, half)
			}
			if x.a.isConst() && x.a.v <= half && I.ivOf(x.b, 0).hi <= half {
				I.bound(x.b, 0, x.a.v)
			}
		case OOr:
			I.learn(I.tt.Not(x.a))
			I.learn(I.tt.Not(x.b))
		}
	case OAnd:
		I.learn(c.a)
		I.learn(c.b)
	}
}

func (I *Interp) ivOf(t *Term, depth int) iv {
	if t.isConst() {
		return iv{t.v, t.v}
	}
	if t.sort <= 0 {
		return iv{0, ^uint64(0)}
	}
	if r, ok := I.ivMemo[t]; ok {
		return r
	}
	r := full(t.sort)
	if t.size < 4000 { // the outcome must depend on the facts alone, so that re-execution takes the same decisions
		r = I.ivCalc(t, depth)
	}
	if b, ok := I.bnd[t]; ok {
		if b.lo > r.lo {
			r.lo = b.lo
		}
		if b.hi < r.hi {
			r.hi = b.hi
		}
		if r.lo > r.hi { // contradictory facts: leave it to the solver
			r = full(t.sort)
		}
	}
	I.ivMemo[t] = r
	return r
}

func (I *Interp) ivCalc(t *Term, depth int) iv {
	m := mask(t.sort)
	f := full(t.sort)
	d := depth + 1
	switch t.op {
	case OAdd:
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		l, c1 := bits.Add64(a.lo, b.lo, 0)
		h, c2 := bits.Add64(a.hi, b.hi, 0)
		if c1 == 0 && c2 == 0 && h <= m {
			return iv{l, h}
		}
		if (c1 == 1 || l > m) && l&m <= h&m && (a.hi-a.lo) <= m-(b.hi-b.lo) { // both ends wrap once
			return iv{l & m, h & m}
		}
	case OSub:
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		if a.lo >= b.hi {
			return iv{a.lo - b.hi, a.hi - b.lo}
		}
	case OMul:
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		o, h := bits.Mul64(a.hi, b.hi)
		if o == 0 && h <= m {
			return iv{a.lo * b.lo, h}
		}
	case OUDiv:
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		if b.lo > 0 {
			return iv{a.lo / b.hi, a.hi / b.lo}
		}
	case OURem:
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		if b.lo > 0 {
			if a.hi < b.lo {
				return a
			}
			return iv{0, b.hi - 1}
		}
	case OBAnd:
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		if b.hi < a.hi {
			a = b
		}
		return iv{0, a.hi}
	case OBOr:
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		l, h := a.lo, a.hi|b.hi
		if b.lo > l {
			l = b.lo
		}
		if n := bits.Len64(h); n < 64 {
			h = 1<<uint(n) - 1
		} else {
			h = ^uint64(0)
		}
		return iv{l, h & m}
	case OShl:
		if t.b.isConst() && t.b.v < 64 {
			a := I.ivOf(t.a, d)
			if a.hi <= m>>t.b.v {
				return iv{a.lo << t.b.v, a.hi << t.b.v}
			}
		}
	case OLShr:
		if t.b.isConst() && t.b.v < 64 {
			a := I.ivOf(t.a, d)
			return iv{a.lo >> t.b.v, a.hi >> t.b.v}
		}
	case OZExt:
		return I.ivOf(t.a, d)
	case OSExt:
		a := I.ivOf(t.a, d)
		if a.hi <= mask(t.a.sort)>>1 {
			return a
		}
		if a.lo > mask(t.a.sort)>>1 {
			e := m &^ mask(t.a.sort)
			return iv{a.lo | e, a.hi | e}
		}
	case OExtract:
		hi, lo := int(t.v>>8), int(t.v&255)
		a := I.ivOf(t.a, d)
		l, h := a.lo>>uint(lo), a.hi>>uint(lo)
		if hi-lo+1 < 64 && h > m && (l>>uint(hi-lo+1)) != (h>>uint(hi-lo+1)) {
			return f
		}
		if l&m <= h&m {
			return iv{l & m, h & m}
		}
	case OIte:
		if v, ok := I.ivBool(t.a, d); ok {
			if v {
				return I.ivOf(t.b, d)
			}
			return I.ivOf(t.c, d)
		}
		a, b := I.ivOf(t.b, d), I.ivOf(t.c, d)
		if b.lo < a.lo {
			a.lo = b.lo
		}
		if b.hi > a.hi {
			a.hi = b.hi
		}
		return a
	case OConcat:
		w := uint(t.b.sort)
		a, b := I.ivOf(t.a, d), I.ivOf(t.b, d)
		return iv{a.lo<<w | b.lo, a.hi<<w | b.hi}
	}
	return f
}

// ivBool decides a condition from bounds alone, when it can.
func (I *Interp) ivBool(c *Term, d int) (val, ok bool) {
	if c.isConst() {
		return c.v == 1, true
	}
	if c.size >= 4000 {
		return false, false
	}
	switch c.op {
	case ONot:
		v, ok := I.ivBool(c.a, d+1)
		return !v, ok
	case OAnd:
		v, o := I.ivBool(c.a, d+1)
		if o && !v {
			return false, true
		}
		w, p := I.ivBool(c.b, d+1)
		if p && !w {
			return false, true
		}
		return true, o && p
	case OOr:
		v, o := I.ivBool(c.a, d+1)
		if o && v {
			return true, true
		}
		w, p := I.ivBool(c.b, d+1)
		if p && w {
			return true, true
		}
		return false, o && p
	case OEq:
		if c.a.sort <= 0 {
			return false, false
		}
		a, b := I.ivOf(c.a, d+1), I.ivOf(c.b, d+1)
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		if a.lo == a.hi && b == a {
			return true, true
		}
	case OULt:
		a, b := I.ivOf(c.a, d+1), I.ivOf(c.b, d+1)
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
	case OSLt:
		half := mask(c.a.sort) >> 1
		a, b := I.ivOf(c.a, d+1), I.ivOf(c.b, d+1)
		x := half + 1
		// shift to an unsigned order when neither interval straddles the sign change
		if (a.hi <= half || a.lo > half) && (b.hi <= half || b.lo > half) {
			m := mask(c.a.sort)
			a, b = iv{(a.lo + x) & m, (a.hi + x) & m}, iv{(b.lo + x) & m, (b.hi + x) & m}
			if a.hi < b.lo {
				return true, true
			}
			if a.lo >= b.hi {
				return false, true
			}
		}
	}
	return false, false
}
