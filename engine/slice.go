package main

// Independent constraints. The path condition is satisfiable - the current model satisfies it - so a query
// about it only needs the conjuncts that share variables, directly or through one another, with the query:
// the rest keeps its values from the current model. Used where floating point makes the rest expensive.

func (I *Interp) vars(t *Term) []*Term {
	if !t.nvars {
		return nil
	}
	if v, ok := I.varsOf[t]; ok {
		return v
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || !t.nvars || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
	I.varsOf[t] = out
	return out
}

// check decides pc AND extra; on Sat the model covers every variable.
func (I *Interp) check(extra *Term) (Result, Model) {
	fp := false
	for _, c := range I.pc {
		if c.fp {
			fp = true
			break
		}
	}
	if !fp {
		return I.sol.Check(I.pc, extra)
	}
	in := map[*Term]bool{}
	for _, v := range I.vars(extra) {
		in[v] = true
	}
	use := make([]bool, len(I.pc))
	for grown := true; grown; {
		grown = false
		for i, c := range I.pc {
			if use[i] {
				continue
			}
			vs := I.vars(c)
			hit := false
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			use[i] = true
			for _, v := range vs {
				if !in[v] {
					in[v] = true
					grown = true
				}
			}
		}
	}
	var part []*Term
	dropFP := false
	for i, c := range I.pc {
		if use[i] {
			part = append(part, c)
		} else if c.fp {
			dropFP = true
		}
	}
	if !dropFP {
		return I.sol.Check(I.pc, extra)
	}
	if I.sol2 == nil {
		I.sol2 = NewSolver(I.sol.kind, I.sol.slow)
	}
	r, m := I.sol2.Check(part, extra)
	if r != Sat {
		return r, m
	}
	all := Model{}
	for k, v := range I.model {
		all[k] = v
	}
	for k, v := range m {
		all[k] = v
	}
	return r, all
}

func (I *Interp) closeSolvers() {
	I.sol.Close()
	if I.sol2 != nil {
		I.sol2.Close()
	}
}
