package main

import (
	"fmt"
	"sort"
	"strings"
)

// The memory two pieces of code touch. Code that touches disjoint memory - or memory both only read, or that both
// touch under a common lock - gives the same results and the same final state in every interleaving, and has no data race.

type footprint struct {
	slots map[interface{}]*touched
}

type touched struct {
	r, w map[string]string // locks held -> where
}

func newFootprint() *footprint { return &footprint{slots: map[interface{}]*touched{}} }

func (I *Interp) touch(key interface{}, write bool) {
	if I.fp == nil || I.initMode {
		return
	}
	t := I.fp.slots[key]
	if t == nil {
		t = &touched{}
		I.fp.slots[key] = t
	}
	m := &t.r
	if write {
		m = &t.w
	}
	l := strings.Join(I.locks, ",")
	if *m == nil {
		*m = map[string]string{}
	} else if _, ok := (*m)[l]; ok {
		return
	}
	(*m)[l] = I.where()
}

// touchSlot touches every leaf of the object at p.
func (I *Interp) touchSlot(p *Value, write bool) {
	switch v := (*p).(type) {
	case StructV:
		for i := range v {
			I.touchSlot(&v[i], write)
		}
		return
	case ArrayV:
		for i := range v {
			I.touchSlot(&v[i], write)
		}
		return
	}
	I.touch(p, write)
}

// touchAll reads the elements of a slice.
func (I *Interp) touchAll(e []Value) {
	if I.fp == nil {
		return
	}
	for i := range e {
		I.touchSlot(&e[i], false)
	}
}

func (I *Interp) lock(p Ptr, unlock bool) {
	if I.fp == nil {
		return
	}
	id := fmt.Sprintf("%p", p.p)
	if unlock {
		for i, l := range I.locks {
			if l == id {
				I.locks = append(append([]string{}, I.locks[:i]...), I.locks[i+1:]...)
				break
			}
		}
		return
	}
	I.locks = append(append([]string{}, I.locks...), id)
	sort.Strings(I.locks)
}

func disjointLocks(a, b string) bool {
	if a == "" || b == "" {
		return true
	}
	for _, x := range strings.Split(a, ",") {
		for _, y := range strings.Split(b, ",") {
			if x == y {
				return false
			}
		}
	}
	return true
}

func (f *footprint) conflict(g *footprint) string {
	clash := func(a, b map[string]string) string {
		for l, x := range a {
			for k, y := range b {
				if disjointLocks(l, k) {
					return x + " || " + y
				}
			}
		}
		return ""
	}
	out := ""
	for key, a := range f.slots {
		b := g.slots[key]
		if b == nil {
			continue
		}
		for _, s := range []string{clash(a.w, b.w), clash(a.w, b.r), clash(a.r, b.w)} {
			if s != "" && (out == "" || s < out) {
				out = s
			}
		}
	}
	return out
}
