package main

import (
	"fmt"
	"sort"
	"strings"
)

// unknownAtom reports whether an atom stands for a value the analysis lost
// track of (joined, havocked or returned by unmodelled code).
func unknownAtom(a string) bool {
	return strings.Contains(a, "φ") || strings.Contains(a, "?") || strings.Contains(a, "Σ") || strings.HasPrefix(a, "len(")
}

func atomsOf(ps ...*Poly) []string {
	seen := map[string]bool{}
	var out []string
	for _, p := range ps {
		if p == nil {
			continue
		}
		for m := range p.t {
			for _, a := range monoAtoms(m) {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// witness looks for a small valuation of the atoms satisfying the facts of the
// path and goal != 0 (when goal is given). It exists to keep reports about
// paths whose assumptions contradict each other from being raised: the facts
// domain is incomplete. unknown is set when the valuation had to invent the
// value of an atom that is not an input.
func (p *Path) witness(goal *Poly) (val map[string]int64, found, unknown bool) {
	m := &smallModels{p: p, hi: 6, counters: true}
	if goal != nil {
		goal = p.F.norm(goal)
		m.goals = []*Poly{goal}
		for _, a := range atomsOf(goal) {
			if unknownAtom(a) {
				unknown = true
			}
		}
	}
	found = m.search(nil)
	if !found {
		return nil, false, unknown
	}
	return m.val, true, unknown
}

// smallModels enumerates small valuations of the atoms that satisfy the facts
// of a path.
type smallModels struct {
	p        *Path
	hi       int64
	counters bool    // loop counters get a value as well
	goals    []*Poly // must differ from zero
	extra    []*Poly // atoms of these get a value, too
	val      map[string]int64
	gaveUp   bool
	samples  map[string][]int64 // values to try for an atom instead of small ones
}

func (m *smallModels) atom(a string) (int64, bool) {
	if v, ok := m.val[a]; ok {
		return v, true
	}
	d, ok := m.p.defs[a]
	if !ok || d.op == 'k' {
		return 0, false
	}
	x, ok1 := m.eval(d.a)
	y, ok2 := m.eval(d.b)
	if !ok1 || !ok2 || y == 0 {
		return 0, false
	}
	if d.op == '/' {
		return x / y, true
	}
	return x % y, true
}

func (m *smallModels) eval(q *Poly) (int64, bool) {
	var s int64
	for mo, c := range q.t {
		t := c
		for _, a := range monoAtoms(mo) {
			v, ok := m.atom(a)
			if !ok {
				return 0, false
			}
			t *= v
		}
		s += t
	}
	return s, true
}

// each calls f for every value of the loop counters that q depends on; false
// when one of them has no known range.
func (m *smallModels) each(qs []*Poly, f func() bool) (all, known bool) {
	for _, q := range qs {
		for _, a := range m.deepAtoms(q) {
			d, ok := m.p.defs[a]
			if !ok || d.op != 'k' {
				if _, have := m.atom(a); !have {
					return false, false
				}
				continue
			}
			if _, have := m.val[a]; have {
				continue
			}
			n, ok := m.eval(d.a)
			if !ok {
				continue // an outer counter first
			}
			all, known = true, true
			for v := int64(0); v < n; v++ {
				m.val[a] = v
				r, k := m.each(qs, f)
				if !r || !k {
					all, known = all && r, known && k
					break
				}
			}
			delete(m.val, a)
			return
		}
	}
	for _, q := range qs {
		if _, ok := m.eval(q); !ok {
			return false, false
		}
	}
	return f(), true
}

func (m *smallModels) deepAtoms(q *Poly) []string {
	var out []string
	seen := map[string]bool{}
	var add func(a string)
	add = func(a string) {
		if seen[a] {
			return
		}
		seen[a] = true
		if d, ok := m.p.defs[a]; ok {
			for _, x := range atomsOf(d.a, d.b) {
				add(x)
			}
			if d.op != 'k' {
				return
			}
		}
		out = append(out, a)
	}
	for _, a := range atomsOf(q) {
		add(a)
	}
	return out
}

// search returns true at the first valuation that accept takes.
func (m *smallModels) search(accept func() bool) bool {
	p := m.p
	F := p.F
	if F.bad {
		return false
	}
	// constraint polys
	type con struct {
		p    *Poly
		kind byte // '=', '>', '!'
	}
	var cons []con
	put := func(q *Poly, k byte) {
		if !m.counters {
			for _, a := range m.deepAtoms(q) {
				if d, ok := p.defs[a]; ok && d.op == 'k' {
					return // holds in every iteration by itself
				}
			}
		}
		cons = append(cons, con{q, k})
	}
	for _, lm := range F.order {
		if r := F.rules[lm]; r != nil {
			put(pSub(&Poly{map[string]int64{lm: 1}}, r), '=')
		}
	}
	for _, g := range F.ges {
		put(g, '>')
	}
	for _, n := range F.nes {
		put(n, '!')
	}
	for _, g := range m.goals {
		cons = append(cons, con{g, '!'})
	}
	// all atoms, expanding definitions
	set := map[string]bool{}
	var add func(a string)
	add = func(a string) {
		if set[a] {
			return
		}
		d, ok := p.defs[a]
		if ok && d.op == 'k' && !m.counters {
			for _, x := range atomsOf(d.a) {
				add(x)
			}
			return
		}
		set[a] = true
		if ok {
			for _, x := range atomsOf(d.a, d.b) {
				add(x)
			}
		}
	}
	for _, c := range cons {
		for _, a := range atomsOf(c.p) {
			add(a)
		}
	}
	for _, a := range atomsOf(m.extra...) {
		add(a)
	}
	for a := range F.pos {
		add(a)
	}
	var free []string
	for a := range set {
		d, isDef := p.defs[a]
		if isDef && d.op != 'k' {
			continue
		}
		free = append(free, a)
	}
	// drop unknown atoms that no constraint shares with a known atom
	rank := func(a string) int {
		if d, ok := p.defs[a]; ok && d.op == 'k' {
			return 1
		}
		if unknownAtom(a) {
			return 2
		}
		return 0
	}
	sort.Slice(free, func(i, j int) bool {
		if rank(free[i]) != rank(free[j]) {
			return rank(free[i]) < rank(free[j])
		}
		return free[i] < free[j]
	})
	m.val = map[string]int64{}
	budget := 400000
	var rec func(i int) bool
	rec = func(i int) bool {
		budget--
		if budget < 0 {
			m.gaveUp = true
			return false
		}
		for _, c := range cons {
			v, ok := m.eval(c.p)
			if !ok {
				continue
			}
			switch c.kind {
			case '=':
				if v != 0 {
					return false
				}
			case '>':
				if v < 0 {
					return false
				}
			case '!':
				if v == 0 {
					return false
				}
			}
		}
		if i == len(free) {
			for a := range set {
				if _, ok := m.atom(a); !ok {
					return false
				}
			}
			return accept == nil || accept()
		}
		a := free[i]
		lo, hi := int64(0), m.hi
		if F.neg[a] {
			lo = -1
		}
		if F.pos[a] {
			lo = 1
		}
		if strings.HasSuffix(a, ".rows") || strings.HasSuffix(a, ".cols") {
			lo, hi = 0, 4
			if F.pos[a] {
				lo = 1
			}
		}
		if d, ok := p.defs[a]; ok && d.op == 'k' {
			n, known := m.eval(d.a)
			if !known {
				n = 4
			}
			hi = n - 1
		}
		var vals []int64
		if vals = m.samples[a]; vals == nil {
			for v := lo; v <= hi; v++ {
				vals = append(vals, v)
			}
		}
		for _, v := range vals {
			m.val[a] = v
			if rec(i + 1) {
				return true
			}
			delete(m.val, a)
		}
		return false
	}
	return rec(0)
}

// witnessText prints the input part of a valuation.
func witnessText(v map[string]int64) string {
	var ks []string
	for k := range v {
		if !unknownAtom(k) && !strings.Contains(k, "⟨") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k, v[k]))
	}
	return strings.Join(out, " ")
}
