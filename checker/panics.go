package main

import (
	"regexp"
	"sort"
	"strings"
)

// Panics where a result is defined. A path that ends in a panic counts only
// where it can be taken: where every path of a configuration panics, or where
// small sizes are at hand that take the very path.

var plainAtom = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9]*$`)

func (q *Poly) eval(at map[string]int64) int64 {
	var s int64
	for m, c := range q.t {
		for _, a := range strings.Split(m, monoSep) {
			if m != "" {
				c *= at[a]
			}
		}
		s += c
	}
	return s
}

// reachable says with which sizes the path is taken.
func (p *Path) reachable() (map[string]int64, bool) {
	if p.blind || p.loopers > 0 || len(p.T.conds)+len(p.T.trace) > 1 || p.T.bad != "" {
		return nil, false
	}
	atoms := map[string]bool{}
	see := func(q *Poly) bool {
		for m := range q.t {
			for _, a := range strings.Split(m, monoSep) {
				if m == "" {
					continue
				}
				if !plainAtom.MatchString(a) || p.F.neg[a] {
					return false
				}
				atoms[a] = true
			}
		}
		return true
	}
	for _, q := range append(append([]*Poly{}, p.F.ges...), p.F.nes...) {
		if !see(q) {
			return nil, false
		}
	}
	for m, rep := range p.F.rules {
		l := &Poly{t: map[string]int64{m: 1}}
		if !see(l) || !see(rep) {
			return nil, false
		}
	}
	for a := range p.F.pos {
		if !plainAtom.MatchString(a) {
			return nil, false
		}
		atoms[a] = true
	}
	var names []string
	for a := range atoms {
		names = append(names, a)
	}
	sort.Strings(names)
	if len(names) > 6 {
		return nil, false
	}
	at := map[string]int64{}
	holds := func() bool {
		for a := range p.F.pos {
			if at[a] < 1 {
				return false
			}
		}
		for _, q := range p.F.ges {
			if q.eval(at) < 0 {
				return false
			}
		}
		for _, q := range p.F.nes {
			if q.eval(at) == 0 {
				return false
			}
		}
		for m, rep := range p.F.rules {
			if (&Poly{t: map[string]int64{m: 1}}).eval(at) != rep.eval(at) {
				return false
			}
		}
		return true
	}
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(names) {
			return holds()
		}
		for v := int64(0); v <= 4; v++ {
			at[names[i]] = v
			if try(i + 1) {
				return true
			}
		}
		return false
	}
	return at, try(0)
}
