package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Unit is a physical-dimension exponent vector over unit variables. A nil map
// is dimensionless.
type Unit map[int]*big.Rat

func uScale(u Unit, k *big.Rat) Unit {
	r := Unit{}
	for v, c := range u {
		x := new(big.Rat).Mul(c, k)
		if x.Sign() != 0 {
			r[v] = x
		}
	}
	return r
}

func uAdd(a, b Unit, k int64) Unit {
	r := Unit{}
	for v, c := range a {
		r[v] = new(big.Rat).Set(c)
	}
	for v, c := range b {
		x := new(big.Rat).Mul(c, new(big.Rat).SetInt64(k))
		if o, ok := r[v]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r, v)
		} else {
			r[v] = x
		}
	}
	return r
}

// Units solves linear equations between unit variables (Kennedy-style
// dimension inference over the rationals).
type Units struct {
	names []string
	base  []bool // rigid variables: must not be constrained after freeze
	subst map[int]Unit
	log   []string
}

func newUnits() *Units { return &Units{subst: map[int]Unit{}} }

func (s *Units) fresh(name string, rigid bool) Unit {
	s.names = append(s.names, name)
	s.base = append(s.base, rigid)
	return Unit{len(s.names) - 1: big.NewRat(1, 1)}
}

func (s *Units) norm(u Unit) Unit {
	for iter := 0; iter < 1000; iter++ {
		hit := -1
		for v := range u {
			if _, ok := s.subst[v]; ok && (hit < 0 || v < hit) {
				hit = v
			}
		}
		if hit < 0 {
			return u
		}
		c := u[hit]
		r := Unit{}
		for v, x := range u {
			if v != hit {
				r[v] = x
			}
		}
		u = uAdd(r, uScale(s.subst[hit], c), 1)
	}
	return u
}

// equate imposes a == b. It returns the constraint imposed on rigid variables
// ("" when only free variables were bound).
func (s *Units) equate(a, b Unit) (Unit, bool) {
	d := s.norm(uAdd(a, b, -1))
	if len(d) == 0 {
		return nil, false
	}
	var vs []int
	for v := range d {
		vs = append(vs, v)
	}
	// prefer the youngest non-rigid variable
	sort.Slice(vs, func(i, j int) bool {
		if s.base[vs[i]] != s.base[vs[j]] {
			return !s.base[vs[i]]
		}
		return vs[i] > vs[j]
	})
	v := vs[0]
	c := d[v]
	rest := Unit{}
	for x, k := range d {
		if x != v {
			rest[x] = k
		}
	}
	s.subst[v] = uScale(rest, new(big.Rat).Neg(new(big.Rat).Inv(c)))
	return d, s.base[v]
}

func (s *Units) str(u Unit) string {
	u = s.norm(u)
	if len(u) == 0 {
		return "1"
	}
	var vs []int
	for v := range u {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	var out []string
	for _, v := range vs {
		c := u[v]
		if c.Cmp(big.NewRat(1, 1)) == 0 {
			out = append(out, s.names[v])
		} else {
			out = append(out, fmt.Sprintf("%s^%s", s.names[v], c.RatString()))
		}
	}
	return strings.Join(out, "·")
}

// allRigid reports whether only rigid variables occur in u.
func (s *Units) allRigid(u Unit) bool {
	for v := range u {
		if !s.base[v] {
			return false
		}
	}
	return true
}
