package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Derivatives of terms, their normal form under the facts of a path, and their
// evaluation at small instances.

func (p *Path) shapeOf(name string) (r, c *Poly, ok bool) {
	s, ok := p.T.shapes[name]
	if !ok {
		return nil, nil, false
	}
	return p.F.norm(s[0]), p.F.norm(s[1]), true
}

func (p *Path) isOne(q *Poly) bool { return p.F.eqZero(pSub(q, pConst(1))) == 1 }

func (p *Path) eqPoly(a, b *Poly) bool { return p.F.eqZero(pSub(a, b)) == 1 }

// tr is the transposed r×c matrix e.
func (p *Path) tr(e *Expr, r, c *Poly) *Expr {
	if e == nil || p.isOne(r) || p.isOne(c) {
		return e
	}
	ok := true
	res := e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		switch a.kind {
		case "ref", "tref":
			if !a.has(cur) {
				return eOf(a), false
			}
			x, y, known := p.shapeOf(a.name)
			k := "tref"
			if a.kind == "tref" {
				k = "ref"
				x, y = y, x
			}
			if !known || !pEq(a.idx, pAtom(cur)) || !p.eqPoly(x, r) || !p.eqPoly(y, c) {
				ok = false
				return eOf(a), false
			}
			return eOf(&eAtom{kind: k, name: a.name, idx: a.idx}), false
		case "mul":
			if !a.has(cur) {
				return eOf(a), false
			}
			if !pEq(a.idx, pAtom(cur)) || !p.eqPoly(a.n, r) || !p.eqPoly(a.m, c) {
				ok = false
				return eOf(a), false
			}
			x, y := p.tr(a.args[1], a.k, a.m), p.tr(a.args[0], a.n, a.k)
			if x == nil || y == nil {
				ok = false
				return eOf(a), false
			}
			return matMul(x, y, a.m, a.k, a.n, a.idx), false
		case "sum", "opq", "int":
			if a.has(cur) {
				ok = false
			}
			return eOf(a), false
		}
		return nil, true
	})
	if !ok {
		return nil
	}
	return res
}

// canon is the normal form under the facts of the path.
func (p *Path) canon(e *Expr) *Expr {
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		args := make([]*Expr, len(a.args))
		for i, x := range a.args {
			if a.kind == "mul" {
				// the position within a factor is not the current one
				x = x.at(cur, pAtom(other))
			}
			if args[i] = p.canon(x); args[i] == nil {
				return nil, false
			}
			if a.kind == "mul" {
				args[i] = args[i].at(other, pAtom(cur))
			}
		}
		switch a.kind {
		case "int":
			return eInt(p.F.norm(pAtom(a.name))), false
		case "ref", "tref":
			k, i := a.kind, p.F.norm(a.idx)
			if r, c, ok := p.shapeOf(a.name); ok {
				if p.isOne(r) || p.isOne(c) {
					k = "ref"
				}
				if p.isOne(r) && p.isOne(c) {
					i = pConst(0)
				}
			}
			return eOf(&eAtom{kind: k, name: a.name, idx: i}), false
		case "fn":
			return eFn(a.name, args[0]), false
		case "poly":
			return args[0], false
		case "pow":
			return ePowE(args[0], args[1]), false
		case "pos":
			if q, ok := args[0].intPoly(); ok {
				switch {
				case p.F.geZero(q):
					return eConst(1), false
				case p.F.geZero(pSub(pScale(q, -1), pConst(1))):
					return eConst(0), false
				}
			}
			return ePos(args[0]).mapAtoms(func(x *eAtom) (*Expr, bool) {
				if x.kind == "pos" {
					if v, ok := p.bools["fcmp:"+x.args[0].key()]; ok {
						if v {
							return eConst(1), false
						}
						return eConst(0), false
					}
				}
				return eOf(x), false
			}), false
		case "zero":
			if q, ok := args[0].intPoly(); ok {
				switch p.F.eqZero(q) {
				case 1:
					return eConst(1), false
				case -1:
					return eConst(0), false
				}
			}
			return eZero(args[0]), false
		case "sum":
			if p.F.eqZero(a.n) == 1 {
				return eConst(0), false
			}
			n := p.F.norm(a.n)
			if c, isc := n.isConst(); isc && c >= 1 && c <= 8 {
				e := eConst(0)
				for t := int64(0); t < c; t++ {
					e = eAdd(e, args[0].at(bound, pConst(t)))
				}
				return p.normIdx(e), false
			}
			return p.rowProducts(sumOf(args[0], n)), false
		case "mul":
			n, k, m, i := p.F.norm(a.n), p.F.norm(a.k), p.F.norm(a.m), p.F.norm(a.idx)
			if p.F.eqZero(k) == 1 {
				return eConst(0), false
			}
			if p.isOne(k) {
				zero := pConst(0)
				switch {
				case p.isOne(n):
					return eMul(args[0].at(cur, zero), args[1].at(cur, i)), false
				case p.isOne(m):
					return eMul(args[0].at(cur, i), args[1].at(cur, zero)), false
				}
			}
			if x := p.smallMul(args[0], args[1], k, m, i); x != nil {
				return p.normIdx(x), false
			}
			return matMul(args[0], args[1], n, k, m, i), false
		}
		return eOf(a), false
	})
}

// smallMul writes an element of a product of matrices out where the inner
// dimension is a small number.
func (p *Path) smallMul(x, y *Expr, k, m, idx *Poly) *Expr {
	n, isc := k.isConst()
	if !isc || n < 1 || n > 8 {
		return nil
	}
	q, r, ok := p.divide(idx, m)
	if !ok {
		return nil
	}
	e := eConst(0)
	for t := int64(0); t < n; t++ {
		e = eAdd(e, eMul(x.at(cur, pAdd(pScale(q, n), pConst(t))), y.at(cur, pAdd(pScale(m, t), r))))
	}
	return e
}

// intPoly is a term over positions and sizes as a polynomial; a half added to
// it (comparisons of integers) is left out.
func (e *Expr) intPoly() (*Poly, bool) {
	q := pConst(0)
	half := 0.0
	for _, k := range e.keys() {
		m := e.t[k]
		c := m.c
		if len(m.f) == 0 {
			half = c - math.Floor(c)
			c = math.Floor(c)
		}
		if !isInt(c) {
			return nil, false
		}
		t := pConst(int64(c))
		for _, f := range m.f {
			if f.a.kind != "int" || !isInt(f.x) || f.x < 1 {
				return nil, false
			}
			for n := 0; n < int(f.x); n++ {
				t = pMul(t, pAtom(f.a.name))
			}
		}
		q = pAdd(q, t)
	}
	return q, half == 0 || half == 0.5
}

// rowProducts writes the sums over the rows of a matrix times a vector as
// products of the two.
func (p *Path) rowProducts(e *Expr) *Expr {
	if e == nil || !e.has(cur) {
		return e
	}
	r := eConst(0)
	for _, key := range e.keys() {
		m := e.t[key]
		t := eConst(m.c)
		for _, f := range m.f {
			x := eOf(f.a)
			if f.a.kind == "sum" && f.a.has(cur) {
				if y := p.rowProduct(f.a); y != nil {
					x = y
				}
			}
			t = eMul(t, ePow(x, f.x))
		}
		r = eAdd(r, t)
	}
	return r
}

func (p *Path) rowProduct(s *eAtom) *Expr {
	m := s.args[0].single()
	if m == nil {
		return nil
	}
	at := p.F.norm(pAdd(pMul(pAtom(cur), s.n), pAtom(bound)))
	var x, y []efac
	var n *Poly
	for _, f := range m.f {
		if !f.a.has(cur) {
			y = append(y, f)
			continue
		}
		if f.a.kind != "ref" || !pEq(p.F.norm(f.a.idx), at) {
			return nil
		}
		rr, cc, ok := p.shapeOf(f.a.name)
		if !ok || !p.eqPoly(cc, s.n) || n != nil && !p.eqPoly(rr, n) {
			return nil
		}
		n = rr
		a := &eAtom{kind: "ref", name: f.a.name, idx: pAtom(cur)}
		a.fix()
		x = append(x, efac{a, f.x})
	}
	xe, ye := monoExpr(1, x), monoExpr(m.c, y)
	if n == nil || xe == nil || ye == nil {
		return nil
	}
	return matMul(xe, ye.at(bound, pAtom(cur)), n, s.n, pConst(1), pAtom(cur))
}

// vjp accumulates the gradient with respect to the source w, given the
// cotangent g of e over n positions; nil when it cannot tell.
func (p *Path) vjp(e, g *Expr, n *Poly, w string) *Expr {
	if e == nil || g == nil {
		return nil
	}
	r := eConst(0)
	for _, k := range e.keys() {
		m := e.t[k]
		for i, f := range m.f {
			if !f.a.uses(w) {
				continue
			}
			d := eConst(m.c * f.x)
			for j, o := range m.f {
				x := o.x
				if j == i {
					x--
				}
				d = eMul(d, ePow(eOf(o.a), x))
			}
			c := p.vjpAtom(f.a, eMul(g, d), n, w)
			r = eAdd(r, c)
			if r == nil {
				return nil
			}
		}
	}
	return r
}

func (p *Path) vjpAtom(a *eAtom, g *Expr, n *Poly, w string) *Expr {
	if g == nil {
		return nil
	}
	switch a.kind {
	case "ref", "tref":
		if a.name != w {
			return nil
		}
		rr, cc, ok := p.shapeOf(w)
		if !ok {
			return nil
		}
		if c, isc := p.F.norm(a.idx).isConst(); isc && c == 0 && p.isOne(rr) && p.isOne(cc) {
			return eSum(g, cur, n)
		}
		if !pEq(p.F.norm(a.idx), pAtom(cur)) || !p.eqPoly(n, pMul(rr, cc)) {
			return nil
		}
		if a.kind == "tref" {
			return p.tr(g, cc, rr)
		}
		return g
	case "fn":
		u := a.args[0]
		var d *Expr
		switch a.name {
		case "exp":
			d = eOf(a)
		case "log":
			d = ePow(u, -1)
		case "sin":
			d = eFn("cos", u)
		case "cos":
			d = eScale(eFn("sin", u), -1)
		case "erf":
			d = eScale(eFn("exp", eScale(eMul(u, u), -1)), 2/math.Sqrt(math.Pi))
		case "floor", "ceil", "round", "trunc":
			return eConst(0)
		}
		return p.vjp(u, eMul(g, d), n, w)
	case "poly":
		return p.vjp(a.args[0], g, n, w)
	case "pow":
		x, y := a.args[0], a.args[1]
		r := eConst(0)
		if x.uses(w) {
			r = eAdd(r, p.vjp(x, eMul(g, eMul(y, ePowE(x, eSub(y, eConst(1))))), n, w))
		}
		if y.uses(w) {
			r = eAdd(r, p.vjp(y, eMul(g, eMul(eOf(a), eFn("log", x))), n, w))
		}
		return r
	case "pos", "zero":
		return eConst(0)
	case "sum":
		if a.args[0].has(cur) {
			return nil
		}
		return p.vjp(a.args[0].at(bound, pAtom(cur)), eSum(g, cur, n), a.n, w)
	case "mul":
		if !pEq(p.F.norm(a.idx), pAtom(cur)) || !p.eqPoly(n, pMul(a.n, a.m)) {
			return nil
		}
		r := eConst(0)
		if a.args[0].uses(w) {
			r = eAdd(r, p.vjp(a.args[0], matMul(g, p.tr(a.args[1], a.k, a.m), a.n, a.m, a.k, pAtom(cur)), pMul(a.n, a.k), w))
		}
		if a.args[1].uses(w) {
			r = eAdd(r, p.vjp(a.args[1], matMul(p.tr(a.args[0], a.n, a.k), g, a.k, a.n, a.m, pAtom(cur)), pMul(a.k, a.m), w))
		}
		return r
	}
	return nil
}

// same decides whether two terms are equal wherever they are defined, up to a
// null set.
func (p *Path) same(a, b *Expr, n *Poly, dom map[string]bool) bool {
	a, b = p.canon(a), p.canon(b)
	if p.isOne(n) {
		a, b = p.canon(a.at(cur, pConst(0))), p.canon(b.at(cur, pConst(0)))
	}
	var z []*eAtom
	for _, e := range []*Expr{a, b} {
		e.outside(func(x *eAtom) {
			if x.kind == "zero" {
				z = append(z, x)
			}
		})
	}
	if len(z) > 0 {
		// elsewhere, and on the set where the equality holds
		off := func(e *Expr) *Expr { return e.with(z[0], eConst(0)) }
		x, v := z[0].args[0].solveAtom()
		if x == nil {
			return p.vanishes(p.dropSums(eSub(a, b)), dom)
		}
		on := func(e *Expr) *Expr { return e.with(z[0], eConst(1)).with(x, v) }
		return p.same(off(a), off(b), n, dom) && p.same(on(a), on(b), n, nil)
	}
	return p.vanishes(p.dropSums(eSub(a, b)), dom)
}

// dropSums removes groups of sums whose bodies cancel.
func (p *Path) dropSums(d *Expr) *Expr {
	if d == nil {
		return nil
	}
	type group struct {
		body *Expr
		keys []string
	}
	groups := map[string]*group{}
	for _, k := range d.keys() {
		m := d.t[k]
		var s *eAtom
		var rest []efac
		for _, f := range m.f {
			if f.a.kind == "sum" && f.x == 1 && s == nil {
				s = f.a
				continue
			}
			rest = append(rest, f)
		}
		if s == nil {
			continue
		}
		r := monoExpr(1, rest)
		if r == nil {
			continue
		}
		gk := r.key() + "|" + s.n.key()
		g := groups[gk]
		if g == nil {
			g = &group{body: eConst(0)}
			groups[gk] = g
		}
		g.body = eAdd(g.body, eScale(s.args[0], m.c))
		g.keys = append(g.keys, k)
	}
	var gks []string
	for gk := range groups {
		gks = append(gks, gk)
	}
	sort.Strings(gks)
	for _, gk := range gks {
		g := groups[gk]
		if len(g.keys) < 2 || g.body == nil || !p.vanishes(g.body, nil) {
			continue
		}
		r := &Expr{map[string]*emono{}}
		for k, m := range d.t {
			r.t[k] = m
		}
		for _, k := range g.keys {
			delete(r.t, k)
		}
		d = r
	}
	return d
}

// vanishes decides whether a term is zero, condition by condition.
func (p *Path) vanishes(d *Expr, dom map[string]bool) bool {
	if d == nil {
		return false
	}
	cs := d.conds()
	known := map[string]bool{}
	var open []string
	for k := range cs {
		if v, ok := dom[k]; ok {
			known[k] = v
		} else if v, ok := p.bools["fcmp:"+k]; ok {
			known[k] = v
		} else {
			open = append(open, k)
		}
	}
	sort.Strings(open)
	if len(open) > 7 {
		return false
	}
	for bits := 0; bits < 1<<len(open); bits++ {
		val := map[string]bool{}
		for k, v := range known {
			val[k] = v
		}
		for i, k := range open {
			val[k] = bits>>i&1 == 1
		}
		if contradictory(cs, val) {
			continue
		}
		r := d.resolve(val)
		for i := 0; i < 3 && len(r.conds()) > 0; i++ {
			r = r.resolve(val)
		}
		if z, known := r.isZero(); !known || !z {
			return false
		}
	}
	return true
}

// contradictory reports whether two of the conditions differ by a constant and
// exclude each other.
func contradictory(cs map[string]*Expr, val map[string]bool) bool {
	for k, a := range cs {
		for l, b := range cs {
			if k == l || !val[k] || val[l] {
				continue
			}
			if c, ok := eSub(b, a).isConst(); ok && c > 0 {
				return true // a > 0 implies b > 0
			}
			if c, ok := eAdd(b, a).isConst(); ok && c < 0 {
				_ = c
			}
		}
	}
	return false
}

// underPos reports whether the term counts under a condition only.
func underPos(m *emono) bool {
	for _, f := range m.f {
		if f.a.kind == "pos" {
			return true
		}
	}
	return false
}

// domain lists conditions that hold wherever y is defined.
func domain(y *Expr) map[string]bool {
	dom := map[string]bool{}
	put := func(e *Expr) {
		if _, c := e.isConst(); c {
			return
		}
		n, flip := eSign(e)
		dom[n.key()] = !flip
	}
	var logs func(e *Expr)
	logs = func(e *Expr) {
		for _, m := range e.t {
			if underPos(m) {
				continue
			}
			for _, f := range m.f {
				switch {
				case f.a.kind == "fn" && f.a.name == "log":
					put(f.a.args[0])
					logs(f.a.args[0])
				case f.a.kind == "fn", f.a.kind == "poly":
					logs(f.a.args[0])
				}
			}
		}
	}
	logs(y)
	for _, m := range y.t {
		if underPos(m) {
			continue
		}
		for _, f := range m.f {
			if !isInt(f.x) {
				if f.a.kind == "poly" {
					put(f.a.args[0])
				} else {
					put(eOf(f.a))
				}
			}
		}
	}
	return dom
}

// ---- evaluation --------------------------------------------------------------

type termEnv struct {
	p    *Path
	m    *smallModels
	arr  map[string][]float64
	dims map[string][2]int64
	sc   map[string]float64
	rnd  uint64
	span float64
	pos  bool
	norm map[*Poly]*Poly
	crit map[string][]float64
	// equalities matter: thresholds are hit, and the outcome of comparisons of
	// equal values is atZero
	exact  bool
	atZero float64
	cost   *int // evaluations left
	seed   uint64
	zero   bool // some arrays are all zero
	tab    *termTable
	memo   map[[3]int64]memoVal
	defs   map[string]memoVal
}

type memoVal struct {
	x  tval
	ok bool
}

// termTable numbers the atoms of the terms that are being evaluated.
type termTable struct {
	ids   map[*eAtom]int64
	byKey map[string]int64
	dep   map[int64][2]bool // depends on the position, on the bound index
	monos map[*Expr][]*emono
}

func newTermTable() *termTable {
	return &termTable{map[*eAtom]int64{}, map[string]int64{}, map[int64][2]bool{}, map[*Expr][]*emono{}}
}

func (t *termTable) id(a *eAtom) int64 {
	if n, ok := t.ids[a]; ok {
		return n
	}
	n, ok := t.byKey[a.key]
	if !ok || a.key == "" {
		n = int64(len(t.ids) + 1)
		if a.key != "" {
			t.byKey[a.key] = n
		}
		t.dep[n] = [2]bool{a.has(cur), a.has(bound)}
	}
	t.ids[a] = n
	return n
}

func (t *termTable) of(e *Expr) []*emono {
	l, ok := t.monos[e]
	if !ok {
		for _, k := range e.keys() {
			l = append(l, e.t[k])
		}
		t.monos[e] = l
	}
	return l
}

// seedFor makes the draws for a name independent of the order of evaluation.
func (v *termEnv) seedFor(name string) {
	h := v.seed
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	for i := 0; i < 2; i++ {
		h ^= h >> 31
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 27
	}
	v.rnd = h
}

func (v *termEnv) draw() float64 {
	v.rnd = v.rnd*6364136223846793005 + 1442695040888963407
	f := float64(v.rnd>>11) / (1 << 53)
	if v.pos {
		return math.Min(0.05, v.span) + f*v.span
	}
	return (2*f - 1) * v.span
}

type tval struct{ v, m float64 } // value and magnitude of what was added up

func (v *termEnv) poly(q *Poly, at, in int64) (int64, bool) {
	var s int64
	if v.norm == nil {
		v.norm = map[*Poly]*Poly{}
	}
	nq, ok := v.norm[q]
	if !ok {
		// facts on the position hold for that of the element only
		nq = q
		if nq.hasAtom(cur) {
			nq = nq.substAtom(cur, pAtom("at⋄"))
		}
		if nq.hasAtom(bound) {
			nq = nq.substAtom(bound, pAtom("in⋄"))
		}
		nq = v.p.F.norm(nq)
		v.norm[q] = nq
	}
	for mo, c := range nq.t {
		t := c
		for _, a := range monoAtoms(mo) {
			var x int64
			switch a {
			case "at⋄", cur:
				x = at
			case "in⋄", bound:
				x = in
			default:
				y, ok := v.m.atom(a)
				if !ok {
					return 0, false
				}
				x = y
			}
			t *= x
		}
		s += t
	}
	return s, true
}

func (v *termEnv) eval(e *Expr, at, in int64) (tval, bool) {
	var s tval
	if e == nil {
		return s, false
	}
	for _, m := range v.tab.of(e) {
		t := tval{m.c, math.Abs(m.c)}
		zero := false
		for _, f := range m.f {
			if f.a.kind == "pos" || f.a.kind == "zero" {
				x, ok := v.atom(f.a, at, in)
				if !ok {
					return s, false
				}
				if x.v == 0 {
					zero = true
				}
			}
		}
		if zero {
			continue
		}
		for _, f := range m.f {
			x, ok := v.atom(f.a, at, in)
			if !ok {
				return s, false
			}
			y := math.Pow(x.v, f.x)
			if math.IsNaN(y) || math.IsInf(y, 0) || math.Abs(y) > 1e12 {
				return s, false
			}
			mag := math.Abs(y)
			if x.m > math.Abs(x.v) && x.v != 0 {
				mag *= math.Min(x.m/math.Abs(x.v), 1e6)
			}
			t.v *= y
			t.m *= mag
		}
		s.v += t.v
		s.m += t.m
	}
	return s, true
}

func (v *termEnv) atom(a *eAtom, at, in int64) (tval, bool) {
	id := v.tab.id(a)
	k := [3]int64{id, at, in}
	d := v.tab.dep[id]
	if !d[0] {
		k[1] = 0
	}
	if !d[1] {
		k[2] = 0
	}
	if r, ok := v.memo[k]; ok {
		return r.x, r.ok
	}
	x, ok := v.atom1(a, at, in)
	v.memo[k] = memoVal{x, ok}
	return x, ok
}

func (v *termEnv) atom1(a *eAtom, at, in int64) (tval, bool) {
	if *v.cost--; *v.cost < 0 {
		return tval{}, false
	}
	one := func(x float64) (tval, bool) {
		return tval{x, math.Abs(x)}, !math.IsNaN(x) && !math.IsInf(x, 0)
	}
	switch a.kind {
	case "ref", "tref":
		i, ok := v.poly(a.idx, at, in)
		if !ok {
			return tval{}, false
		}
		if d := defOf(a.name); d != nil {
			if a.kind == "tref" {
				r, c, known := v.p.shapeOf(a.name)
				if !known {
					return tval{}, false
				}
				rr, ok1 := v.poly(r, 0, 0)
				cc, ok2 := v.poly(c, 0, 0)
				if !ok1 || !ok2 || rr <= 0 {
					return tval{}, false
				}
				i = (i%rr)*cc + i/rr
			}
			return v.defined(d, i)
		}
		xs, ok := v.arr[a.name]
		if !ok {
			r, c, known := v.p.shapeOf(a.name)
			if !known {
				return tval{}, false
			}
			rr, ok1 := v.poly(r, 0, 0)
			cc, ok2 := v.poly(c, 0, 0)
			if !ok1 || !ok2 || rr*cc > 100 {
				return tval{}, false
			}
			v.seedFor(a.name)
			zero := v.zero && v.rnd>>33&1 == 1
			for j := int64(0); j < rr*cc; j++ {
				x := v.near(a.name, v.draw())
				if zero {
					x = 0
				}
				xs = append(xs, x)
			}
			v.arr[a.name] = xs
			v.dims[a.name] = [2]int64{rr, cc}
		}
		if a.kind == "tref" {
			d := v.dims[a.name]
			i = (i%d[0])*d[1] + i/d[0]
		}
		if i < 0 || i >= int64(len(xs)) {
			return tval{}, false
		}
		return one(xs[i])
	case "opq":
		if d, ok := foldDefs.Load(a.name); ok {
			return v.fold(d.(*foldDef), at, in)
		}
		return tval{}, false
	case "call":
		k := a.name
		for _, x := range a.args {
			y, ok := v.eval(x, at, in)
			if !ok {
				return y, false
			}
			k += fmt.Sprintf(",%.9g", y.v)
		}
		v.seedFor(k)
		return one(v.draw())
	case "sc":
		if a.name == infName {
			return tval{}, false
		}
		x, ok := v.sc[a.name]
		if !ok {
			v.seedFor(a.name)
			x = v.draw()
			if r, has := v.p.T.sc[a.name]; has {
				pos, span := v.pos, v.span
				v.pos, v.span = true, 1
				x = r[0] + (v.draw()-0.05)*(r[1]-r[0])
				v.pos, v.span = pos, span
			}
			x = v.near(a.name, x)
			if e, has := v.p.T.exact[a.name]; has && v.rnd>>40&1 == 1 {
				x = e
			}
			v.sc[a.name] = x
		}
		return one(x)
	case "int":
		x, ok := v.poly(pAtom(a.name), at, in)
		if !ok {
			return tval{}, false
		}
		return one(float64(x))
	case "fn":
		x, ok := v.eval(a.args[0], at, in)
		f, have := fnTable[a.name]
		if !ok || !have {
			return tval{}, false
		}
		return one(f(x.v))
	case "poly":
		return v.eval(a.args[0], at, in)
	case "pow":
		x, ok1 := v.eval(a.args[0], at, in)
		y, ok2 := v.eval(a.args[1], at, in)
		if !ok1 || !ok2 {
			return tval{}, false
		}
		return one(math.Pow(x.v, y.v))
	case "zero":
		d, ok := v.eval(a.args[0], at, in)
		if !ok || d.v != 0 && math.Abs(d.v) <= 1e-6*d.m {
			return tval{}, false
		}
		if d.v == 0 {
			return one(1)
		}
		return tval{}, true
	case "pos":
		d, ok := v.eval(a.args[0], at, in)
		if ok && d.v == 0 && v.exact {
			return one(v.atZero)
		}
		if !ok || math.Abs(d.v) <= 1e-6*d.m && d.m > 0 {
			return tval{}, false
		}
		if d.v > 0 {
			return one(1)
		}
		return tval{}, true
	case "sum":
		n, ok := v.poly(a.n, 0, 0)
		if !ok || n > 200 {
			return tval{}, false
		}
		var s tval
		for j := int64(0); j < n; j++ {
			x, ok := v.eval(a.args[0], at, j)
			if !ok {
				return s, false
			}
			s.v += x.v
			s.m += x.m
		}
		return s, true
	case "mul":
		i, ok := v.poly(a.idx, at, in)
		k, ok1 := v.poly(a.k, 0, 0)
		m, ok2 := v.poly(a.m, 0, 0)
		if !ok || !ok1 || !ok2 || m == 0 {
			return tval{}, false
		}
		var s tval
		for j := int64(0); j < k; j++ {
			x, ok1 := v.eval(a.args[0], i/m*k+j, 0)
			y, ok2 := v.eval(a.args[1], j*m+i%m, 0)
			if !ok1 || !ok2 {
				return s, false
			}
			s.v += x.v * y.v
			s.m += x.m * y.m
		}
		return s, true
	}
	return tval{}, false
}

// solve moves one coordinate of the instance so that d = 0.
func (v *termEnv) solve(d *Expr) bool {
	defer clear(v.memo)
	zero := func() (float64, bool) {
		clear(v.memo)
		x, ok := v.eval(d, 0, 0)
		return x.v, ok && math.Abs(x.v) <= 1e-9*math.Max(1, x.m)
	}
	if _, ok := zero(); ok {
		return true
	}
	if n, c, ok := solveSc(d); ok {
		old := v.sc[n]
		x, _ := c.isConst()
		v.sc[n] = x
		if _, ok := zero(); ok {
			return true
		}
		v.sc[n] = old
	}
	used := map[string]bool{}
	d.each(func(a *eAtom) {
		if a.kind == "ref" || a.kind == "tref" {
			used[a.name] = true
		}
	})
	var names []string
	for n := range v.arr {
		if used[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		xs := v.arr[n]
		for i := range xs {
			if i >= 4 {
				break
			}
			old := xs[i]
			a, b := old, old+1
			fa, _ := zero()
			for it := 0; it < 60; it++ {
				xs[i] = b
				fb, ok := zero()
				if ok {
					return true
				}
				if fb == fa || math.IsNaN(fb) || math.Abs(b) > 1e6 {
					break
				}
				a, b, fa = b, b-fb*(b-a)/(fb-fa), fb
			}
			xs[i] = old
		}
	}
	for _, n := range names {
		for i := range v.arr[n] {
			v.arr[n][i] = 0
		}
		if _, ok := zero(); ok {
			return true
		}
	}
	return false
}

// near replaces some draws by values around the thresholds that the compared
// terms and the path distinguish.
func (v *termEnv) near(name string, x float64) float64 {
	c := v.crit[name]
	if len(c) == 0 {
		return x
	}
	v.rnd = v.rnd*6364136223846793005 + 1442695040888963407
	i := int(v.rnd>>33) % (len(c) + 1)
	if i == len(c) {
		return x
	}
	v.rnd = v.rnd*6364136223846793005 + 1442695040888963407
	d := []float64{-0.5, -0.1, -0.01, 0.01, 0.1, 0.5}[int(v.rnd>>33)%6]
	if v.exact && int(v.rnd>>40)%2 == 0 {
		return c[i]
	}
	if c[i] == 0 {
		return d
	}
	return c[i] * (1 + d)
}

// scalarGuards returns the conditions in the terms that depend on scalars only
// and are not a plain comparison of one of them with a constant.
func scalarGuards(es ...*Expr) []*Expr {
	var out []*Expr
	seen := map[string]bool{}
	for _, e := range es {
		e.each(func(a *eAtom) {
			if a.kind != "pos" || seen[a.args[0].key()] {
				return
			}
			seen[a.args[0].key()] = true
			sc, arr, n := false, false, 0
			a.args[0].each(func(x *eAtom) {
				n++
				switch x.kind {
				case "sc":
					sc = true
				case "ref", "tref", "sum", "mul":
					arr = true
				}
			})
			if sc && !arr && n > 1 {
				out = append(out, a.args[0])
			}
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// edge moves one scalar of the instance next to a zero of d, on the side of it
// where d has the other sign.
func (v *termEnv) edge(d *Expr) {
	f0, ok := v.eval(d, 0, 0)
	if !ok || f0.v == 0 {
		return
	}
	used := map[string]bool{}
	d.each(func(a *eAtom) {
		if a.kind == "sc" {
			used[a.name] = true
		}
	})
	var names []string
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	defer clear(v.memo)
	for _, n := range names {
		old := v.sc[n]
		lo, hi := -v.span, v.span
		if r, has := v.p.T.sc[n]; has {
			lo, hi = r[0], r[1]
		}
		sign := func(x float64) (float64, bool) {
			v.sc[n] = x
			clear(v.memo)
			f, ok := v.eval(d, 0, 0)
			return f.v * f0.v, ok
		}
		for i := 1; i <= 24; i++ {
			b := lo + (hi-lo)*float64(i)/25
			if s, ok := sign(b); !ok || s >= 0 {
				continue
			}
			a := old
			for it := 0; it < 50 && math.Abs(a-b) > 1e-4*math.Max(math.Abs(a), math.Abs(b)); it++ {
				m := (a + b) / 2
				s, ok := sign(m)
				if !ok {
					break
				}
				if s < 0 {
					b = m
				} else {
					a = m
				}
			}
			v.sc[n] = b
			return
		}
		v.sc[n] = old
	}
}

// thresholds are the constants that single elements or parameters are compared
// with.
func (p *Path) thresholds(es ...*Expr) map[string][]float64 {
	out := map[string][]float64{}
	take := func(d *Expr) {
		if d == nil {
			return
		}
		c0, c1, name := 0.0, 0.0, ""
		for k, m := range d.t {
			switch {
			case k == "":
				c0 = m.c
			case len(m.f) == 1 && m.f[0].x == 1 && name == "" && (m.f[0].a.kind == "sc" || m.f[0].a.kind == "ref" || m.f[0].a.kind == "tref"):
				name, c1 = m.f[0].a.name, m.c
			default:
				return
			}
		}
		if name == "" {
			return
		}
		x := -c0 / c1
		for _, y := range out[name] {
			if x == y {
				return
			}
		}
		out[name] = append(out[name], x)
		sort.Float64s(out[name])
	}
	for _, c := range p.T.conds {
		take(c.c.d)
	}
	for _, e := range es {
		e.each(func(a *eAtom) {
			if a.kind == "pos" || a.kind == "zero" {
				take(a.args[0])
			}
		})
	}
	return out
}

// differ looks for an instance at which two terms differ.
func (p *Path) differ(a, b *Expr, n *Poly, y *Expr, ny *Poly) (map[string]int64, float64, float64, bool) {
	if a == nil || b == nil {
		return nil, 0, 0, false
	}
	// matrices larger than one element first
	old := p.F
	p.F = p.F.clone()
	var names []string
	for k := range p.T.shapes {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for _, d := range p.T.shapes[k] {
			f := p.F.clone()
			f.addGE(pSub(d, pConst(2)))
			if !f.bad {
				p.F = f
			}
		}
	}
	w, x, z, ok := p.differAt(a, b, n, y, ny)
	p.F = old
	if ok {
		return w, x, z, ok
	}
	if w, x, z, ok = p.differAt(a, b, n, y, ny); ok {
		return w, x, z, ok
	}
	// every combination of the comparisons of positions and sizes
	var guards []*Poly
	seen := map[string]bool{}
	for _, e := range []*Expr{a, b} {
		e.each(func(x *eAtom) {
			if x.kind != "pos" && x.kind != "zero" || seen[x.key] {
				return
			}
			seen[x.key] = true
			if q, ok := x.args[0].intPoly(); ok && len(guards) < 3 && !q.hasAtom(bound) {
				guards = append(guards, q)
			}
		})
	}
	sort.Slice(guards, func(i, j int) bool { return guards[i].key() < guards[j].key() })
	for m := 0; m < 1<<len(guards) && len(guards) > 0 && !ok; m++ {
		p.F = old.clone()
		for i, q := range guards {
			switch {
			case m>>i&1 == 0 && q.hasAtom(cur):
				continue
			case m>>i&1 == 0:
				q = pSub(pScale(q, -1), pConst(1))
			case q.hasAtom(cur):
				q = q.substAtom(cur, pSub(n, pConst(1)))
			}
			p.F.addGE(q)
		}
		if !p.F.bad {
			w, x, z, ok = p.differAt(a, b, n, y, ny)
		}
	}
	p.F = old
	// instances in which the elements taken are really others
	for _, g := range p.otherElements(a, b) {
		if ok {
			break
		}
		p.T.goal = g
		w, x, z, ok = p.differAt(a, b, n, y, ny)
		p.T.goal = nil
	}
	return w, x, z, ok
}

// otherElements are the distances between the positions two terms read an
// array at.
func (p *Path) otherElements(a, b *Expr) (l []*Poly) {
	refs := func(e *Expr) (l []*eAtom) {
		e.each(func(x *eAtom) {
			if x.kind == "ref" && x.idx != nil && !x.idx.hasAtom(bound) {
				l = append(l, x)
			}
		})
		return
	}
	rb := refs(b)
	for _, x := range refs(a) {
		for _, y := range rb {
			if x.name != y.name || len(l) == 4 {
				continue
			}
			d := p.F.norm(pSub(x.idx, y.idx))
			if _, c := d.isConst(); !c && !d.hasAtom(cur) {
				l = append(l, d)
			}
		}
	}
	return l
}

func (p *Path) differAt(a, b *Expr, n *Poly, y *Expr, ny *Poly) (map[string]int64, float64, float64, bool) {
	m := &smallModels{p: p, hi: 4, samples: p.T.samples}
	m.extra = []*Poly{n}
	if p.T.goal != nil {
		m.goals = []*Poly{p.T.goal}
	}
	for _, s := range p.T.shapes {
		m.extra = append(m.extra, s[0], s[1])
	}
	tried := 0
	norms := map[*Poly]*Poly{}
	crit := p.thresholds(a, b, y)
	zeros := append(a.zeros(), b.zeros()...)
	guards := scalarGuards(a, b)
	cost := 3000000
	tab := newTermTable()
	var gv, wv float64
	found := m.search(func() bool {
		if tried++; cost < 0 {
			return true
		}
		for try := 0; try < 40; try++ {
			env := &termEnv{p: p, m: m, arr: map[string][]float64{}, dims: map[string][2]int64{}, sc: map[string]float64{}, norm: norms, cost: &cost, tab: tab, memo: map[[3]int64]memoVal{}}
			env.seed = uint64(try*7919+tried*104729) + 12345
			env.span = []float64{2, 1, 5, 30, 0.9}[try%5]
			if len(p.T.conds) > 0 && try%13 == 12 {
				env.span = 1e-8 // close to where everything vanishes
			}
			env.pos = try%10 >= 5
			env.zero = try%9 == 8
			if try%4 >= 2 {
				env.crit = crit
			}
			env.exact = len(zeros) > 0
			if env.exact && try%4 == 3 {
				env.solve(zeros[try/4%len(zeros)].args[0])
			}
			if len(guards) > 0 && try%8 == 7 {
				env.edge(guards[try/8%len(guards)])
			}
			ok := true
			for _, c := range p.T.conds {
				if c.c.d == nil {
					ok = false
					break
				}
				cd := p.canon(c.c.d)
				if c.c.eq && c.v != c.c.neg {
					if _, _, solved := solveSc(c.c.d); solved && p.I.exactEq {
						continue
					}
					if !p.I.exactEq && !p.I.zeros || !env.solve(cd) {
						ok = false
						break
					}
					continue
				}
				x, k := env.eval(cd, 0, 0)
				if !k || math.Abs(x.v) <= 1e-6*x.m && !(x.m == 0 && p.I.zeros) {
					ok = false
					break
				}
				holds := x.v > 0
				if c.c.eq {
					holds = false
				}
				if (holds != c.c.neg) != c.v {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			sz, ok := env.poly(n, 0, 0)
			if !ok {
				return false
			}
			ysz, ok := env.poly(ny, 0, 0)
			for i := int64(0); ok && i < ysz; i++ {
				_, ok = env.eval(y, i, 0)
			}
			if !ok {
				continue // outside the domain of the function
			}
			for i := int64(0); i < sz; i++ {
				x, k1 := env.eval(a, i, 0)
				y, k2 := env.eval(b, i, 0)
				if !k1 || !k2 {
					break
				}
				if apart(x, y) {
					if env.exact {
						env.atZero = 1
						clear(env.memo)
						x1, k1 := env.eval(a, i, 0)
						y1, k2 := env.eval(b, i, 0)
						env.atZero = 0
						clear(env.memo)
						if !k1 || !k2 || !apart(x1, y1) {
							continue
						}
					}
					gv, wv = x.v, y.v
					return true
				}
			}
		}
		return tried >= 12
	})
	if !found || gv == wv {
		return nil, 0, 0, false
	}
	return m.val, gv, wv, true
}

func apart(x, y tval) bool {
	return math.Abs(x.v-y.v) > 1e-5*math.Max(x.m, y.m) && math.Abs(x.v-y.v) > 1e-9
}

// floating reports whether a term reads an element at a position that is only
// known as a loop counter.
func floating(e *Expr) bool {
	r := false
	e.each(func(a *eAtom) {
		for _, q := range []*Poly{a.idx, a.n, a.k, a.m} {
			if q == nil {
				continue
			}
			for m := range q.t {
				if strings.ContainsAny(m, "φ⟨?") {
					r = true
				}
			}
		}
		if a.kind == "int" && strings.ContainsAny(a.name, "φ⟨?") {
			r = true
		}
	})
	return r
}

// judgeDerivative compares every delivered gradient with the derivative of the
// result.
func (r *opResult) judgeDerivative(u *opUnit, op *opPath) {
	p := op.p
	p.stack = nil
	p.protect = true
	if op.end != nil {
		if op.end.kind == "unsupported" || op.end.kind == "limit" {
			r.add("unknown", "C18", "construct", op.stage, op.end.pos, "%s", op.end.msg)
		}
		return
	}
	if p.aliases(op.inputs) != nil {
		return
	}
	for _, c := range p.T.conds {
		if c.c.eq && c.v != c.c.neg {
			return // a null set of values
		}
	}
	r.done++
	ya := p.floatArr(op.y)
	// what an operand is delivered more than once adds up
	type delivery struct {
		e   Event
		got *Expr
		one *Arr
	}
	var ds []*delivery
	byName := map[string]*delivery{}
	for _, e := range p.events {
		if e.Kind != "acc" || e.Phase != "backward" {
			continue
		}
		ga := p.floatArr(e.Val)
		d := byName[e.Name]
		if d == nil {
			d = &delivery{e: e, got: eConst(0), one: ga}
			byName[e.Name] = d
			ds = append(ds, d)
		}
		if ga == nil {
			d.one = nil
			d.got = nil
		} else {
			d.got = eAdd(d.got, p.content(ga))
		}
	}
	for _, d := range ds {
		e, ga := d.e, d.one
		sub := "operand " + plain(e.Name)
		rr, cc, known := p.shapeOf(e.Name)
		if ya == nil || ga == nil || !known {
			r.add("unknown", "C18", "gradient is the derivative", sub, e.Pos, "no term")
			continue
		}
		if p.T.bad != "" {
			r.add("unknown", "C18", "gradient is the derivative", sub, e.Pos, "%s", p.T.bad)
			continue
		}
		if p.content(ya) == nil || d.got == nil {
			r.add("unknown", "C18", "gradient is the derivative", sub, e.Pos, "the term of the %s is not known [path: %s]", map[bool]string{true: "result", false: "gradient"}[p.content(ya) == nil], op.cond())
			continue
		}
		n := p.F.norm(pMul(rr, cc))
		ny := p.F.norm(pMul(op.yDims[0], op.yDims[1]))
		y := p.canon(p.content(ya))
		if p.isOne(ny) {
			y = p.canon(y.at(cur, pConst(0)))
		}
		want := p.canon(p.vjp(y, p.canon(eEl("gy")), ny, e.Name))
		got := p.canon(d.got)
		if p.isOne(n) {
			want, got = p.canon(want.at(cur, pConst(0))), p.canon(got.at(cur, pConst(0)))
		}
		if floating(got) || floating(want) {
			r.add("unknown", "C18", "gradient is the derivative", sub, e.Pos, "the gradient is read at a position that is not known: %s", got.key())
			continue
		}
		if want == nil || got == nil {
			r.add("unknown", "C18", "gradient is the derivative", sub, e.Pos, "the derivative of %s is not known", y.key())
			continue
		}
		if p.same(got, want, n, domain(y)) {
			r.add("ok", "C18", "gradient is the derivative", sub, "", "")
			continue
		}
		if w, gv, wv, ok := p.differ(got, want, n, y, ny); ok {
			r.add("fail", "C18", "gradient is the derivative", sub, e.Pos, "result %s; gradient delivered %s, derivative %s; they differ (%.6g against %.6g), for example with %s [path: %s]", y.key(), got.key(), want.key(), gv, wv, witnessText(w), op.cond())
			continue
		}
		r.add("unknown", "C18", "gradient is the derivative", sub, e.Pos, "%s against %s not decided", got.key(), want.key())
	}
}
