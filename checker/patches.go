package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Arrays that are written piece by piece. A patch is the effect of one store or
// copy in a nest of summarised loops: the positions off + Σ s_i·α_i, 0 ≤ α_i <
// n_i, each reached once, hold e(α). Patches are ordered; what none of them
// covers is the content before them.

type pdim struct {
	n, s *Poly
	a    string // α
}

type patch struct {
	off   *Poly
	dims  []pdim // by falling stride
	e     *Expr
	raw   *Poly // position and value in the iteration that made it
	rawE  *Expr
	loops []*loopState
}

// arrDef is a content made of patches. Terms refer to it by name.
type arrDef struct {
	base *Expr
	ps   []*patch
	n    *Poly
	name string
}

var (
	arrDefs   = map[string]*arrDef{}
	arrDefsMu sync.Mutex
)

const defMark = "§"

func defOf(name string) *arrDef {
	if !strings.HasPrefix(name, defMark) {
		return nil
	}
	arrDefsMu.Lock()
	defer arrDefsMu.Unlock()
	return arrDefs[name]
}

// key describes a patch independently of the names of its variables.
func (t *patch) key() string {
	var sb strings.Builder
	e := t.e
	for i, d := range t.dims {
		fmt.Fprintf(&sb, "%s*%s,", d.n.key(), d.s.key())
		e = e.at(d.a, pAtom(fmt.Sprintf("α%d", i)))
	}
	return t.off.key() + "+" + sb.String() + "=" + e.key()
}

func (d *arrDef) uses(src string) bool {
	if d.base == nil || d.base.uses(src) {
		return true
	}
	for _, t := range d.ps {
		if t.e == nil || t.e.uses(src) {
			return true
		}
	}
	return false
}

// content is the term of the element of a at the current position.
func (p *Path) content(a *Arr) *Expr {
	if len(a.ps) == 0 {
		return a.e
	}
	d := &arrDef{base: a.e, ps: append([]*patch(nil), a.ps...), n: a.length}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s", d.base.key(), d.n.key())
	for _, t := range d.ps {
		fmt.Fprintf(h, "|%s", t.key())
	}
	d.name = fmt.Sprintf("%s%016x", defMark, h.Sum64())
	arrDefsMu.Lock()
	if o, ok := arrDefs[d.name]; ok {
		d = o
	} else {
		arrDefs[d.name] = d
	}
	arrDefsMu.Unlock()
	return eEl(d.name)
}

// lost forgets the content of an array.
func (a *Arr) lost() { a.e, a.ps = nil, nil }

// genericLoops are the loops in their summarised iteration, outermost first.
func (p *Path) genericLoops() []*loopState {
	var ls []*loopState
	for _, fr := range p.stack {
		for _, st := range fr.loops {
			if st.mode == lmGeneric && st.entered {
				ls = append(ls, st)
			}
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].seq < ls[j].seq })
	return ls
}

// linearIn splits q into rest + s·k.
func linearIn(q *Poly, k string) (rest, s *Poly, ok bool) {
	rest, s = &Poly{map[string]int64{}}, &Poly{map[string]int64{}}
	for m, c := range q.t {
		has := false
		for _, a := range monoAtoms(m) {
			if a == k {
				has = true
			}
		}
		t := &Poly{map[string]int64{m: c}}
		if !has {
			rest = pAdd(rest, t)
			continue
		}
		d, ok := monoDiv(m, k)
		if !ok {
			return nil, nil, false
		}
		s = pAdd(s, &Poly{map[string]int64{d: c}})
	}
	return rest, s, !s.hasAtom(k)
}

// addPatch records that e is written at off (run == nil), or at the run
// elements from off on (e over the position •).
func (p *Path) addPatch(a *Arr, off *Poly, e *Expr, run *Poly) {
	off = p.F.norm(off)
	depth := p.loopers - a.lvl
	ls := p.genericLoops()
	if depth < 0 {
		depth = 0
	}
	if depth > len(ls) {
		a.lost()
		return
	}
	ls = ls[len(ls)-depth:]
	for _, l := range ls {
		if l.n == nil {
			a.lost()
			return
		}
		for _, o := range ls {
			if p.F.norm(l.n).hasAtom(atomOf(o.k)) {
				a.lost()
				return
			}
		}
	}
	if a.sw != nil && a.sw.mode == lmGeneric && a.sw.entered && (len(ls) == 0 || a.sw.seq >= ls[0].seq) {
		// the sweep of this very loop comes back to the element
		a.lost()
		return
	}
	t := &patch{raw: off, rawE: e, loops: ls}
	var dims []pdim
	name := func() string { return fmt.Sprintf("α%d.%d", p.nid(), len(dims)) }
	if run != nil {
		d := pdim{p.F.norm(run), pConst(1), name()}
		if p.F.eqZero(d.n) == 1 {
			return
		}
		e = e.at(cur, pAtom(d.a))
		dims = append(dims, d)
	}
	for _, l := range ls {
		k := atomOf(l.k)
		rest, s, ok := linearIn(off, k)
		if !ok {
			a.lost()
			return
		}
		for _, o := range ls {
			if s.hasAtom(atomOf(o.k)) {
				a.lost()
				return
			}
		}
		d := pdim{p.F.norm(l.n), p.F.norm(s), name()}
		switch {
		case p.F.geZero(s):
			off = p.F.norm(pAdd(rest, pMul(s, pAtom(d.a))))
			e = e.at(k, pAtom(d.a))
		case p.F.geZero(pScale(s, -1)):
			d.s = p.F.norm(pScale(s, -1))
			back := pSub(pSub(l.n, pConst(1)), pAtom(d.a))
			off = p.F.norm(pAdd(rest, pMul(s, back)))
			e = e.at(k, back)
		default:
			a.lost()
			return
		}
		dims = append(dims, d)
	}
	for _, d := range dims {
		if run != nil && d.a == dims[0].a {
			continue
		}
		rest, _, ok := linearIn(off, d.a)
		if !ok {
			a.lost()
			return
		}
		off = rest
	}
	// by falling stride, each larger than what the finer ones span
	for i := range dims {
		best := -1
		for j := i; j < len(dims); j++ {
			top := true
			for k := i; k < len(dims); k++ {
				if k != j && !p.F.geZero(pSub(dims[j].s, pMul(dims[k].s, dims[k].n))) {
					top = false
				}
			}
			if top {
				best = j
				break
			}
		}
		if best < 0 {
			a.lost()
			return
		}
		dims[i], dims[best] = dims[best], dims[i]
	}
	if n := len(dims); n > 0 && !p.F.geZero(pSub(dims[n-1].s, pConst(1))) {
		a.lost()
		return
	}
	t.off, t.dims, t.e = p.F.norm(off), dims, p.normIdx(e)
	if e == nil {
		t.e = nil
	}
	if len(ls) > 0 {
		for _, r := range a.rlog {
			if r.seq < ls[0].seq {
				continue
			}
			if r.idx == nil {
				p.spoil("a whole array read while a loop overwrites it")
				break
			}
			if run == nil && pEq(p.F.norm(r.idx), t.raw) {
				continue
			}
			if in, _, _ := p.within(t, r.idx); in != -1 {
				p.spoil("an array read elsewhere while a loop overwrites it")
				break
			}
		}
	}
	a.ps = append(a.ps, t)
}

// within decides whether idx is one of the positions of t: 1 with the values of
// the variables, -1 when it is none, 0 with the expression to split on.
func (p *Path) within(t *patch, idx *Poly) (int, map[string]*Poly, *Poly) {
	d := p.F.norm(pSub(idx, t.off))
	val := map[string]*Poly{}
	if len(t.dims) == 0 {
		switch p.F.eqZero(d) {
		case 1:
			return 1, val, nil
		case -1:
			return -1, nil, nil
		}
		if !p.F.geZero(d) {
			return 0, nil, d
		}
		return 0, nil, pSub(d, pConst(1))
	}
	for _, x := range t.dims {
		if p.F.geZero(pScale(x.n, -1)) {
			return -1, nil, nil // an empty loop
		}
	}
	return p.within1(t.dims, d, val)
}

func (p *Path) within1(dims []pdim, d *Poly, val map[string]*Poly) (int, map[string]*Poly, *Poly) {
	x := dims[0]
	one := pConst(1)
	// below or above everything
	if p.F.geZero(pSub(pScale(d, -1), one)) {
		return -1, nil, nil
	}
	span := pConst(0)
	for _, y := range dims {
		span = pAdd(span, pMul(y.s, pSub(y.n, one)))
	}
	if p.F.geZero(pSub(pSub(d, span), one)) {
		return -1, nil, nil
	}
	if p.F.eqZero(pSub(x.s, one)) == 1 && len(dims) == 1 {
		lo, hi := p.F.geZero(d), p.F.geZero(pSub(pSub(x.n, d), one))
		if lo && hi {
			val[x.a] = d
			return 1, val, nil
		}
		if !lo {
			return 0, nil, d
		}
		return 0, nil, pSub(pSub(x.n, d), one)
	}
	q, r, ok := p.divide(d, x.s)
	if !ok {
		return 0, nil, nil
	}
	if p.F.geZero(pSub(pScale(q, -1), one)) || p.F.geZero(pSub(q, x.n)) {
		return -1, nil, nil
	}
	if !p.F.geZero(q) {
		return 0, nil, q
	}
	if h := pSub(pSub(x.n, q), one); !p.F.geZero(h) {
		return 0, nil, h
	}
	val[x.a] = q
	if len(dims) == 1 {
		switch p.F.eqZero(r) {
		case 1:
			return 1, val, nil
		case -1:
			return -1, nil, nil
		}
		if !p.F.geZero(r) {
			return 0, nil, r
		}
		return 0, nil, pSub(r, one)
	}
	return p.within1(dims[1:], r, val)
}

// divide gives q, r with d = q·s + r and 0 ≤ r < s.
func (p *Path) divide(d, s *Poly) (q, r *Poly, ok bool) {
	d, s = p.F.norm(d), p.F.norm(s)
	if len(s.t) != 1 {
		// try every monomial of s as the leading one
		for _, lead := range s.monos() {
			if lead == "" {
				continue
			}
			if q, r, ok = p.quotient(d, s, lead); ok {
				return q, r, true
			}
		}
		return nil, nil, false
	}
	return p.quotient(d, s, atomOf(s))
}

func (p *Path) quotient(d, s *Poly, lead string) (q, r *Poly, ok bool) {
	q, r = divideBy(d, s, lead)
	for _, adj := range []int64{0, -1, 1} {
		q2, r2 := pAdd(q, pConst(adj)), pSub(r, pScale(s, adj))
		if p.remainder(r2, s) {
			return q2, r2, true
		}
	}
	return nil, nil, false
}

func (p *Path) remainder(r, s *Poly) bool {
	return p.F.geZero(r) && p.F.geZero(pSub(pSub(s, r), pConst(1)))
}

func divideBy(d, s *Poly, lead string) (q, r *Poly) {
	q, r = pConst(0), d
	c := s.t[lead]
	for i := 0; i < 20; i++ {
		done := true
		for _, m := range r.monos() {
			v := r.t[m]
			if v%c != 0 {
				continue
			}
			f := ""
			ok := true
			if lead != "" {
				f, ok = monoDiv(m, lead)
			} else {
				f = m
			}
			if !ok {
				continue
			}
			t := &Poly{map[string]int64{f: v / c}}
			q = pAdd(q, t)
			r = pSub(r, pMul(t, s))
			done = false
			break
		}
		if done {
			break
		}
	}
	return q, r
}

// active reports whether the loop that made a patch is still in the iteration
// that did.
func (t *patch) active() bool {
	for _, l := range t.loops {
		if l.mode == lmGeneric && l.entered {
			return true
		}
	}
	return false
}

// element is the element of a patched array at idx, or nil and, when that would
// help, the expression whose sign decides.
func (p *Path) element(base *Expr, ps []*patch, idx *Poly) (*Expr, *Poly) {
	idx = p.F.norm(idx)
	for i := len(ps) - 1; i >= 0; i-- {
		t := ps[i]
		if t.active() {
			if len(t.dims) == len(t.loops) && pEq(p.F.norm(t.raw), idx) {
				return t.rawE, nil
			}
			if in, _, _ := p.within(t, idx); in == -1 {
				continue
			}
			p.spoil("an array read elsewhere while a loop overwrites it")
			return nil, nil
		}
		in, val, split := p.within(t, idx)
		switch in {
		case -1:
			continue
		case 0:
			return nil, split
		}
		e := t.e
		for a, v := range val {
			e = e.at(a, v)
		}
		return p.normIdx(e), nil
	}
	return p.normIdx(base.at(cur, idx)), nil
}

// unfold replaces the elements of patched arrays by what they hold; split is an
// expression whose sign is needed.
func (p *Path) unfold(e *Expr, depth int) (r *Expr, split *Poly) {
	ok := true
	fail := func(a *eAtom, s *Poly) (*Expr, bool) {
		ok = false
		if split == nil {
			split = s
		}
		return eOf(a), false
	}
	r = e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		switch a.kind {
		case "sum":
			if !a.args[0].patched() {
				return eOf(a), false
			}
			x, s := p.unfoldSum(a.args[0], p.F.norm(a.n), depth)
			if x == nil {
				return fail(a, s)
			}
			return x, false
		case "mul":
			if !a.args[0].patched() && !a.args[1].patched() {
				return eOf(a), false
			}
			if depth > 8 {
				return fail(a, nil)
			}
			k, m, idx := p.F.norm(a.k), p.F.norm(a.m), p.F.norm(a.idx)
			x := p.smallMul(a.args[0], a.args[1], k, m, idx)
			if x == nil && !idx.hasAtom(bound) {
				if q, r, ok := p.divide(idx, m); ok {
					b := pAtom(bound)
					x = sumOf(eMul(a.args[0].at(cur, pAdd(pMul(q, k), b)), a.args[1].at(cur, pAdd(pMul(b, m), r))), k)
				}
			}
			var s *Poly
			if x != nil {
				x, s = p.unfold(x, depth+1)
			}
			if x == nil {
				return fail(a, s)
			}
			return x, false
		case "ref", "tref":
		default:
			return nil, true
		}
		d := defOf(a.name)
		if d == nil {
			return eOf(a), false
		}
		if depth > 8 {
			return fail(a, nil)
		}
		at := a.idx
		if a.kind == "tref" {
			r, c, known := p.shapeOf(a.name)
			if !known {
				return fail(a, nil)
			}
			// element t of the transposed matrix is in row t mod r
			nr, k1 := r.isConst()
			t, k2 := p.F.norm(at).isConst()
			if !k1 || !k2 || nr <= 0 {
				return fail(a, nil)
			}
			at = pAdd(pScale(c, t%nr), pConst(t/nr))
		}
		x, s := p.element(d.base, d.ps, at)
		if x != nil {
			x, s = p.unfold(x, depth+1)
		}
		if x == nil {
			return fail(a, s)
		}
		return x, false
	})
	if !ok {
		return nil, split
	}
	return r, nil
}

// unfoldSum does so within a sum, which it takes apart where that helps.
func (p *Path) unfoldSum(e *Expr, n *Poly, depth int) (*Expr, *Poly) {
	if c, isc := n.isConst(); isc && c >= 0 && c <= 8 {
		r := eConst(0)
		for t := int64(0); t < c; t++ {
			x, s := p.unfold(e.at(bound, pConst(t)), depth+1)
			if x == nil {
				return nil, s
			}
			r = eAdd(r, x)
		}
		return r, nil
	}
	if depth > 8 {
		return nil, nil
	}
	old, b := p.F, pAtom(bound)
	p.F = p.outerF().clone()
	p.F.addGE(b)
	p.F.addGE(below(b, n))
	p.inSum = append(p.inSum, old)
	x, s := p.unfold(e, depth+1)
	p.inSum = p.inSum[:len(p.inSum)-1]
	p.F = old
	if x != nil {
		return sumOf(x, n), nil
	}
	if s == nil || !s.hasAtom(bound) {
		return nil, s
	}
	// s ≥ 0 holds from, or up to, some position on
	rest, c := pSub(s, b), int64(1)
	if rest.hasAtom(bound) {
		if rest, c = pAdd(s, b), -1; rest.hasAtom(bound) {
			return nil, nil
		}
	}
	at := pScale(rest, -1)
	if c < 0 {
		at = pAdd(rest, pConst(1))
	}
	f := p.outerF()
	if !f.geZero(at) || !f.geZero(pSub(n, at)) {
		return nil, nil
	}
	lo, s := p.unfoldSum(e, f.norm(at), depth+1)
	if lo == nil {
		return nil, s
	}
	hi, s := p.unfoldSum(e.at(bound, pAdd(at, b)), f.norm(pSub(n, at)), depth+1)
	if hi == nil {
		return nil, s
	}
	return eAdd(lo, hi), nil
}

// outerF are the facts that hold outside of all sums.
func (p *Path) outerF() *Facts {
	if len(p.inSum) > 0 {
		return p.inSum[0]
	}
	return p.F
}

// patched reports whether e reads a patched array.
func (e *Expr) patched() bool {
	r := false
	e.each(func(a *eAtom) { r = r || a.kind == "ref" && defOf(a.name) != nil })
	return r
}

// defined evaluates an element of a patched array at an instance.
func (v *termEnv) defined(d *arrDef, at int64) (tval, bool) {
	k := fmt.Sprintf("%s[%d]", d.name, at)
	if r, ok := v.defs[k]; ok {
		return r.x, r.ok
	}
	x, ok := v.defined1(d, at)
	if v.defs == nil {
		v.defs = map[string]memoVal{}
	}
	v.defs[k] = memoVal{x, ok}
	return x, ok
}

func (v *termEnv) defined1(d *arrDef, at int64) (tval, bool) {
	n, ok := v.poly(d.n, 0, 0)
	if !ok || at < 0 || at >= n {
		return tval{}, false
	}
	for i := len(d.ps) - 1; i >= 0; i-- {
		t := d.ps[i]
		off, ok := v.poly(t.off, 0, 0)
		if !ok {
			return tval{}, false
		}
		r := at - off
		e := t.e
		in := r >= 0
		for _, x := range t.dims {
			s, ok1 := v.poly(x.s, 0, 0)
			n, ok2 := v.poly(x.n, 0, 0)
			if !ok1 || !ok2 {
				return tval{}, false
			}
			if !in || s <= 0 || n <= 0 {
				in = false
				break
			}
			q := r / s
			if q >= n {
				in = false
				break
			}
			r -= q * s
			e = e.at(x.a, pConst(q))
		}
		if !in || r != 0 {
			continue
		}
		if e == nil {
			return tval{}, false
		}
		return v.eval(e, 0, 0)
	}
	return v.eval(d.base, at, 0)
}

// callTerm is the result of a function given by the caller: the same for the
// same arguments.
func (p *Path) callTerm(name string, args []Value) *Expr {
	if !p.I.terms {
		return nil
	}
	var es []*Expr
	for _, a := range args {
		var e *Expr
		switch x := a.(type) {
		case *Poly:
			e = eInt(p.F.norm(x))
		case *FloatV:
			e = x.e
		case Slice:
			if x.A == nil || x.A.lvl != p.loopers && p.loopers > 0 && len(x.A.ps) > 0 {
				return nil
			}
			n, ok := p.F.norm(x.Len).isConst()
			if !ok || !x.A.isFloat {
				return nil
			}
			for i := int64(0); i < n; i++ {
				v := p.loadTerm(x.A, pAdd(x.Off, pConst(i)))
				if v == nil {
					return nil
				}
				es = append(es, v)
			}
			continue
		default:
			return nil
		}
		if e == nil {
			return nil
		}
		es = append(es, e)
	}
	return eOf(&eAtom{kind: "call", name: name, args: es})
}

var _ = ssa.NaiveForm
