package main

import (
	"fmt"
	"go/token"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The terms domain: with Interp.terms set, floats carry a normal-form term over
// the elements of the inputs, and arrays the term of their element at the
// current position. Loops that sweep an array give the element-wise term, loop
// accumulators become sums, joins become conditional terms. Whatever does not
// fit is unknown (nil), and a path on which an element might be read in a state
// the model does not describe is spoiled as a whole.

type termState struct {
	cut     func(fn *ssa.Function, args []Value) (Value, bool) // calls that are not looked into
	bad     string
	seq     int
	trace   []termLit
	stores  []termStore
	shapes  map[string][2]*Poly
	alt     *Expr                 // what note says is computed
	samples map[string][]int64    // values worth trying for an integer
	exact   map[string]float64    // and for a scalar
	conds   []termLit             // float conditions the path depends on
	sc      map[string][2]float64 // ranges of scalars
	note    string
	goal    *Poly                   // what counterexamples keep apart from zero
	arms    map[interface{}]*armsOf // what joined values were joined of
	found   map[string]*Expr        // the element at a position a loop looked for
}

// armsOf are the alternatives a value was joined of; values of the same join
// have the same id.
type armsOf struct {
	id int
	vs []Value
}

func armKey(v Value) interface{} {
	switch x := v.(type) {
	case *FloatV:
		return x
	case *Poly:
		return x.key()
	}
	return nil
}

func (p *Path) noteArms(phis []*ssa.Phi, merged map[*ssa.Phi]Value, vals [][]Value) {
	if !p.I.terms {
		return
	}
	if p.T.arms == nil {
		p.T.arms = map[interface{}]*armsOf{}
	}
	id := p.nid()
	for i, ph := range phis {
		if k := armKey(merged[ph]); k != nil {
			p.T.arms[k] = &armsOf{id, vals[i]}
		}
	}
}

// foundAt relates the position a loop looked for to the value found there: v is
// the element of one array at position pos whenever the loop's header runs.
func (p *Path) foundAt(st *loopState, vals, final []Value) {
	if !p.I.terms {
		return
	}
	for i := range st.phis {
		fp, ok := final[i].(*Poly)
		gi, ok2 := st.gen[i].(*Poly)
		ii, ok3 := st.init[i].(*Poly)
		if !ok || !ok2 || !ok3 || !pEq(fp, pAtom(atomOf(fp))) {
			continue
		}
		ai := p.T.arms[armKey(vals[i])]
		if ai == nil {
			continue
		}
		for j := range st.phis {
			gj, ok := st.gen[j].(*FloatV)
			ff, ok2 := final[j].(*FloatV)
			if !ok || !ok2 || ff.e == nil {
				continue
			}
			aj := p.T.arms[armKey(vals[j])]
			if aj == nil || aj.id != ai.id {
				continue
			}
			src := ""
			ok = p.elementAt(p.toFloat(st.init[j]).e, ii, &src)
			for k := range ai.vs {
				x, y := p.intVal(ai.vs[k]), p.toFloat(aj.vs[k])
				if pEq(p.F.norm(x), p.F.norm(gi)) && y.e != nil && gj.e != nil && y.e.key() == gj.e.key() {
					continue
				}
				ok = ok && p.elementAt(y.e, x, &src)
			}
			if ok {
				if p.T.found == nil {
					p.T.found = map[string]*Expr{}
				}
				p.T.found[src+"@"+atomOf(fp)] = ff.e
			}
		}
	}
}

// elementAt reports whether e is the element of one array at position i.
func (p *Path) elementAt(e *Expr, i *Poly, src *string) bool {
	if e == nil {
		return false
	}
	m := e.single()
	if m == nil || m.c != 1 || len(m.f) != 1 || m.f[0].x != 1 || m.f[0].a.kind != "ref" {
		return false
	}
	a := m.f[0].a
	if *src != "" && *src != a.name || p.F.eqZero(pSub(a.idx, i)) != 1 {
		return false
	}
	*src = a.name
	return true
}

// resolve replaces elements at positions a loop looked for by what it found.
func (p *Path) resolve(e *Expr) *Expr {
	if e == nil || len(p.T.found) == 0 {
		return e
	}
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		if a.kind == "ref" && a.idx != nil {
			q := p.F.norm(a.idx)
			if at := atomOf(q); at != "" && pEq(q, pAtom(at)) {
				if x := p.T.found[a.name+"@"+at]; x != nil {
					return x, false
				}
			}
		}
		return nil, true
	})
}

type termLit struct {
	c *BoolV
	v bool
}

type termStore struct {
	a   *Arr
	idx *Poly
	e   *Expr
}

type termRead struct {
	seq int
	idx *Poly
}

func (p *Path) spoil(f string, a ...interface{}) {
	if p.I.terms && p.T.bad == "" {
		p.T.bad = fmt.Sprintf(f, a...)
		if len(p.stack) > 0 {
			fr := p.stack[len(p.stack)-1]
			p.T.bad += " in " + fnName(fr.fn) + " " + p.I.P.pos(fr.at)
		}
	}
}

func (p *Path) eIntT(x *Poly) *Expr {
	if !p.I.terms {
		return nil
	}
	return eInt(p.F.norm(x))
}

func (p *Path) zeroTerm(a *Arr) *Expr {
	if !p.I.terms || !a.isFloat {
		return nil
	}
	return eConst(0)
}

func isCounter(a string) bool {
	return len(a) > 2 && a[0] == 'k' && a[1] >= '0' && a[1] <= '9' && strings.Contains(a, "⟨")
}

func polyCounter(q *Poly) bool {
	for m := range q.t {
		for _, a := range monoAtoms(m) {
			if strings.Contains(a, "⟨") || strings.Contains(a, "φ") {
				return true
			}
		}
	}
	return false
}

// termDecision keeps track of the conditions that separate values.
func (p *Path) termDecision(c *BoolV, v bool) {
	if !p.I.terms {
		return
	}
	if p.merging > 0 {
		p.T.trace = append(p.T.trace, termLit{c, v})
		return
	}
	if c.kind == bOpaque {
		if p.I.closed && strings.HasPrefix(c.key, "nil:") {
			p.spoil("a decision on an unknown reference")
		}
		if c.d != nil || c.eq {
			p.T.conds = append(p.T.conds, termLit{c, v})
			if p.I.sorts {
				p.consistent()
			}
		}
		if strings.HasPrefix(c.key, "fcmp") && p.loopers > 0 {
			p.spoil("a decision on an element inside a loop")
		}
		if strings.HasPrefix(c.key, "fcmp") && c.d == nil {
			p.spoil("a decision on an unknown value")
		}
	} else if p.loopers > 0 && c.p != nil && polyCounter(p.F.norm(c.p)) {
		p.spoil("a decision on a position inside a loop")
	}
}

// cmpTerm is the comparison of two known terms.
func (p *Path) cmpTerm(op token.Token, a, b *Expr) *BoolV {
	if !p.I.terms || a == nil || b == nil {
		return nil
	}
	d := eSub(a, b)
	if d == nil {
		return nil
	}
	if op == token.LSS || op == token.LEQ {
		d = eScale(d, -1)
	}
	if c, ok := d.isConst(); ok {
		switch op {
		case token.EQL:
			return vBool(c == 0)
		case token.NEQ:
			return vBool(c != 0)
		case token.GEQ, token.LEQ:
			return vBool(c >= 0)
		}
		return vBool(c > 0)
	}
	if i := d.infinite(); i != 0 {
		switch op {
		case token.EQL, token.NEQ:
			return vBool(op == token.NEQ)
		}
		return vBool(i > 0)
	}
	n, flip := eSign(d)
	if op == token.EQL || op == token.NEQ {
		if _, c := n.isConst(); c {
			n, _ = eSignLead(d)
		}
		return &BoolV{kind: bOpaque, key: "fcmpeq:" + n.key(), neg: op == token.NEQ, eq: true, d: n}
	}
	if c, ok := n.isConst(); ok {
		// never negative, or never positive: only zero makes a difference
		if (c < 0) != flip {
			return vBool(op == token.GEQ || op == token.LEQ)
		}
		if op == token.GEQ || op == token.LEQ {
			return vBool(true)
		}
		n, _ = eSignLead(d)
		return &BoolV{kind: bOpaque, key: "fcmpeq:" + n.key(), neg: true, eq: true, d: n}
	}
	return &BoolV{kind: bOpaque, key: "fcmp:" + n.key(), neg: flip, d: n}
}

func opTerm(op token.Token, a, b *Expr) *Expr {
	switch op {
	case token.ADD:
		return eAdd(a, b)
	case token.SUB:
		return eSub(a, b)
	case token.MUL:
		return eMul(a, b)
	case token.QUO:
		return eDiv(a, b)
	}
	return nil
}

func minMaxTerm(max bool, a, b *Expr) *Expr {
	if a == nil || b == nil {
		return nil
	}
	d := eSub(a, b)
	if !max {
		d = eScale(d, -1)
	}
	return eIte(d, a, b)
}

func fnTerm(name string, e *Expr) *Expr {
	if e == nil {
		return nil
	}
	switch name {
	case "Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Sinh", "Cosh", "Sqrt", "Abs", "Log1p", "Expm1", "Erf":
		return eFn(strings.ToLower(name), e)
	case "Exp2":
		return eFn("exp", eScale(e, 0.6931471805599453))
	case "Log2":
		return eScale(eFn("log", e), 1/0.6931471805599453)
	case "Log10":
		return eScale(eFn("log", e), 1/2.302585092994046)
	}
	if name == "Floor" && e.isDraw() {
		return eConst(0) // a number drawn from [0,1)
	}
	if c, ok := e.isConst(); ok {
		if f := map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round}[name]; f != nil {
			return eConst(f(c))
		}
	}
	return atomFn(strings.ToLower(name), e)
}

func (p *Path) noteRead(a *Arr, idx *Poly) {
	a.rlog = append(a.rlog, termRead{p.T.seq, idx})
	if a.sw != nil && a.sw.mode == lmGeneric && a.sw.entered {
		if idx == nil || a.swIdx == nil || !pEq(p.F.norm(a.swIdx), p.F.norm(idx)) {
			p.spoil("an array read elsewhere while a loop overwrites it")
		}
	}
}

// loadTerm is the element of a at idx.
func (p *Path) loadTerm(a *Arr, idx *Poly) *Expr {
	if !p.I.terms || idx == nil {
		return nil
	}
	for i := len(p.T.stores) - 1; i >= 0; i-- {
		s := p.T.stores[i]
		if s.a == a {
			if pEq(p.F.norm(s.idx), p.F.norm(idx)) {
				return s.e
			}
			return nil
		}
	}
	p.noteRead(a, idx)
	if len(a.ps) > 0 {
		e, _ := p.element(a.e, a.ps, idx)
		return e
	}
	return a.e.at(cur, p.F.norm(idx))
}

// sweepLoops are the summarised loops (one or two nested ones) that together
// visit every position of a exactly once with idx.
func (p *Path) sweepLoops(a *Arr, idx *Poly) (outer, inner *loopState) {
	var ls []*loopState
	for _, fr := range p.stack {
		for _, st := range fr.loops {
			if st.mode == lmGeneric && st.n != nil && st.entered {
				ls = append(ls, st)
			}
		}
	}
	idx = p.F.norm(idx)
	n := p.F.norm(a.length)
	for _, s := range ls {
		if pEq(p.F.norm(s.n), n) && (pEq(p.F.norm(s.k), idx) || pEq(p.F.norm(down(s)), idx)) {
			return nil, s
		}
		for _, o := range ls {
			if o != s && pEq(p.F.norm(pAdd(pMul(o.k, s.n), s.k)), idx) && pEq(p.F.norm(pMul(o.n, s.n)), n) {
				return o, s
			}
		}
	}
	return nil, nil
}

func (p *Path) storeTerm(a *Arr, idx *Poly, e *Expr) {
	if !p.I.terms {
		return
	}
	if p.merging > 0 {
		p.T.stores = append(p.T.stores, termStore{a, idx, e})
		return
	}
	p.applyStore(a, idx, e)
}

func atomOf(q *Poly) string {
	for m := range q.t {
		return m
	}
	return ""
}

func (p *Path) applyStore(a *Arr, idx *Poly, e *Expr) {
	idx = p.F.norm(idx)
	depth := p.loopers - a.lvl
	if depth <= 0 {
		n, ok := p.F.norm(a.length).isConst()
		if ok && n == 1 {
			a.e = e
			return
		}
		p.addPatch(a, idx, e, nil)
		return
	}
	o, s := p.sweepLoops(a, idx)
	if s == nil {
		p.addPatch(a, idx, e, nil)
		return
	}
	need, first := 1, s
	if o != nil {
		need = 2
		if o.seq < s.seq {
			first = o
		}
	}
	x := p.sweepTerm(e, idx, o, s)
	if depth != need || x == nil && e != nil {
		p.addPatch(a, idx, e, nil)
		return
	}
	for _, t := range a.ps {
		if t.active() {
			a.lost() // written elsewhere in the same iteration
			return
		}
	}
	for _, r := range a.rlog {
		if r.seq >= first.seq && (r.idx == nil || !pEq(p.F.norm(r.idx), idx)) {
			p.spoil("an array read elsewhere while a loop overwrites it")
		}
	}
	a.sw, a.swIdx = first, idx
	a.e, a.ps = x, nil
}

// sweepTerm rewrites a term at the position idx of a loop (nest) to one at the
// current position.
func (p *Path) sweepTerm(e *Expr, idx *Poly, o, s *loopState) *Expr {
	if e == nil {
		return nil
	}
	ks := atomOf(s.k)
	if o == nil {
		if !pEq(p.F.norm(s.k), idx) {
			return p.normIdx(e.at(ks, pSub(pSub(s.n, pConst(1)), pAtom(cur))))
		}
		return e.at(ks, pAtom(cur))
	}
	ko := atomOf(o.k)
	// transposed traversal: the source is read at k_s*n_o+k_o
	tr := p.F.norm(pAdd(pMul(s.k, o.n), o.k))
	ok := true
	r := e.mapAtoms(func(x *eAtom) (*Expr, bool) {
		switch x.kind {
		case "ref", "tref", "mul":
			if x.idx == nil || !x.idx.hasAtom(ks) && !x.idx.hasAtom(ko) {
				return eOf(x), false
			}
			i := p.F.norm(x.idx)
			if pEq(i, idx) {
				return eOf(&eAtom{kind: x.kind, name: x.name, idx: pAtom(cur), args: x.args, n: x.n, k: x.k, m: x.m}), false
			}
			if pEq(i, tr) && x.kind != "mul" {
				y := p.tr(eOf(&eAtom{kind: x.kind, name: x.name, idx: pAtom(cur)}), s.n, o.n)
				if y == nil {
					ok = false
				}
				return y, false
			}
			ok = false
			return eOf(x), false
		case "int":
			if x.name == ks || x.name == ko {
				ok = false
			}
			return eOf(x), false
		case "opq":
			if x.has(ks) || x.has(ko) {
				ok = false
			}
			return eOf(x), false
		}
		return nil, true
	})
	if !ok {
		return nil
	}
	return r
}

func down(s *loopState) *Poly { return pSub(pSub(s.n, pConst(1)), s.k) }

// normIdx normalises the positions under the facts of the path.
func (p *Path) normIdx(e *Expr) *Expr {
	return e.mapAtoms(func(x *eAtom) (*Expr, bool) {
		if x.idx != nil {
			return eOf(&eAtom{kind: x.kind, name: x.name, idx: p.F.norm(x.idx), args: x.args, n: x.n, k: x.k, m: x.m}), false
		}
		return nil, true
	})
}

// setTerm replaces the whole content.
func (p *Path) setTerm(a *Arr, e *Expr) {
	if !p.I.terms {
		return
	}
	if p.merging > 0 {
		p.spoil("a whole array written in a branch")
	}
	if p.loopers > a.lvl {
		a.lost()
		return
	}
	a.e, a.ps = e, nil
}

// kernelTerm is the content of a slice given to a vector kernel.
func (p *Path) kernelTerm(v Value) *Expr {
	s, ok := v.(Slice)
	if !ok || s.A == nil || !p.I.terms {
		return nil
	}
	p.noteRead(s.A, nil)
	for _, t := range s.A.ps {
		if t.active() {
			p.spoil("a whole array read while a loop overwrites it")
			return nil
		}
	}
	off := p.F.norm(s.Off)
	if p.F.eqZero(off) == 1 {
		return p.content(s.A)
	}
	return p.content(s.A).at(cur, pAdd(pAtom(cur), off))
}

// copyTerm copies the elements of s into d.
func (p *Path) copyTerm(d, s Slice) {
	if !p.I.terms || s.A == nil {
		d.A.lost()
		return
	}
	if p.F.eqZero(s.Len) == 1 || p.F.eqZero(d.Len) == 1 {
		return
	}
	n := s.Len
	if !p.F.geZero(pSub(d.Len, s.Len)) {
		if !p.F.geZero(pSub(s.Len, d.Len)) {
			d.A.lost()
			return
		}
		n = d.Len
	}
	e := p.kernelTerm(s)
	if p.loopers <= d.A.lvl && p.F.eqZero(d.Off) == 1 && p.F.eqZero(pSub(d.A.length, n)) == 1 {
		d.A.e, d.A.ps = e, nil
		return
	}
	if p.merging > 0 {
		p.spoil("elements copied in a branch")
	}
	if d.A == s.A && p.loopers > d.A.lvl {
		d.A.lost()
		p.spoil("elements copied within an array in a loop")
		return
	}
	p.addPatch(d.A, d.Off, e, n)
}

func (p *Path) mulTerm(x, y *Expr, n, k, m *Poly) *Expr {
	if !p.I.terms {
		return nil
	}
	return matMul(x, y, p.F.norm(n), p.F.norm(k), p.F.norm(m), pAtom(cur))
}

// dotTerm is the product of two slices. Where their elements are sums
// themselves, one of them is taken as a row of a matrix.
func (p *Path) dotTerm(u, v Value, e *Expr) *Expr {
	if !p.I.terms {
		return nil
	}
	n := p.F.norm(kLen(u))
	row := func(u, v Value) *Expr {
		s, ok := u.(Slice)
		if !ok || s.A == nil || s.A.e == nil || p.F.eqZero(s.Off) == 1 {
			return nil
		}
		x, y := p.content(s.A), p.kernelTerm(v)
		q, r, ok := p.divide(s.Off, n)
		if !ok || x == nil || y == nil || p.F.eqZero(r) != 1 || p.F.eqZero(pSub(kLen(v), n)) != 1 {
			return nil
		}
		rows, r, ok := p.divide(s.A.length, n)
		if !ok || p.F.eqZero(r) != 1 {
			return nil
		}
		return matMul(x, y, p.F.norm(rows), n, pConst(1), q)
	}
	if r := row(u, v); r != nil {
		return r
	}
	if r := row(v, u); r != nil {
		return r
	}
	return eSum(e, cur, n)
}

// axpyTerm is the content of y after a loop of y += alpha*x.
func (p *Path) axpyTerm(y Value, ax *Expr, mark int) *Expr {
	if !p.I.terms {
		return nil
	}
	s, ok := y.(Slice)
	if !ok || s.A == nil || p.F.eqZero(s.Off) != 1 || p.F.eqZero(pSub(s.Len, s.A.length)) != 1 || s.A.e == nil || ax == nil {
		return nil
	}
	switch p.loopers - s.A.lvl {
	case 0:
		return eAdd(s.A.e, ax)
	case 1:
		st := p.innermost()
		if st == nil || st.n == nil {
			return nil
		}
		k := atomOf(st.k)
		if s.A.sw == st {
			return nil
		}
		for i, r := range s.A.rlog {
			if i < mark && r.seq >= st.seq {
				return nil // the loop looks at what it accumulates
			}
		}
		s.A.sw, s.A.swIdx = st, nil
		r := eConst(0)
		for _, key := range ax.keys() {
			m := ax.t[key]
			r = eAdd(r, p.columnSum(&Expr{map[string]*emono{key: m}}, k, p.F.norm(st.n), p.F.norm(s.Len)))
		}
		return eAdd(s.A.e, r)
	}
	return nil
}

// readMark remembers what has been read of a slice so far.
func (p *Path) readMark(v Value) int {
	if a := kArr(v); a != nil {
		return len(a.rlog)
	}
	return 0
}

func (p *Path) sameSlice(v, w Value) bool {
	s, ok1 := v.(Slice)
	t, ok2 := w.(Slice)
	return ok1 && ok2 && s.A != nil && s.A == t.A && p.F.eqZero(pSub(s.Off, t.Off)) == 1
}

// columnSum is Σ_k of one monomial that reads a matrix row by row at
// position k*n+•: a product with the transposed matrix.
func (p *Path) columnSum(e *Expr, k string, N, n *Poly) *Expr {
	at := p.F.norm(pAdd(pMul(pAtom(k), n), pAtom(cur)))
	m := e.single()
	var x, y []efac
	for _, f := range m.f {
		i := f.a.idx
		if f.x == 1 && f.a.kind == "ref" && i != nil && pEq(p.F.norm(i), at) {
			a := &eAtom{kind: "ref", name: f.a.name, idx: pAtom(cur)}
			a.fix()
			x = append(x, efac{a, 1})
			continue
		}
		if f.a.has(cur) {
			return nil
		}
		y = append(y, f)
	}
	if len(x) == 0 {
		return eSum(e, k, N)
	}
	ye := monoExpr(m.c, y).at(k, pAtom(cur))
	return matMul(p.tr(monoExpr(1, x), N, n), ye, n, N, pConst(1), pAtom(cur))
}

func (p *Path) innermost() *loopState {
	var r *loopState
	for _, fr := range p.stack {
		for _, st := range fr.loops {
			if st.mode == lmGeneric && st.entered && (r == nil || st.seq > r.seq) {
				r = st
			}
		}
	}
	return r
}

// accTerm stands for a loop accumulator during the generic iteration.
func (p *Path) accTerm(st *loopState, i int) *Expr {
	if !p.I.terms {
		return nil
	}
	return eSc(fmt.Sprintf("acc#%d.%d", len(p.stack), i) + "@" + st.key)
}

// foldTerm is the accumulator after the loop.
func (p *Path) foldTerm(st *loopState, i int, N *Poly, got *Expr) *Expr {
	if !p.I.terms || got == nil {
		return nil
	}
	gen := st.gen[i].(*FloatV).e
	init := p.toFloat(st.init[i]).e
	if gen == nil || init == nil {
		return nil
	}
	acc := gen.single().f[0].a.name
	d := eSub(got, gen)
	if d == nil {
		return nil
	}
	if len(d.t) == 0 {
		return init
	}
	others := false
	for j := range st.phis {
		if j != i {
			if f, ok := st.gen[j].(*FloatV); ok && f.e != nil && d.uses(f.e.single().f[0].a.name) {
				others = true
			}
		}
	}
	k := atomOf(st.k)
	if st.n == nil {
		return nil
	}
	if !d.uses(acc) && !others {
		return eAdd(init, eSum(d, k, p.F.norm(N)))
	}
	if others {
		return nil
	}
	// some other fold: an opaque value of the sources it uses
	src := map[string]bool{}
	for _, e := range []*Expr{got, init} {
		e.each(func(a *eAtom) {
			if a.kind == "ref" || a.kind == "tref" || a.kind == "sc" && a.name != acc {
				src[a.name] = true
			}
			if a.kind == "opq" || a.kind == "int" && isCounter(a.name) && a.name != k {
				src["?"] = true
			}
		})
	}
	if src["?"] {
		return nil
	}
	var l []string
	for s := range src {
		l = append(l, "{"+s+"}")
	}
	sort.Strings(l)
	if x := p.extremumOf(got, init, acc, k, N); x != nil {
		return x
	}
	body := strings.ReplaceAll(strings.ReplaceAll(got.key(), acc, "acc"), k, bound)
	name := "fold" + strings.Join(l, "") + "(" + body + ";" + init.key() + ";" + p.F.norm(N).key() + ")"
	return foldAtom(name, &foldDef{acc, k, got, init, p.F.norm(N)})
}

// foldDef is what an opaque fold stands for: acc starts as init and becomes
// step for k = 0 … n-1.
type foldDef struct {
	acc, k     string
	step, init *Expr
	n          *Poly
}

var foldDefs sync.Map

func foldAtom(name string, d *foldDef) *Expr {
	foldDefs.LoadOrStore(name, d)
	return eOf(&eAtom{kind: "opq", name: name})
}

// extremum is the largest (or smallest) of n ≥ 1 elements of x.
func (p *Path) extremum(max bool, x string, n *Poly) *Expr {
	n = p.F.norm(n)
	if p.isOne(n) {
		return eRef(x, pConst(0))
	}
	acc, k := "acc#"+x, "k#"+x
	return foldAtom(fmt.Sprintf("extremum%v{%s}%s", max, x, n.key()), &foldDef{acc, k, minMaxTerm(max, eRef(x, pAtom(k)), eSc(acc)), eRef(x, pConst(0)), n})
}

// extremumOf recognises a fold that looks for the extremum of a whole array.
func (p *Path) extremumOf(got, init *Expr, acc, k string, N *Poly) *Expr {
	var r *Expr
	got.each(func(a *eAtom) {
		if r != nil || a.kind != "ref" || !a.has(k) {
			return
		}
		m := init.single()
		if m == nil || m.c != 1 || len(m.f) != 1 || m.f[0].x != 1 || m.f[0].a.kind != "ref" || m.f[0].a.name != a.name || p.F.eqZero(m.f[0].a.idx) != 1 {
			return
		}
		c, ok := p.F.norm(pSub(a.idx, pAtom(k))).isConst()
		if !ok || c != 0 && c != 1 {
			return
		}
		for _, max := range []bool{true, false} {
			if t := minMaxTerm(max, eOf(a), eSc(acc)); t != nil && t.key() == got.key() {
				r = p.extremum(max, a.name, pAdd(N, pConst(c)))
				return
			}
			if t := minMaxTerm(max, eSc(acc), eOf(a)); t != nil && t.key() == got.key() {
				r = p.extremum(max, a.name, pAdd(N, pConst(c)))
				return
			}
		}
	})
	return r
}

// fold evaluates a fold at an instance.
func (v *termEnv) fold(d *foldDef, at, in int64) (tval, bool) {
	n, ok := v.poly(d.n, at, in)
	x, ok2 := v.eval(d.init, at, in)
	if !ok || !ok2 || n > 100 {
		return tval{}, false
	}
	for i := int64(0); i < n; i++ {
		w := *v
		w.memo = map[[3]int64]memoVal{}
		w.tab = newTermTable()
		w.sc = map[string]float64{}
		for k, y := range v.sc {
			w.sc[k] = y
		}
		w.sc[d.acc] = x.v
		if x, ok = w.eval(d.step.at(d.k, pConst(i)), at, in); !ok {
			return tval{}, false
		}
	}
	return x, true
}

// joinTerm is the conditional value of joined arms.
func (p *Path) joinTerm(r Value, vs []Value, tr [][]termLit) Value {
	f, ok := r.(*FloatV)
	if !ok || !p.I.terms {
		return r
	}
	es := make([]*Expr, len(vs))
	for i, v := range vs {
		es[i] = p.toFloat(v).e
	}
	n := *f
	n.e = p.armTerm(tr, es)
	if n.c != nil && n.e == nil {
		n.c = nil
	}
	return &n
}

func (p *Path) armTerm(tr [][]termLit, es []*Expr) *Expr {
	if len(es) == 0 {
		return nil
	}
	same := es[0] != nil
	for _, e := range es {
		if e == nil || same && e.key() != es[0].key() {
			same = false
		}
	}
	if same {
		return es[0]
	}
	if len(es) == 1 {
		return es[0]
	}
	for _, t := range tr {
		if len(t) == 0 {
			return nil
		}
	}
	c := tr[0][0].c
	var ts, fs [][]termLit
	var te, fe []*Expr
	for i, t := range tr {
		if t[0].c.key != c.key || t[0].c.kind != c.kind || c.kind != bOpaque && c.p != nil && t[0].c.p.key() != c.p.key() {
			return nil
		}
		if t[0].v {
			ts, te = append(ts, t[1:]), append(te, es[i])
		} else {
			fs, fe = append(fs, t[1:]), append(fe, es[i])
		}
	}
	if c.eq && p.I.zeros && len(te) > 0 && len(fe) > 0 {
		a, b := p.armTerm(ts, te), p.armTerm(fs, fe)
		if c.neg {
			a, b = b, a
		}
		return eIfZero(c.d, a, b)
	}
	// what holds for equal floats only is a null set
	if c.eq {
		if c.neg && len(te) > 0 {
			return p.armTerm(ts, te)
		}
		if !c.neg && len(fe) > 0 {
			return p.armTerm(fs, fe)
		}
	}
	if len(te) == 0 {
		return p.armTerm(fs, fe)
	}
	if len(fe) == 0 {
		return p.armTerm(ts, te)
	}
	a, b := p.armTerm(ts, te), p.armTerm(fs, fe)
	if a == nil || b == nil {
		return nil
	}
	if a.key() == b.key() {
		return a
	}
	switch {
	case c.kind == bGE && c.p != nil:
		return eIte(eAdd(eInt(p.F.norm(c.p)), eConst(0.5)), a, b)
	case c.kind == bEQ && c.p != nil:
		z := eZero(eInt(p.F.norm(c.p)))
		if z == nil {
			return nil
		}
		return eAdd(b, eMul(z, eSub(a, b)))
	}
	if c.kind != bOpaque || c.d == nil {
		return nil
	}
	if c.neg {
		a, b = b, a
	}
	return eIte(c.d, a, b)
}

// joinStores applies the element stores of joined arms.
func (p *Path) joinStores(tr [][]termLit, sts [][]termStore) {
	if !p.I.terms {
		return
	}
	type slot struct {
		a   *Arr
		idx *Poly
	}
	var order []slot
	seen := map[*Arr]int{}
	for _, arm := range sts {
		for _, s := range arm {
			if j, ok := seen[s.a]; ok {
				if !pEq(p.F.norm(order[j].idx), p.F.norm(s.idx)) {
					p.spoil("a branch writes different elements")
				}
				continue
			}
			seen[s.a] = len(order)
			order = append(order, slot{s.a, s.idx})
		}
	}
	for _, o := range order {
		old := o.a.e.at(cur, p.F.norm(o.idx))
		if len(o.a.ps) > 0 {
			old, _ = p.element(o.a.e, o.a.ps, o.idx)
		}
		es := make([]*Expr, len(sts))
		all := true
		for i, arm := range sts {
			es[i] = nil
			has := false
			for _, s := range arm {
				if s.a == o.a {
					es[i], has = s.e, true
				}
			}
			if !has {
				es[i] = old
				all = false
			}
		}
		if !all {
			p.noteRead(o.a, o.idx)
		}
		p.storeTerm(o.a, o.idx, p.armTerm(tr, es))
	}
}

// transposition applies the documented effect of (*Dense).T and
// TransposeInPlace, whose index permutations the domain does not follow.
func (p *Path) transposition(fn *ssa.Function, args []Value) func(v Value) {
	if !p.I.terms || len(args) != 1 {
		return nil
	}
	n := extName(fn)
	inPlace := strings.HasSuffix(n, "mat.Dense[T]).TransposeInPlace")
	if !inPlace && !strings.HasSuffix(n, "mat.Dense[T]).T") {
		return nil
	}
	a := p.floatArr(args[0])
	if a == nil {
		return nil
	}
	d, ok := p.dimsOf(&Iface{T: fn.Signature.Recv().Type(), V: args[0]})
	if !ok {
		return nil
	}
	x := p.content(a)
	if len(a.ps) > 0 {
		if n := x.soleRef(); n != "" && p.T.shapes != nil {
			if _, known := p.T.shapes[n]; !known {
				p.T.shapes[n] = d
			}
		}
	}
	e := p.tr(x, d[0], d[1])
	lvl := p.loopers
	return func(v Value) {
		r := p.floatArr(v)
		if r == nil {
			return
		}
		if inPlace && lvl > a.lvl {
			e = nil
		}
		r.e, r.ps = e, nil
	}
}

// soleRef is the array e is an element of.
func (e *Expr) soleRef() string {
	if len(e.t) != 1 {
		return ""
	}
	for _, t := range e.t {
		if t.c == 1 && len(t.f) == 1 && t.f[0].x == 1 && t.f[0].a.kind == "ref" {
			return t.f[0].a.name
		}
	}
	return ""
}

func (p *Path) floatArr(v Value) *Arr {
	var r *Arr
	n := 0
	p.reach(v, func(*Loc) {}, func(a *Arr) {
		if a.isFloat {
			r = a
			n++
		}
	})
	if n != 1 {
		return nil
	}
	return r
}
