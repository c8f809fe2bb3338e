package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Expr is a term over the elements of the input matrices in normal form: a
// polynomial with real coefficients over atoms with real exponents. A nil Expr
// is unknown. Atoms with several-term bases and negative or broken exponents
// ("poly") make it a rational (or algebraic) function.
//
// A matrix is described by the term of its element at the current position "•"
// (flat, row-major). Sums bind "∘".
type Expr struct{ t map[string]*emono }

type emono struct {
	c   float64
	g   float64 // largest magnitude added up in c
	f   []efac  // sorted by atom key
	key string
}

type efac struct {
	a *eAtom
	x float64
}

type eAtom struct {
	kind    string // ref, tref, sc, int, fn, poly, pow, pos, sum, mul, opq
	name    string
	idx     *Poly // position of ref, tref, mul, opq
	args    []*Expr
	n, k, m *Poly // sum: number of terms; mul: n×k times k×m
	key     string
}

const maxTerms = 300

func eConst(c float64) *Expr {
	r := &Expr{map[string]*emono{}}
	if c != 0 {
		r.t[""] = &emono{c: c}
	}
	return r
}

func eOf(a *eAtom) *Expr {
	if a == nil {
		return nil
	}
	a.fix()
	m := &emono{c: 1, f: []efac{{a, 1}}}
	m.fix()
	return &Expr{map[string]*emono{m.key: m}}
}

func (a *eAtom) fix() {
	if a.key != "" {
		return
	}
	var sb strings.Builder
	sb.WriteString(a.kind)
	if a.name != "" {
		sb.WriteString(":" + a.name)
	}
	if len(a.args) > 0 {
		sb.WriteByte('(')
		for i, x := range a.args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(x.key())
		}
		sb.WriteByte(')')
	}
	if a.kind == "sum" {
		sb.WriteString("{" + a.n.key() + "}")
	}
	if a.idx != nil {
		sb.WriteString("[" + a.idx.key() + "]")
	}
	a.key = sb.String()
}

func (m *emono) fix() {
	if len(m.f) == 1 {
		if m.f[0].x == 1 {
			m.key = m.f[0].a.key
		} else {
			m.key = m.f[0].a.key + "^" + num(m.f[0].x)
		}
		return
	}
	sort.Slice(m.f, func(i, j int) bool { return m.f[i].a.key < m.f[j].a.key })
	var sb strings.Builder
	for i, f := range m.f {
		if i > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(f.a.key)
		if f.x != 1 {
			sb.WriteString("^" + num(f.x))
		}
	}
	m.key = sb.String()
}

func num(x float64) string { return fmt.Sprintf("%.10g", x) }

func (e *Expr) key() string {
	if e == nil {
		return "?"
	}
	if len(e.t) == 0 {
		return "0"
	}
	ks := e.keys()
	var sb strings.Builder
	for i, k := range ks {
		m := e.t[k]
		if i > 0 {
			sb.WriteString(" + ")
		}
		switch {
		case k == "":
			sb.WriteString(num(m.c))
		case m.c == 1:
			sb.WriteString(k)
		default:
			sb.WriteString(num(m.c) + "*" + k)
		}
	}
	return sb.String()
}

func (e *Expr) keys() []string {
	ks := make([]string, 0, len(e.t))
	for k := range e.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (e *Expr) isConst() (float64, bool) {
	if e == nil {
		return 0, false
	}
	switch len(e.t) {
	case 0:
		return 0, true
	case 1:
		if m, ok := e.t[""]; ok {
			return m.c, true
		}
	}
	return 0, false
}

func (e *Expr) single() *emono {
	if e == nil || len(e.t) != 1 {
		return nil
	}
	for _, m := range e.t {
		return m
	}
	return nil
}

func (e *Expr) addMono(m *emono, k float64) {
	c := m.c * k
	if o, ok := e.t[m.key]; ok {
		s := o.c + c
		g := math.Max(o.mag(), m.mag()*math.Abs(k))
		if math.Abs(s) <= 1e-11*g {
			delete(e.t, m.key)
		} else {
			e.t[m.key] = &emono{c: s, g: g, f: o.f, key: o.key}
		}
		return
	}
	if c != 0 {
		e.t[m.key] = &emono{c: c, g: m.mag() * math.Abs(k), f: m.f, key: m.key}
	}
}

func (m *emono) mag() float64 { return math.Max(m.g, math.Abs(m.c)) }

func eLin(a, b *Expr, k float64) *Expr {
	if a == nil || b == nil {
		return nil
	}
	r := &Expr{make(map[string]*emono, len(a.t)+len(b.t))}
	for kk, m := range a.t {
		r.t[kk] = m
	}
	for _, kk := range b.keys() {
		r.addMono(b.t[kk], k)
	}
	if len(r.t) > maxTerms {
		return nil
	}
	return r
}

func eAdd(a, b *Expr) *Expr { return eLin(a, b, 1) }
func eSub(a, b *Expr) *Expr { return eLin(a, b, -1) }

func eScale(a *Expr, k float64) *Expr {
	if a == nil || math.IsInf(k, 0) || math.IsNaN(k) {
		return nil
	}
	if k == 0 {
		return eConst(0)
	}
	r := &Expr{make(map[string]*emono, len(a.t))}
	for kk, m := range a.t {
		r.t[kk] = &emono{c: m.c * k, g: m.g * math.Abs(k), f: m.f, key: m.key}
	}
	return r
}

func isInt(x float64) bool { return x == math.Trunc(x) }

// monoProd multiplies two monomials; the result is an expression because
// powers of several-term bases may expand.
func monoProd(a, b *emono) *Expr {
	f := make([]efac, 0, len(a.f)+len(b.f))
	i, j := 0, 0
	for i < len(a.f) || j < len(b.f) {
		switch {
		case j >= len(b.f) || i < len(a.f) && a.f[i].a.key < b.f[j].a.key:
			f = append(f, a.f[i])
			i++
		case i >= len(a.f) || b.f[j].a.key < a.f[i].a.key:
			f = append(f, b.f[j])
			j++
		default:
			x := a.f[i].x + b.f[j].x
			if math.Abs(x) > 1e-12 {
				f = append(f, efac{a.f[i].a, x})
			}
			i++
			j++
		}
	}
	return monoExpr(a.c*b.c, f)
}

// monoExpr normalises a product of factors (sorted, distinct).
func monoExpr(c float64, f []efac) *Expr {
	var plain []efac
	var rest []*Expr
	for _, x := range f {
		switch {
		case x.a.kind == "pos":
			if x.x < 0 {
				return nil
			}
			drop := false
			for i, y := range plain {
				if y.a.kind != "pos" {
					continue
				}
				if k, ok := eSub(x.a.args[0], y.a.args[0]).isConst(); ok {
					drop = true // one implies the other
					if k < 0 {
						plain[i] = efac{x.a, 1}
					}
				} else if k, ok := eAdd(x.a.args[0], y.a.args[0]).isConst(); ok && k <= 0 {
					return eConst(0)
				}
			}
			if !drop {
				plain = append(plain, efac{x.a, 1})
			}
		case x.a.kind == "zero":
			if x.x < 0 {
				return nil
			}
			plain = append(plain, efac{x.a, 1})
		case x.a.kind == "poly" && isInt(x.x) && x.x > 0 && x.x <= 6:
			for n := 0; n < int(x.x); n++ {
				rest = append(rest, x.a.args[0])
			}
		case x.a.kind == "fn" && x.a.name == "sin" && isInt(x.x) && x.x >= 2:
			n := int(x.x)
			one := eConst(1)
			cos := eFn("cos", x.a.args[0])
			s := eSub(one, eMul(cos, cos))
			for ; n >= 2; n -= 2 {
				rest = append(rest, s)
			}
			if n == 1 {
				plain = append(plain, efac{x.a, 1})
			}
		default:
			plain = append(plain, x)
		}
	}
	m := &emono{c: c, f: plain}
	sort.Slice(m.f, func(i, j int) bool { return m.f[i].a.key < m.f[j].a.key })
	m.fix()
	r := &Expr{map[string]*emono{}}
	if c != 0 {
		r.t[m.key] = m
	}
	for _, e := range rest {
		r = eMul(r, e)
	}
	return r
}

func eMul(a, b *Expr) *Expr {
	if a == nil || b == nil {
		// zero times unknown is zero
		if c, ok := a.isConst(); ok && c == 0 {
			return a
		}
		if c, ok := b.isConst(); ok && c == 0 {
			return b
		}
		return nil
	}
	if len(a.t)*len(b.t) > 4*maxTerms {
		return nil
	}
	r := &Expr{make(map[string]*emono, len(a.t)*len(b.t))}
	kb := b.keys()
	for _, ka := range a.keys() {
		for _, k := range kb {
			p := monoProd(a.t[ka], b.t[k])
			if p == nil {
				return nil
			}
			for _, kk := range p.keys() {
				r.addMono(p.t[kk], 1)
			}
		}
	}
	if len(r.t) > maxTerms {
		return nil
	}
	return r
}

func eDiv(a, b *Expr) *Expr {
	if c, ok := a.isConst(); ok && c == 0 {
		return a
	}
	return eMul(a, ePow(b, -1))
}

// positive reports whether an atom is positive wherever it is defined.
func (a *eAtom) positive() bool {
	switch a.kind {
	case "fn":
		return a.name == "exp"
	case "int":
		return true
	case "poly":
		for _, m := range a.args[0].t {
			if m.c < 0 {
				return false
			}
			for _, f := range m.f {
				if !f.a.positive() && !(isInt(f.x/2) && f.x != 0) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func ePow(e *Expr, c float64) *Expr {
	if e == nil || math.IsNaN(c) || math.IsInf(c, 0) {
		return nil
	}
	if c == 0 {
		return eConst(1)
	}
	if c == 1 {
		return e
	}
	if len(e.t) == 0 {
		if c > 0 {
			return e
		}
		return nil
	}
	if m := e.single(); m != nil {
		if isInt(c) {
			f := make([]efac, len(m.f))
			for i, x := range m.f {
				f[i] = efac{x.a, x.x * c}
			}
			return monoExpr(math.Pow(m.c, c), f)
		}
		if m.c > 0 {
			ok := true
			for _, x := range m.f {
				if !x.a.positive() && !(x.x == 1 && len(m.f) == 1) {
					ok = false
				}
			}
			if ok {
				f := make([]efac, len(m.f))
				for i, x := range m.f {
					f[i] = efac{x.a, x.x * c}
				}
				return monoExpr(math.Pow(m.c, c), f)
			}
		}
	}
	if isInt(c) && c > 0 && c <= 4 {
		r := e
		for n := 1; n < int(c); n++ {
			r = eMul(r, e)
		}
		return r
	}
	// pull the leading coefficient out
	lead := e.t[e.keys()[0]].c
	if !isInt(c) {
		lead = math.Abs(lead)
	}
	base := eScale(e, 1/lead)
	return eScale(monoExpr(1, []efac{{polyAtom(base), c}}), math.Pow(lead, c))
}

func polyAtom(base *Expr) *eAtom {
	a := &eAtom{kind: "poly", args: []*Expr{base}}
	a.fix()
	return a
}

// eFn applies a function of one argument.
func eFn(name string, e *Expr) *Expr {
	if e == nil {
		return nil
	}
	if c, ok := e.isConst(); ok {
		if f, ok := fnTable[name]; ok {
			v := f(c)
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return nil
			}
			return eConst(v)
		}
	}
	switch name {
	case "exp":
		r := eConst(1)
		for _, k := range e.keys() {
			m := e.t[k]
			if k == "" {
				r = eScale(r, math.Exp(m.c))
				continue
			}
			if m.hasInf() {
				if len(m.f) == 1 && m.f[0].x == 1 && m.c < 0 {
					return eConst(0)
				}
				return nil
			}
			if math.Abs(m.c) > 1e6 {
				return nil
			}
			if len(m.f) == 1 && m.f[0].x == 1 && m.f[0].a.kind == "fn" && m.f[0].a.name == "log" {
				r = eMul(r, ePow(m.f[0].a.args[0], m.c))
				continue
			}
			one := &Expr{map[string]*emono{k: {c: 1, f: m.f, key: k}}}
			a := &eAtom{kind: "fn", name: "exp", args: []*Expr{one}}
			a.fix()
			r = eMul(r, monoExpr(1, []efac{{a, m.c}}))
		}
		return r
	case "log":
		if m := e.single(); m != nil && m.c > 0 {
			r := eConst(math.Log(m.c))
			var rest []efac
			for _, f := range m.f {
				if f.a.kind == "fn" && f.a.name == "exp" {
					r = eAdd(r, eScale(f.a.args[0], f.x))
				} else {
					rest = append(rest, f)
				}
			}
			if len(rest) == 1 && !isInt(rest[0].x/2) {
				return eAdd(r, eScale(atomFn("log", eOf(rest[0].a)), rest[0].x))
			}
			if len(rest) > 0 {
				r = eAdd(r, atomFn("log", monoExpr(1, rest)))
			}
			return r
		}
		// exponentials common to all summands: log(eᵃx + eᵃy) = a + log(x+y)
		low := map[string]efac{}
		for _, k := range e.keys() {
			for _, f := range e.t[k].f {
				if f.a.kind == "fn" && f.a.name == "exp" {
					low[f.a.key] = efac{f.a, 0}
				}
			}
		}
		var common []efac
		var names []string
		for k := range low {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			f := low[k]
			first := true
			for _, m := range e.t {
				x := 0.0
				for _, g := range m.f {
					if g.a.key == k {
						x = g.x
					}
				}
				if first || x < f.x {
					f.x, first = x, false
				}
			}
			if f.x != 0 {
				common = append(common, f)
			}
		}
		if len(common) > 0 && len(e.t) > 1 {
			r := eConst(0)
			var inv []efac
			for _, f := range common {
				r = eAdd(r, eScale(f.a.args[0], f.x))
				inv = append(inv, efac{f.a, -f.x})
			}
			return eAdd(r, eFn("log", eMul(e, monoExpr(1, inv))))
		}
		return atomFn("log", e)
	case "tanh":
		u := eFn("exp", eScale(e, 2))
		return eDiv(eSub(u, eConst(1)), eAdd(u, eConst(1)))
	case "sinh", "cosh":
		u, v := eFn("exp", e), eFn("exp", eScale(e, -1))
		k := 1.0
		if name == "sinh" {
			k = -1
		}
		return eScale(eLin(u, v, k), 0.5)
	case "tan":
		return eDiv(eFn("sin", e), eFn("cos", e))
	case "log1p":
		return eFn("log", eAdd(e, eConst(1)))
	case "expm1":
		return eSub(eFn("exp", e), eConst(1))
	case "sqrt":
		return ePow(e, 0.5)
	case "abs":
		return eIte(e, e, eScale(e, -1))
	case "sin", "cos", "erf":
		if e.t[e.keys()[0]].c < 0 {
			r := atomFn(name, eScale(e, -1))
			if name == "cos" {
				return r
			}
			return eScale(r, -1)
		}
	}
	return atomFn(name, e)
}

func atomFn(name string, e *Expr) *Expr {
	if e == nil {
		return nil
	}
	return eOf(&eAtom{kind: "fn", name: name, args: []*Expr{e}})
}

var fnTable = map[string]func(float64) float64{
	"exp": math.Exp, "log": math.Log, "sin": math.Sin, "cos": math.Cos, "erf": math.Erf,
	"tanh": math.Tanh, "sinh": math.Sinh, "cosh": math.Cosh, "tan": math.Tan, "sqrt": math.Sqrt,
	"abs": math.Abs, "log1p": math.Log1p, "expm1": math.Expm1,
	"floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc, "round": math.Round,
	"asin": math.Asin, "acos": math.Acos, "atan": math.Atan, "asinh": math.Asinh, "acosh": math.Acosh,
	"atanh": math.Atanh, "erfc": math.Erfc, "gamma": math.Gamma, "cbrt": math.Cbrt,
}

// ePowE is x^y with a symbolic exponent.
func ePowE(x, y *Expr) *Expr {
	if x == nil || y == nil {
		return nil
	}
	if c, ok := y.isConst(); ok {
		return ePow(x, c)
	}
	c := 0.0
	if m, ok := y.t[""]; ok {
		c = m.c
	}
	rest := eSub(y, eConst(c))
	if isInt(c) && c != 0 {
		return eMul(ePow(x, c), ePowE(x, rest))
	}
	return eOf(&eAtom{kind: "pow", args: []*Expr{x, y}})
}

// eIte is a if d > 0, else b (what holds for d = 0 does not matter).
func eIte(d, a, b *Expr) *Expr {
	if d == nil || a == nil || b == nil {
		if a != nil && b != nil && a.key() == b.key() {
			return a
		}
		return nil
	}
	if c, ok := d.isConst(); ok {
		if c > 0 {
			return a
		}
		return b
	}
	if a.key() == b.key() {
		return a
	}
	return eAdd(b, eMul(ePos(d), eSub(a, b)))
}

// ePos is 1 where d > 0 and 0 elsewhere (whatever for d = 0).
func ePos(d *Expr) *Expr {
	if d == nil {
		return nil
	}
	if c, ok := d.isConst(); ok {
		if c > 0 {
			return eConst(1)
		}
		return eConst(0)
	}
	switch d.infinite() {
	case 1:
		return eConst(1)
	case -1:
		return eConst(0)
	}
	d, flip := eSign(d)
	if d == nil {
		return nil
	}
	if c, ok := d.isConst(); ok {
		if c > 0 != flip {
			return eConst(1)
		}
		return eConst(0)
	}
	r := eOf(&eAtom{kind: "pos", args: []*Expr{d}})
	if flip {
		return eSub(eConst(1), r)
	}
	return r
}

// eZero is 1 where d = 0 and 0 elsewhere.
func eZero(d *Expr) *Expr {
	if d == nil {
		return nil
	}
	if d.infinite() != 0 {
		return eConst(0)
	}
	if c, ok := d.isConst(); ok {
		if c == 0 {
			return eConst(1)
		}
		return eConst(0)
	}
	if d, _ = eSignLead(d); d == nil {
		return nil
	}
	return eOf(&eAtom{kind: "zero", args: []*Expr{d}})
}

// eIfZero is a where d = 0 and b elsewhere.
func eIfZero(d, a, b *Expr) *Expr {
	if d == nil || a == nil || b == nil {
		return nil
	}
	if a.key() == b.key() {
		return a
	}
	if x, v := d.solveAtom(); x != nil && a.with(x, v).key() == b.with(x, v).key() {
		return b
	}
	return eAdd(b, eMul(eZero(d), eSub(a, b)))
}

// solveAtom solves the term = 0 for an element or a number that occurs in it
// once, in a term of its own.
func (e *Expr) solveAtom() (*eAtom, *Expr) {
	for _, k := range e.keys() {
		m := e.t[k]
		if len(m.f) != 1 || m.f[0].x != 1 {
			continue
		}
		x := m.f[0].a
		if x.kind != "ref" && x.kind != "sc" {
			continue
		}
		rest := eSub(e, eScale(eOf(x), m.c))
		if rest == nil {
			continue
		}
		free := true
		rest.each(func(a *eAtom) {
			if a.kind == x.kind && a.name == x.name {
				free = false
			}
		})
		if free {
			return x, eScale(rest, -1/m.c)
		}
	}
	return nil, nil
}

// with replaces an atom.
func (e *Expr) with(x *eAtom, v *Expr) *Expr {
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		if a.key == x.key {
			return v, false
		}
		return nil, true
	})
}

// zeros lists the equalities e distinguishes.
func (e *Expr) zeros() (l []*eAtom) {
	seen := map[string]bool{}
	e.each(func(a *eAtom) {
		if a.kind == "zero" && !seen[a.key] {
			seen[a.key] = true
			l = append(l, a)
		}
	})
	return l
}

// signUnder is the sign of the term (0 unknown) when the atoms listed have the
// given signs.
func (e *Expr) signUnder(sg map[string]int) int {
	r := 0
	for _, m := range e.t {
		s := 1
		if m.c < 0 {
			s = -1
		}
		for _, f := range m.f {
			if f.a.positive() || isInt(f.x/2) {
				continue
			}
			if t := sg[f.a.key]; t != 0 && isInt(f.x) {
				s *= t
				continue
			}
			return 0
		}
		if r != 0 && r != s {
			return 0
		}
		r = s
	}
	return r
}

// sign is the sign of the term if it is the same everywhere (null sets aside).
func (e *Expr) sign() int {
	if s := e.signUnder(nil); s != 0 {
		return s
	}
	cs := e.conds()
	if len(cs) == 0 || len(cs) > 3 {
		return 0
	}
	ks := make([]string, 0, len(cs))
	for k := range cs {
		ks = append(ks, k)
	}
	r := 0
	for bits := 0; bits < 1<<len(ks); bits++ {
		val := map[string]bool{}
		sg := map[string]int{}
		for i, k := range ks {
			val[k] = bits>>i&1 == 1
			if m := cs[k].single(); m != nil && len(m.f) == 1 && m.f[0].x == 1 {
				sg[m.f[0].a.key] = -1
				if val[k] == (m.c > 0) {
					sg[m.f[0].a.key] = 1
				}
			}
		}
		s := e.resolve(val).signUnder(sg)
		if s == 0 || r != 0 && s != r {
			return 0
		}
		r = s
	}
	return r
}

// eSign normalises the sign and the scale of a condition d > 0, and drops
// factors that do not change sign.
func eSign(d *Expr) (*Expr, bool) {
	common := map[string]efac{}
	for i, k := range d.keys() {
		here := map[string]efac{}
		for _, f := range d.t[k].f {
			if o, ok := common[f.a.key]; i == 0 || ok && o.x == f.x {
				here[f.a.key] = f
			}
		}
		common = here
	}
	flip := false
	if len(common) > 0 {
		r := eConst(0)
		for _, k := range d.keys() {
			m := d.t[k]
			var fs []efac
			for _, f := range m.f {
				if _, ok := common[f.a.key]; !ok {
					fs = append(fs, f)
					continue
				}
				if f.a.positive() || !isInt(f.x) || isInt(f.x/2) {
					continue
				}
				if f.a.kind == "poly" {
					if s := f.a.args[0].sign(); s != 0 {
						if s < 0 {
							flip = !flip
						}
						continue
					}
				}
				fs = append(fs, efac{f.a, 1})
			}
			r = eAdd(r, monoExpr(m.c, fs))
		}
		if r != nil && len(r.t) > 0 {
			d = r
		} else {
			flip = false
		}
	}
	n, f2 := eSignLead(d)
	return n, f2 != flip
}

func eSignLead(d *Expr) (*Expr, bool) {
	l := ""
	for _, k := range d.keys() {
		if k != "" {
			l = k
			break
		}
	}
	lead := d.t[l].c
	return eScale(d, 1/lead), lead < 0
}

func eRef(src string, idx *Poly) *Expr {
	return eOf(&eAtom{kind: "ref", name: src, idx: idx})
}

const cur = "•"
const bound = "∘"
const other = "⋄"

func eEl(src string) *Expr { return eRef(src, pAtom(cur)) }

// infinity is a positive infinite number; terms do without it as far as they can.
const infName = "∞"

func (m *emono) hasInf() bool {
	for _, f := range m.f {
		if f.a.kind == "sc" && f.a.name == infName {
			return true
		}
	}
	return false
}

// infinite gives the sign of a term that is infinity plus something finite.
func (e *Expr) infinite() int {
	r := 0
	for _, m := range e.t {
		switch {
		case !m.hasInf():
			for _, f := range m.f {
				for _, x := range f.a.args {
					if x.uses(infName) {
						return 0
					}
				}
			}
		case len(m.f) > 1 || m.f[0].x != 1:
			return 0
		case m.c > 0:
			r = 1
		default:
			r = -1
		}
	}
	return r
}

func eSc(name string) *Expr { return eOf(&eAtom{kind: "sc", name: name}) }

func eInt(p *Poly) *Expr {
	r := eConst(0)
	for _, m := range p.monos() {
		t := eConst(float64(p.t[m]))
		for _, a := range monoAtoms(m) {
			t = eMul(t, eOf(&eAtom{kind: "int", name: a}))
		}
		r = eAdd(r, t)
	}
	return r
}

// mapAtoms rebuilds e; f returns the replacement of an atom, or nil and true
// to rebuild it from its arguments.
func (e *Expr) mapAtoms(f func(a *eAtom) (*Expr, bool)) *Expr {
	if e == nil {
		return nil
	}
	r := eConst(0)
	for _, k := range e.keys() {
		m := e.t[k]
		t := eConst(m.c)
		for _, x := range m.f {
			b, rebuild := f(x.a)
			if rebuild {
				b = x.a.rebuild(f)
			}
			if b == nil {
				return nil
			}
			t = eMul(t, ePow(b, x.x))
		}
		r = eAdd(r, t)
	}
	return r
}

func (a *eAtom) rebuild(f func(a *eAtom) (*Expr, bool)) *Expr {
	if len(a.args) == 0 {
		return eOf(a)
	}
	args := make([]*Expr, len(a.args))
	same := true
	for i, x := range a.args {
		args[i] = x.mapAtoms(f)
		if args[i] == nil {
			return nil
		}
		if args[i].key() != x.key() {
			same = false
		}
	}
	if same {
		return eOf(a)
	}
	switch a.kind {
	case "fn":
		return eFn(a.name, args[0])
	case "poly":
		return args[0]
	case "pow":
		return ePowE(args[0], args[1])
	case "pos":
		return ePos(args[0])
	case "zero":
		return eZero(args[0])
	case "sum":
		return sumOf(args[0], a.n)
	case "mul":
		return matMul(args[0], args[1], a.n, a.k, a.m, a.idx)
	}
	return eOf(&eAtom{kind: a.kind, name: a.name, idx: a.idx, args: args, n: a.n, k: a.k, m: a.m})
}

// at replaces an index variable.
func (e *Expr) at(v string, by *Poly) *Expr {
	if e == nil {
		return nil
	}
	if !e.has(v) {
		return e
	}
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		switch a.kind {
		case "ref", "tref", "opq":
			if a.idx != nil && a.idx.hasAtom(v) {
				return eOf(&eAtom{kind: a.kind, name: a.name, idx: a.idx.substAtom(v, by), args: a.args, n: a.n, k: a.k, m: a.m}), false
			}
			return eOf(a), false
		case "mul":
			if a.idx.hasAtom(v) {
				return eOf(&eAtom{kind: "mul", idx: a.idx.substAtom(v, by), args: a.args, n: a.n, k: a.k, m: a.m}), false
			}
			return eOf(a), false
		case "int":
			if a.name == v {
				return eInt(by), false
			}
			return eOf(a), false
		case "sum":
			if v == bound {
				return eOf(a), false
			}
			if !a.args[0].has(v) {
				return eOf(a), false
			}
			if by.hasAtom(bound) {
				return nil, false // would be captured
			}
			return nil, true
		}
		return nil, true
	})
}

// has reports whether the index variable v occurs free.
func (e *Expr) has(v string) bool {
	if e == nil {
		return false
	}
	for _, m := range e.t {
		for _, f := range m.f {
			if f.a.has(v) {
				return true
			}
		}
	}
	return false
}

func (a *eAtom) has(v string) bool {
	if a.idx != nil && a.idx.hasAtom(v) {
		return true
	}
	if a.kind == "int" {
		return a.name == v
	}
	if a.kind == "mul" || a.kind == "sum" && v == bound {
		return false // the arguments have their own positions
	}
	for _, x := range a.args {
		if x.has(v) {
			return true
		}
	}
	return false
}

// uses reports whether e depends on a source at all.
func (e *Expr) uses(src string) bool {
	if e == nil {
		return false
	}
	for _, m := range e.t {
		for _, f := range m.f {
			if f.a.uses(src) {
				return true
			}
		}
	}
	return false
}

func (a *eAtom) uses(src string) bool {
	if (a.kind == "ref" || a.kind == "tref" || a.kind == "sc") && a.name == src {
		return true
	}
	if d := defOf(a.name); d != nil && d.uses(src) {
		return true
	}
	if a.kind == "opq" && strings.Contains(a.name, "{"+src+"}") {
		return true
	}
	for _, x := range a.args {
		if x.uses(src) {
			return true
		}
	}
	return false
}

// eSum sums e over the index variable v, which takes n values.
func eSum(e *Expr, v string, n *Poly) *Expr {
	if e == nil || n == nil {
		return nil
	}
	bad := false
	e.each(func(a *eAtom) {
		if a.kind == "sum" && v != bound && a.args[0].has(v) {
			bad = true
		}
	})
	if bad {
		return flatSum(e, v, n)
	}
	return sumOf(e.at(v, pAtom(bound)), n)
}

// each visits all atoms, nested ones included.
func (e *Expr) each(f func(a *eAtom)) {
	if e == nil {
		return
	}
	for _, m := range e.t {
		for _, x := range m.f {
			f(x.a)
			for _, y := range x.a.args {
				y.each(f)
			}
		}
	}
}

// flatSum turns the sum over rows of sums along a row into one sum.
func flatSum(e *Expr, v string, n *Poly) *Expr {
	r := eConst(0)
	for _, k := range e.keys() {
		m := e.t[k]
		if len(m.f) != 1 || m.f[0].x != 1 || m.f[0].a.kind != "sum" {
			return nil
		}
		a := m.f[0].a
		flat := pAdd(pMul(pAtom(v), a.n), pAtom(bound))
		ok := true
		b := a.args[0].mapAtoms(func(x *eAtom) (*Expr, bool) {
			switch x.kind {
			case "ref", "tref", "mul":
				if x.idx == nil || !x.idx.hasAtom(v) && !x.idx.hasAtom(bound) {
					return eOf(x), false
				}
				if pEq(x.idx, flat) {
					return eOf(&eAtom{kind: x.kind, name: x.name, idx: pAtom(bound), args: x.args, n: x.n, k: x.k, m: x.m}), false
				}
				ok = false
				return eOf(x), false
			case "sum", "int", "opq":
				if x.has(v) || x.has(bound) {
					ok = false
				}
				return eOf(x), false
			}
			return nil, true
		})
		if !ok || b == nil {
			return nil
		}
		r = eAdd(r, eScale(sumOf(b, pMul(n, a.n)), m.c))
	}
	return r
}

func sumOf(e *Expr, n *Poly) *Expr {
	if e == nil {
		return nil
	}
	r := eConst(0)
	if c, ok := n.isConst(); ok && c == 1 {
		return e.at(bound, pConst(0))
	}
	for _, k := range e.keys() {
		m := e.t[k]
		out, in := eConst(m.c), []efac{}
		allT := true
		for _, f := range m.f {
			if f.a.has(bound) {
				in = append(in, f)
				if f.a.kind != "tref" {
					allT = false
				}
			} else {
				out = eMul(out, monoExpr(1, []efac{f}))
			}
		}
		if len(in) == 0 {
			r = eAdd(r, eMul(out, eInt(n)))
			continue
		}
		if allT {
			for i, f := range in {
				a := &eAtom{kind: "ref", name: f.a.name, idx: f.a.idx}
				a.fix()
				in[i] = efac{a, f.x}
			}
			sort.Slice(in, func(i, j int) bool { return in[i].a.key < in[j].a.key })
		}
		body := monoExpr(1, in)
		if body == nil {
			return nil
		}
		if len(body.t) != 1 {
			r = eAdd(r, eMul(out, sumOf(body, n)))
			continue
		}
		r = eAdd(r, eMul(out, eOf(&eAtom{kind: "sum", args: []*Expr{body}, n: n})))
	}
	return r
}

// matMul is the element at idx of the product of the n×k matrix a and the k×m
// matrix b.
func matMul(a, b *Expr, n, k, m, idx *Poly) *Expr {
	if a == nil || b == nil {
		return nil
	}
	one := func(p *Poly) bool { c, ok := p.isConst(); return ok && c == 1 }
	if one(n) && one(m) {
		return eSum(eMul(a, b), cur, k)
	}
	r := eConst(0)
	for _, ka := range a.keys() {
		for _, kb := range b.keys() {
			ma, mb := a.t[ka], b.t[kb]
			out := eConst(ma.c * mb.c)
			split := func(mo *emono) *Expr {
				var in []efac
				for _, f := range mo.f {
					if f.a.has(cur) {
						in = append(in, f)
					} else {
						out = eMul(out, monoExpr(1, []efac{f}))
					}
				}
				return monoExpr(1, in)
			}
			x, y := split(ma), split(mb)
			if x == nil || y == nil {
				return nil
			}
			r = eAdd(r, eMul(out, eOf(&eAtom{kind: "mul", args: []*Expr{x, y}, n: n, k: k, m: m, idx: idx})))
		}
	}
	return r
}

// ---- deciding equality -----------------------------------------------------

// isZero decides whether e vanishes identically as a function of its atoms:
// several-term denominators are multiplied out.
func (e *Expr) isZero() (zero, known bool) {
	for n := 0; n < 12; n++ {
		if e == nil {
			return false, false
		}
		if len(e.t) == 0 {
			return true, true
		}
		// scale against rounding of the coefficients
		low := map[string]float64{}
		atoms := map[string]*eAtom{}
		for _, m := range e.t {
			for _, f := range m.f {
				if f.a.kind == "poly" {
					atoms[f.a.key] = f.a
				}
			}
		}
		pick := ""
		for k := range atoms {
			lo := 0.0
			for _, m := range e.t {
				x := 0.0
				for _, f := range m.f {
					if f.a.key == k {
						x = f.x
					}
				}
				lo = math.Min(lo, x)
			}
			if lo < 0 {
				low[k] = lo
				if pick == "" || k > pick {
					pick = k
				}
			}
		}
		if pick == "" {
			return false, true
		}
		{
			r := eConst(0)
			for _, k := range e.keys() {
				m := e.t[k]
				f := []efac{}
				have := false
				for _, x := range m.f {
					if x.a.key == pick {
						have = true
						if nx := x.x - low[pick]; math.Abs(nx) > 1e-12 {
							f = append(f, efac{x.a, nx})
						}
						continue
					}
					f = append(f, x)
				}
				if !have {
					f = append(f, efac{atoms[pick], -low[pick]})
					sort.Slice(f, func(i, j int) bool { return f[i].a.key < f[j].a.key })
				}
				r = eAdd(r, monoExpr(m.c, f))
				if r == nil {
					return false, false
				}
			}
			e = r
		}
	}
	return false, false
}

// outside visits the atoms that are not under a sum or a product of matrices.
func (e *Expr) outside(f func(a *eAtom)) {
	if e == nil {
		return
	}
	for _, m := range e.t {
		for _, x := range m.f {
			f(x.a)
			if x.a.kind == "sum" || x.a.kind == "mul" {
				continue
			}
			for _, y := range x.a.args {
				y.outside(f)
			}
		}
	}
}

// conds lists the conditions e distinguishes.
func (e *Expr) conds() map[string]*Expr {
	out := map[string]*Expr{}
	e.outside(func(a *eAtom) {
		if a.kind == "pos" {
			out[a.args[0].key()] = a.args[0]
		}
	})
	return out
}

// resolve chooses the branches of conditions.
func (e *Expr) resolve(val map[string]bool) *Expr {
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		if a.kind == "sum" || a.kind == "mul" {
			return eOf(a), false
		}
		if a.kind == "pos" {
			if v, ok := val[a.args[0].key()]; ok {
				if v {
					return eConst(1), false
				}
				return eConst(0), false
			}
		}
		return nil, true
	})
}
