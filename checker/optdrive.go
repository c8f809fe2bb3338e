package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const optPath = modPath + "/optimizers"
const nnPath = modPath + "/nn"

// stratUnit is one optimization strategy under analysis.
type stratUnit struct {
	name string // name of the type
	ctor *ssa.Function
	res  types.Type
}

// findStrategies enumerates the optimization strategies: every constructor
// called New below optimizers whose result has a method OptimizeParams.
func findStrategies(P *Program) []*stratUnit {
	var out []*stratUnit
	seen := map[string]bool{}
	for fn := range P.All() {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Blocks == nil {
			continue
		}
		pk := pkgOf(fn)
		if pk == nil || !strings.HasPrefix(pk.Path(), optPath+"/") {
			continue
		}
		f := fn
		if o := fn.Origin(); o != nil {
			f = o
		}
		if f.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 || f.Object() == nil || !f.Object().Exported() || fn.Signature.Results().Len() != 1 {
			continue
		}
		bad := false
		width := ""
		for _, ta := range fn.TypeArgs() {
			b, isB := types.Unalias(ta).(*types.Basic)
			if !isB {
				bad = true
				break
			}
			width = strings.TrimPrefix(b.Name(), "float")
		}
		if bad || fn.Signature.Params().Len() != 1 {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		if P.SSA.MethodSets.MethodSet(rt).Lookup(nil, "OptimizeParams") == nil {
			continue
		}
		if _, isStruct := fn.Signature.Params().At(0).Type().Underlying().(*types.Struct); !isStruct {
			continue
		}
		pt, ok := types.Unalias(rt).(*types.Pointer)
		if !ok {
			continue
		}
		n := nameOfType(pt.Elem()) + width
		if seen[n] {
			continue
		}
		seen[n] = true
		out = append(out, &stratUnit{name: n, ctor: fn, res: rt})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (u *stratUnit) typeName() string {
	return strings.TrimSuffix(strings.TrimSuffix(u.name, "32"), "64")
}

// optSpec is the documented rule of one strategy: the change it subtracts from
// the parameter, and how its memory develops.
type optSpec struct {
	state []string
	tick  string // the method that announces the next time step
	step  func(v *optEnv) (delta *Expr, next map[string]*Expr)
}

type optEnv struct {
	p    *Path
	s    map[string]*Expr // memory before the step
	g, w *Expr
	t    *Expr // time step
	n    *Poly // size of the parameter
}

func (v *optEnv) c(name string) *Expr { return eSc("cfg." + name) }

func (v *optEnv) flag(name string) (bool, bool) {
	b, ok := v.p.bools["cfg."+name]
	return b, ok
}

func one() *Expr                      { return eConst(1) }
func eSqrt(e *Expr) *Expr             { return ePow(e, 0.5) }
func mix(k, a, b *Expr) *Expr         { return eAdd(eMul(k, a), eMul(eSub(one(), k), b)) }
func (v *optEnv) norm2(e *Expr) *Expr { return eSum(eMul(e, e), cur, v.n) }

// adamCore is what Adam, Lamb and RAdam have in common.
func (v *optEnv) adamCore(eps *Expr) (upd *Expr, next map[string]*Expr) {
	m1 := mix(v.c("Beta1"), v.s["first"], v.g)
	m2 := mix(v.c("Beta2"), v.s["second"], eMul(v.g, v.g))
	return eDiv(m1, eAdd(eSqrt(m2), eps)), map[string]*Expr{"first": m1, "second": m2}
}

func (v *optEnv) adamAlpha() *Expr {
	b1, b2 := ePowE(v.c("Beta1"), v.t), ePowE(v.c("Beta2"), v.t)
	return eDiv(eMul(v.c("StepSize"), eSqrt(eSub(one(), b2))), eSub(one(), b1))
}

var optSpecs = map[string]*optSpec{
	"SGD": {state: []string{"velocity"}, step: func(v *optEnv) (*Expr, map[string]*Expr) {
		mu := v.c("Mu")
		s := eAdd(eMul(mu, v.s["velocity"]), eMul(v.c("LR"), v.g))
		n := map[string]*Expr{"velocity": s}
		nesterov, known := v.flag("Nesterov")
		if z, ok := v.p.substituted("cfg.Mu"); ok {
			if c, isc := z.isConst(); isc && c == 0 {
				return eMul(v.c("LR"), v.g), n
			}
		}
		if !known {
			return nil, nil
		}
		if nesterov {
			return eSub(eMul(eAdd(one(), mu), s), eMul(mu, v.s["velocity"])), n
		}
		return s, n
	}},
	"AdaGrad": {state: []string{"squares"}, step: func(v *optEnv) (*Expr, map[string]*Expr) {
		m := eAdd(v.s["squares"], eMul(v.g, v.g))
		return eDiv(eMul(v.c("LR"), v.g), eAdd(eSqrt(m), v.c("Epsilon"))), map[string]*Expr{"squares": m}
	}},
	"RMSProp": {state: []string{"squares"}, step: func(v *optEnv) (*Expr, map[string]*Expr) {
		m := mix(v.c("Decay"), v.s["squares"], eMul(v.g, v.g))
		return eDiv(eMul(v.c("LR"), v.g), eAdd(eSqrt(m), v.c("Epsilon"))), map[string]*Expr{"squares": m}
	}},
	"Adam": {state: []string{"first", "second"}, tick: "IncExample", step: func(v *optEnv) (*Expr, map[string]*Expr) {
		u, n := v.adamCore(v.c("Epsilon"))
		u = eAdd(u, eMul(v.c("Lambda"), v.w))
		return eMul(v.adamAlpha(), u), n
	}},
	"Lamb": {state: []string{"first", "second"}, tick: "IncExample", step: func(v *optEnv) (*Expr, map[string]*Expr) {
		u, n := v.adamCore(v.c("Epsilon"))
		u = eAdd(u, eMul(v.c("Lambda"), v.w))
		wn, un := v.norm2(v.w), v.norm2(u)
		wz, wk := v.p.zeroCase(wn)
		uz, uk := v.p.zeroCase(un)
		d := eMul(v.adamAlpha(), u)
		if wk && wz || uk && uz {
			return d, n
		}
		r := eMul(d, eDiv(eSqrt(wn), eSqrt(un)))
		if wk && uk {
			return r, n
		}
		v.p.T.note, v.p.T.alt = "the ratio of the norms is used although a norm may be zero", r
		return eIte(wn, eIte(un, r, d), d), n
	}},
	"RAdam": {state: []string{"first", "second"}, tick: "IncBatch", step: func(v *optEnv) (*Expr, map[string]*Expr) {
		b1, b2 := ePowE(v.c("Beta1"), v.t), ePowE(v.c("Beta2"), v.t)
		c1, c2 := eSub(one(), b1), eSub(one(), b2)
		u, n := v.adamCore(eMul(v.c("Epsilon"), eSqrt(c2)))
		max := eSub(eDiv(eConst(2), eSub(one(), v.c("Beta2"))), one())
		ro := eSub(max, eDiv(eMul(eScale(v.t, 2), b2), c2))
		k := func(e *Expr, x float64) *Expr { return eSub(e, eConst(x)) }
		rect := eSqrt(eDiv(eMul(eMul(k(ro, 4), k(ro, 2)), max), eMul(eMul(k(max, 4), k(max, 2)), ro)))
		rect = eIte(k(ro, 4), rect, one())
		return eMul(eDiv(eMul(eMul(v.c("StepSize"), rect), eSqrt(c2)), c1), u), n
	}},
}

// hyper are the ranges hyperparameters are drawn from when two rules are
// compared at an example.
var hyper = map[string][2]float64{
	"cfg.Beta1": {0.1, 0.95}, "cfg.Beta2": {0.1, 0.95}, "cfg.Decay": {0.1, 0.95}, "cfg.Mu": {0.1, 0.95},
	"cfg.Epsilon": {0.01, 0.5}, "cfg.LR": {0.1, 2}, "cfg.StepSize": {0.1, 2}, "cfg.Lambda": {0.1, 2},
}

// substituted is the value an equality on the path gives to a scalar.
func (p *Path) substituted(name string) (*Expr, bool) {
	for _, c := range p.T.conds {
		if !c.c.eq || c.v == c.c.neg || c.c.d == nil {
			continue
		}
		if n, v, ok := solveSc(c.c.d); ok && n == name {
			return v, true
		}
	}
	return nil, false
}

// solveSc solves d = 0 for the only scalar in d.
func solveSc(d *Expr) (string, *Expr, bool) {
	c0 := 0.0
	name, c1 := "", 0.0
	for k, m := range d.t {
		switch {
		case k == "":
			c0 = m.c
		case len(m.f) == 1 && m.f[0].a.kind == "sc" && m.f[0].x == 1 && name == "":
			name, c1 = m.f[0].a.name, m.c
		default:
			return "", nil, false
		}
	}
	if name == "" {
		return "", nil, false
	}
	return name, eConst(-c0 / c1), true
}

// underEqualities substitutes what the path knows about scalars.
func (p *Path) underEqualities(e *Expr) *Expr {
	for _, c := range p.T.conds {
		if !c.c.eq || c.v == c.c.neg || c.c.d == nil {
			continue
		}
		if n, v, ok := solveSc(c.c.d); ok {
			e = e.mapAtoms(func(a *eAtom) (*Expr, bool) {
				if a.kind == "sc" && a.name == n {
					return v, false
				}
				return nil, true
			})
		}
	}
	return e
}

// zkey names the set where a non-negative term is zero.
func (p *Path) zkey(e *Expr) string {
	e = p.canon(p.underEqualities(e))
	for e != nil {
		m := e.single()
		if m == nil || len(m.f) != 1 {
			break
		}
		f := m.f[0]
		if f.a.kind == "poly" {
			e = f.a.args[0]
			continue
		}
		e = eOf(f.a)
		break
	}
	if e == nil || len(e.t) == 0 {
		return "0"
	}
	if _, c := e.isConst(); c {
		return "1"
	}
	n, _ := eSignLead(e)
	return n.key()
}

// zeroCase tells whether the path decided that a non-negative term is zero.
func (p *Path) zeroCase(e *Expr) (zero, known bool) {
	k := p.zkey(e)
	if k == "0" {
		return true, true
	}
	for _, c := range p.T.conds {
		if c.c.eq && c.c.d != nil && p.zkey(c.c.d) == k {
			return c.v != c.c.neg, true
		}
	}
	return false, false
}

// unsolved reports an equality between floats that holds on the path and that
// neither fixes a hyperparameter nor is a case of the rule.
func (p *Path) unsolved(allowed map[string]bool) bool {
	for _, c := range p.T.conds {
		if !c.c.eq || c.v == c.c.neg || c.c.d == nil {
			continue
		}
		if _, _, ok := solveSc(c.c.d); ok {
			continue
		}
		if !allowed[p.zkey(c.c.d)] {
			return true
		}
	}
	return false
}

// stratRun is one abstract path through the life of a parameter under a
// strategy.
type stratRun struct {
	p     *Path
	end   *endPath
	steps []stratStep
	bad   string // why the inductive step says nothing
	err   Value
	held  bool // the gradient is still there after a step
}

type stratStep struct {
	what      string
	g, w      *Expr
	t         *Expr
	s         map[string]*Expr // memory before, nil: as the rule has it
	after     *Expr
	fields    map[string]*Expr
	inductive bool
	pos       string
	note      string
}

type stratConfig struct {
	foreign bool
	steps   int
}

func (p *Path) setArr(a *Arr, e *Expr) { a.e, a.ps, a.sw, a.swIdx = e, nil, nil, nil }

// stateArrays are the float arrays reachable from the memory of a parameter,
// by the field they are in.
func (p *Path) stateArrays(v Value) map[string]*Arr {
	out := map[string]*Arr{}
	i, ok := v.(*Iface)
	if !ok {
		return out
	}
	v = i.V
	l, ok := v.(*Loc)
	if !ok {
		return out
	}
	st, ok := l.T.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for j := 0; j < st.NumFields(); j++ {
		fv := p.loadPtr(p.kid(l, j))
		if a := p.floatArr(fv); a != nil {
			out[st.Field(j).Name()] = a
		}
	}
	return out
}

func (I *Interp) runStrategy(u *stratUnit, spec *optSpec, width string, cfg stratConfig, reset func(), visit func(*stratRun)) (int, bool) {
	paths := map[*Path]*stratRun{}
	body := func(p *Path) *endPath {
		run := &stratRun{p: p}
		paths[p] = run
		p.phase = "construct"
		p.T.sc = hyper
		ct := u.ctor.Signature.Params().At(0).Type()
		st := ct.Underlying().(*types.Struct)
		cv := &StructV{T: ct}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			n := "cfg." + f.Name()
			switch {
			case isFloatT(f.Type()):
				cv.F = append(cv.F, &FloatV{e: eSc(n), u: p.U.fresh(n, false)})
			case isBoolT(f.Type()):
				cv.F = append(cv.F, &BoolV{kind: bOpaque, key: n})
			case isIntT(f.Type()):
				cv.F = append(cv.F, pAtom(n))
			default:
				cv.F = append(cv.F, p.fresh(f.Type(), n))
			}
		}
		o := &Iface{T: u.res, V: p.call(u.ctor, []Value{cv}, nil)}
		p.setOwner(o.V, &Owner{kind: "strategy", name: u.typeName()})
		rows, cols := pAtom("w.rows"), pAtom("w.cols")
		p.F.addGE(pSub(rows, pConst(1)))
		p.F.addGE(pSub(cols, pConst(1)))
		w := p.newMatrix(width, rows, cols, &Owner{kind: "param", name: "the parameter"}, p.U.fresh("[w]", true))
		np := p.I.P.ssaPkg(nnPath).Func("NewParam")
		pv := p.call(np, []Value{w}, nil)
		param := &Iface{T: np.Signature.Results().At(0).Type(), V: pv}
		p.setOwner(pv, &Owner{kind: "param", name: "the parameter"})
		ploc, ok := pv.(*Loc)
		if !ok {
			p.unsupported("parameter is a %T", pv)
		}
		state := func() *Loc {
			s := ploc.T.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "State" {
					return p.kid(ploc, i)
				}
			}
			p.unsupported("a parameter has no State")
			return nil
		}()
		wa := func() *Arr {
			a := p.floatArr(p.callNamed(param, "Data"))
			if a == nil {
				p.unsupported("elements of the parameter")
			}
			return a
		}
		shape := func(n string) {
			p.T.shapes[n] = [2]*Poly{rows, cols}
		}
		if cfg.foreign {
			s := "foreign"
			state.v = &Iface{T: types.Typ[types.String], V: &StrV{c: &s}}
		}
		tick := func() {
			if spec.tick != "" {
				p.callNamed(o, spec.tick)
			}
		}
		n := p.F.norm(pMul(rows, cols))
		shape("w")
		mem := map[string]*Expr{}
		for _, s := range spec.state {
			mem[s] = eConst(0)
		}
		t := eConst(1)
		for k := 1; k <= cfg.steps; k++ {
			wn, gn := fmt.Sprintf("w%d", k), fmt.Sprintf("g%d", k)
			step := stratStep{what: fmt.Sprintf("step %d", k), w: eEl(wn), g: eEl(gn), t: t, s: mem}
			p.phase = "prepare"
			var changed map[*Loc]bool
			if k > 1 {
				before := p.scalars(o.V)
				tick()
				changed = p.changedFloats(o.V, before)
			}
			if k > 2 {
				// any later step: whatever memory the earlier ones left
				if s, nt := p.generalise(run, o, state, spec, mem, k, changed, tick); s != nil {
					step.s, step.inductive, step.what = s, true, "any later step"
					if nt != nil {
						step.t = nt
					}
				}
			}
			p.setArr(wa(), eEl(wn))
			shape(wn)
			g := p.newMatrix(width, rows, cols, &Owner{kind: "grad", name: gn}, p.U.fresh("["+gn+"]", true))
			p.callNamed(param, "AccGrad", g)
			if gl, ok := p.callNamed(param, "Grad").(*Iface); ok {
				p.setOwner(gl.V, &Owner{kind: "grad", name: "the gradient"})
			}
			p.phase = "step"
			run.err = p.callNamed(o, "OptimizeParams", pv)
			p.phase = "post"
			if cfg.foreign {
				return nil
			}
			isn, known := p.isNil(run.err)
			if !known {
				isn = p.decide(p.eqVals(run.err, NilV{}))
			}
			if !isn {
				return &endPath{"error", "OptimizeParams fails", ""}
			}
			if h, ok := p.callNamed(param, "HasGrad").(*BoolV); ok {
				if v, known := p.static(h); !known || v {
					run.held = true
				}
			}
			step.after = wa().e
			step.fields = map[string]*Expr{}
			for f, a := range p.stateArrays(state.v) {
				step.fields[f] = p.content(a)
			}
			run.steps = append(run.steps, step)
			p.setOwner(state.v, &Owner{kind: "state", name: "the memory of the parameter"})
			v := &optEnv{p: p, s: step.s, g: step.g, w: step.w, t: step.t, n: n}
			_, mem = spec.step(v)
			if mem == nil {
				mem = map[string]*Expr{}
			}
			t = eAdd(t, one())
		}
		return nil
	}
	return I.explore(u.name, func() {
		paths = map[*Path]*stratRun{}
		reset()
	}, body, func(p *Path, e *endPath) {
		r := paths[p]
		r.end = e
		delete(paths, p)
		visit(r)
	})
}

// generalise replaces the memory after two steps by arbitrary values, provided
// it can tell which field holds which variable of the rule, and the time step
// by an arbitrary one, provided nothing else depends on it.
func (p *Path) generalise(run *stratRun, o *Iface, state *Loc, spec *optSpec, mem map[string]*Expr, k int, changed map[*Loc]bool, tick func()) (map[string]*Expr, *Expr) {
	fs := p.stateArrays(state.v)
	var names []string
	for f := range fs {
		names = append(names, f)
	}
	sort.Strings(names)
	holds := map[string]string{}
	found := map[string]bool{}
	for _, f := range names {
		for _, v := range spec.state {
			if fs[f].e != nil && mem[v] != nil {
				a, b := p.canon(p.underEqualities(fs[f].e)), p.canon(p.underEqualities(mem[v]))
				if a != nil && b != nil && p.vanishes(eSub(a, b), nil) {
					holds[f] = v
					found[v] = true
				}
			}
		}
	}
	if z, ok := p.substituted("cfg.Mu"); ok && len(spec.state) == 1 {
		if c, isc := z.isConst(); isc && c == 0 {
			found[spec.state[0]] = true // the rule does not use its memory
		}
	}
	for _, v := range spec.state {
		if !found[v] {
			run.bad = "no field holds the " + v + " of the rule"
			return nil, nil
		}
	}
	// the time step
	var nt *Expr
	if spec.tick != "" {
		keep := p.scalars(o.V)
		t := pAtom("t")
		p.T.samples = map[string][]int64{"t": {9, 2, 5, 30}}
		p.F.addGE(pSub(t, pConst(1)))
		any := false
		for l, v := range keep {
			if x, ok := v.(*Poly); ok {
				if c, isc := p.F.norm(x).isConst(); isc && c == int64(k) {
					l.v = t
					any = true
				}
			}
			if f, ok := v.(*FloatV); ok && changed[l] {
				l.v = &FloatV{e: eSc("stale." + l.site), u: f.u}
			}
		}
		if !any {
			run.bad = "no field holds the time step"
			return nil, nil
		}
		tick()
		for _, v := range p.scalars(o.V) {
			if f, ok := v.(*FloatV); ok && f.e != nil {
				f.e.each(func(a *eAtom) {
					if a.kind == "sc" && strings.HasPrefix(a.name, "stale.") {
						run.bad = "a quantity is carried from one time step to the next"
					}
				})
			}
		}
		if run.bad != "" {
			for l, v := range keep {
				l.v = v
			}
			return nil, nil
		}
		nt = eAdd(eInt(t), one())
	}
	s := map[string]*Expr{}
	for _, v := range spec.state {
		s[v] = eEl("memory." + v)
		p.T.shapes["memory."+v] = p.T.shapes["w"]
	}
	for _, f := range names {
		if v, ok := holds[f]; ok {
			p.setArr(fs[f], s[v])
		} else {
			p.setArr(fs[f], eEl("scratch."+f))
			p.T.shapes["scratch."+f] = p.T.shapes["w"]
		}
	}
	return s, nt
}

// scalars are the numbers a strategy keeps.
func (p *Path) scalars(v Value) map[*Loc]Value {
	out := map[*Loc]Value{}
	p.reach(v, func(l *Loc) {
		switch l.v.(type) {
		case *Poly, *FloatV:
			out[l] = l.v
		}
	}, func(*Arr) {})
	return out
}

// changedFloats are the floats that differ from an earlier state.
func (p *Path) changedFloats(v Value, before map[*Loc]Value) map[*Loc]bool {
	out := map[*Loc]bool{}
	for l, x := range p.scalars(v) {
		f, ok := x.(*FloatV)
		if !ok {
			continue
		}
		o, ok := before[l].(*FloatV)
		if !ok || f.e == nil || o.e == nil || f.e.key() != o.e.key() {
			out[l] = true
		}
	}
	return out
}

// judgeStrategy compares every step with the documented rule.
func (r *opResult) judgeStrategy(u *stratUnit, spec *optSpec, cfg stratConfig, run *stratRun) {
	p := run.p
	p.stack = nil
	p.protect = true
	name := u.typeName()
	const rule = "the documented update rule"
	if run.end != nil {
		switch run.end.kind {
		case "infeasible":
		case "unsupported", "limit":
			r.add("unknown", "*", "construct", name, run.end.pos, "%s", run.end.msg)
		case "error":
			r.add("fail", "C11", rule, name+" refuses a parameter with a gradient", run.end.pos, "OptimizeParams returns an error for a parameter it has seen before or that is new")
		default:
			if cfg.foreign {
				r.add("fail", "C11", "foreign state is refused", name, run.end.pos, "OptimizeParams ends in %s (%s) on a parameter that carries the state of another strategy", run.end.kind, run.end.msg)
				return
			}
			r.add("fail", "C11", rule, name+" ends in "+run.end.kind, run.end.pos, "OptimizeParams ends in %s: %s", run.end.kind, run.end.msg)
		}
		return
	}
	r.done++
	for _, e := range p.events {
		if e.Kind != "write" || e.Phase != "step" {
			continue
		}
		owner := e.Name[:strings.Index(e.Name, ":")]
		switch {
		case cfg.foreign:
			if owner != "state" {
				r.add("fail", "C11", "foreign state is refused", name+" writes "+plain(e.Name), e.Pos, "a refused step has written to %s (%s)", e.Name, stackShort(e.Stack))
			}
		case owner == "strategy" || owner == "global":
			r.add("fail", "C11", "steps are independent", name+" writes "+plain(e.Name), e.Pos, "OptimizeParams, which runs concurrently for the parameters, writes to %s (%s)", e.Name, stackShort(e.Stack))
		}
	}
	r.add("ok", "C11", "steps are independent", name, "", "")
	if cfg.foreign {
		if isn, known := p.isNil(run.err); known && isn {
			r.add("fail", "C11", "foreign state is refused", name, "-", "OptimizeParams accepts a parameter that carries the state of another strategy")
		} else {
			r.add("ok", "C11", "foreign state is refused", name, "", "")
		}
		return
	}
	if run.held {
		r.add("fail", "C11", "the gradient is used up", name, "-", "the parameter still has its gradient after the step")
	} else {
		r.add("ok", "C11", "the gradient is used up", name, "", "")
	}
	if run.bad != "" {
		r.add("unknown", "C11", rule, name+" after any history", "-", "%s; decided for the first %d steps only", run.bad, cfg.steps)
	}
	n := p.F.norm(pMul(p.T.shapes["w"][0], p.T.shapes["w"][1]))
	for _, s := range run.steps {
		p.T.note = ""
		v := &optEnv{p: p, s: s.s, g: s.g, w: s.w, t: s.t, n: n}
		delta, _ := spec.step(v)
		key := name + " " + s.what
		if p.T.bad != "" || s.after == nil || delta == nil {
			why := p.T.bad
			if why == "" {
				why = "no term for the result"
			}
			r.add("unknown", "C11", rule, key, "-", "%s", why)
			continue
		}
		got := p.canon(p.underEqualities(s.after))
		want := p.canon(p.underEqualities(eSub(s.w, delta)))
		if got == nil || want == nil {
			r.add("unknown", "C11", rule, key, "-", "not normalised")
			continue
		}
		if p.T.note != "" {
			alt := p.canon(p.underEqualities(eSub(s.w, p.T.alt)))
			if alt != nil && p.same(got, alt, n, domain(alt)) {
				r.add("fail", "C11", rule, key+" zero norm", "-", "%s [path: %s]", p.T.note, p.condText())
				continue
			}
		}
		if p.same(got, want, n, domain(want)) {
			r.add("ok", "C11", rule, key, "", "")
			continue
		}
		if w, gv, wv, ok := p.differ(got, want, n, want, n); ok {
			r.add("fail", "C11", rule, key, "-", "%s of %s leaves the parameter at %s, the rule gives %s (%.6g against %.6g, for example with %s) [path: %s]", s.what, name, short(got.key()), short(want.key()), gv, wv, witnessText(w), p.condText())
			continue
		}
		r.add("unknown", "C11", rule, key, "-", "%s against %s not decided", short(got.key()), short(want.key()))
	}
}

func short(s string) string {
	if len(s) > 400 {
		return strings.ToValidUTF8(s[:400], "") + "…"
	}
	return s
}

func (p *Path) condText() string {
	var l []string
	for _, c := range p.T.conds {
		s := c.c.String()
		if !c.v {
			s = "not " + s
		}
		l = append(l, short(s))
	}
	return strings.Join(l, ", ")
}

func runStrategies(P *Program, thorough bool) *opSuite {
	S := &opSuite{}
	type job struct {
		u   *stratUnit
		w   string
		cfg stratConfig
	}
	var jobs []job
	for _, u := range findStrategies(P) {
		S.units = append(S.units, u.name)
		for _, w := range []string{"32", "64"} {
			if u.typeName() != u.name && !strings.HasSuffix(u.name, w) {
				continue
			}
			k := 3
			if thorough {
				k = 4
			}
			jobs = append(jobs, job{u, w, stratConfig{steps: k}}, job{u, w, stratConfig{steps: 1, foreign: true}})
		}
	}
	S.results = parallel(len(jobs), func(i int) *opResult {
		j := jobs[i]
		return safeStrategy(P, j.u, j.w, j.cfg)
	})
	return S
}

func safeStrategy(P *Program, u *stratUnit, width string, cfg stratConfig) (r *opResult) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("SPAGOVERIF_DEBUG") != "" {
				panic(e)
			}
			r = &opResult{unit: u.name, stages: map[string]int{"internal": 1}}
			r.facts = append(r.facts, opFact{"unknown", "*", "analysis", u.name, "-", fmt.Sprint(e)})
		}
	}()
	reset := func() { r = &opResult{unit: u.name, stages: map[string]int{}} }
	reset()
	spec := optSpecs[u.typeName()]
	if spec == nil {
		r.add("unknown", "C11", "the documented update rule", u.typeName(), "-", "no rule is written down for this strategy")
		return r
	}
	I := NewInterp(P)
	I.terms, I.exactEq = true, true
	n, complete := I.runStrategy(u, spec, width, cfg, reset, func(run *stratRun) { r.judgeStrategy(u, spec, cfg, run) })
	r.paths, r.complete = n, complete
	if !complete {
		r.add("unknown", "*", "paths", u.name, "-", "more than %d paths", n)
	}
	return r
}

// parallel computes independent results on all cores.
func parallel(n int, f func(i int) *opResult) []*opResult {
	out := make([]*opResult, n)
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				out[i] = f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return out
}

func debugStrategies(P *Program, name string) {
	s := runStrategies(P, false)
	rest := runRules(P, append(append(decayUnits(P), clipUnits(P)...), optimizeUnits(P)...))
	for _, r := range append(s.results, rest.results...) {
		if name != "" && !strings.HasPrefix(r.unit, name) {
			continue
		}
		n := map[string]int{}
		seen := map[string]bool{}
		fmt.Println(r.unit, "paths", r.paths, "done", r.done, "rejected", r.rejected)
		for _, f := range r.facts {
			n[f.kind+" "+f.rule+" "+f.key]++
			if f.kind != "ok" && !seen[f.key+f.detail] {
				seen[f.key+f.detail] = true
				fmt.Println("   ", f.kind, f.rule, f.key, f.where, f.detail)
			}
		}
		fmt.Println("   ", n)
	}
}
