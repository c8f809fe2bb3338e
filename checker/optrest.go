package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Learning-rate decay, gradient clipping and the optimizer's loop over the
// parameters.

// ruleUnit is one function or method whose effect is compared with a rule.
type ruleUnit struct {
	name string
	run  func(I *Interp, r *opResult)
}

// methodOwners are the exported types below a package path with a method of
// that name.
func methodOwners(P *Program, path string, methods ...string) []types.Type {
	var out []types.Type
	for pp, pk := range P.By {
		if pp != path && !strings.HasPrefix(pp, path+"/") {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !tn.Exported() || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			pt := types.NewPointer(tn.Type())
			ms := P.SSA.MethodSets.MethodSet(pt)
			for _, m := range methods {
				if ms.Lookup(nil, m) != nil {
					out = append(out, pt)
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// decaySpecs are the documented decays, by the arguments of the constructor.
var decaySpecs = map[string]func(a []*Expr, lr, t *Expr) (cond []*Expr, val *Expr){
	"Exponential": func(a []*Expr, lr, t *Expr) ([]*Expr, *Expr) {
		final, times := a[1], a[2]
		left := eSub(times, t)
		n := eAdd(eMul(left, eFn("log", lr)), eFn("log", final))
		return []*Expr{eSub(lr, final)}, eFn("exp", eDiv(n, eAdd(left, one())))
	},
	"Hyperbolic": func(a []*Expr, lr, t *Expr) ([]*Expr, *Expr) {
		init, final, rate := a[0], a[1], a[2]
		return []*Expr{rate, eSub(lr, final)}, eDiv(init, eAdd(one(), eMul(rate, t)))
	},
}

func decayUnits(P *Program) []*ruleUnit {
	var out []*ruleUnit
	for _, t := range methodOwners(P, optPath, "Decay") {
		t := t
		pk := P.ssaPkg(pkgOfType(t).Path())
		ctor := pk.Func("New")
		n := nameOfType(t.(*types.Pointer).Elem())
		out = append(out, &ruleUnit{"decay " + n, func(I *Interp, r *opResult) { r.decay(I, n, t, ctor) }})
	}
	return out
}

func (r *opResult) decay(I *Interp, name string, t types.Type, ctor *ssa.Function) {
	const rule = "the documented decay"
	spec := decaySpecs[name]
	if spec == nil || ctor == nil || !types.Identical(ctor.Signature.Results().At(0).Type(), t) {
		r.add("unknown", "C11", rule, name, "-", "no rule is written down for this decay")
		return
	}
	type out struct {
		args []*Expr
		got  Value
	}
	var outs map[*Path]*out
	I.explore(r.unit, func() {
		outs = map[*Path]*out{}
		*r = opResult{unit: r.unit, stages: map[string]int{}}
	}, func(p *Path) *endPath {
		o := &out{}
		outs[p] = o
		p.T.sc = map[string][2]float64{"init": {1, 3}, "final": {0.1, 0.9}, "rate": {0.1, 2}, "lr": {0.05, 3}}
		p.T.shapes = map[string][2]*Poly{}
		var args []Value
		names := []string{"init", "final", "rate"}
		ps := ctor.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if isIntT(ps.At(i).Type()) {
				p.F.addGE(pSub(pAtom("times"), pConst(1)))
				args = append(args, pAtom("times"))
				o.args = append(o.args, eInt(pAtom("times")))
				continue
			}
			if i >= len(names) {
				p.unsupported("constructor of a decay")
			}
			e := eSc(names[i])
			args = append(args, &FloatV{e: e, u: p.U.fresh(names[i], false)})
			o.args = append(o.args, e)
		}
		p.phase = "construct"
		d := p.call(ctor, args, nil)
		p.phase = "decay"
		p.F.neg["t"] = true
		fn := p.I.methodNamed(t, pkgOfType(t), "Decay")
		o.got = p.callBody(fn, []Value{d, &FloatV{e: eSc("lr"), u: p.U.fresh("lr", false)}, pAtom("t")}, nil)
		return nil
	}, func(p *Path, e *endPath) {
		r.paths++
		o := outs[p]
		if e != nil {
			switch {
			case e.kind == "unsupported" || e.kind == "limit":
				r.add("unknown", "*", "construct", name, e.pos, "%s", e.msg)
			case e.kind != "infeasible" && p.phase == "decay":
				r.add("fail", "C11", rule, name+" ends in "+e.kind, e.pos, "Decay ends in %s: %s", e.kind, e.msg)
			}
			return
		}
		r.done++
		f, ok := o.got.(*FloatV)
		if !ok || f.e == nil || len(o.args) < 3 || p.T.bad != "" {
			r.add("unknown", "C11", rule, name, "-", "no term %s", p.T.bad)
			return
		}
		lr, ti := eSc("lr"), eInt(pAtom("t"))
		early := func(f *Facts) bool { // t <= 1 possible
			f = f.clone()
			f.addGE(pSub(pConst(1), pAtom("t")))
			return !f.bad
		}(p.F)
		late := func(f *Facts) bool {
			f = f.clone()
			f.addGE(pSub(pAtom("t"), pConst(2)))
			return !f.bad
		}(p.F)
		cs, v := spec(o.args, lr, ti)
		for i := len(cs) - 1; i >= 0; i-- {
			v = eIte(cs[i], v, lr)
		}
		for _, w := range []struct {
			on   bool
			want *Expr
			what string
		}{{early, lr, "up to time 1"}, {late, v, "later"}} {
			if !w.on {
				continue
			}
			old := p.F
			p.F = p.F.clone()
			if w.what == "later" {
				p.F.addGE(pSub(pAtom("t"), pConst(2)))
				if ps := ctor.Signature.Params(); isIntT(ps.At(2).Type()) {
					p.F.addGE(pSub(pAtom("times"), pAtom("t"))) // no statement beyond the last step
				}
			} else {
				p.F.addGE(pSub(pConst(1), pAtom("t")))
			}
			if !p.F.bad {
				r.compare(p, rule, name+" "+w.what, f.e, w.want, pConst(1), "the learning rate")
			}
			p.F = old
		}
	})
}

// compare judges one term against the rule.
func (r *opResult) compare(p *Path, rule, key string, got, want *Expr, n *Poly, what string) string {
	g, w := p.canon(p.underEqualities(got)), p.canon(p.underEqualities(want))
	if g == nil || w == nil {
		r.add("unknown", "C11", rule, key, "-", "not normalised")
		return "unknown"
	}
	if p.same(g, w, n, domain(w)) {
		r.add("ok", "C11", rule, key, "", "")
		return "ok"
	}
	if at, gv, wv, ok := p.differ(g, w, n, w, n); ok {
		r.add("fail", "C11", rule, key, "-", "%s becomes %s, the rule gives %s (%.6g against %.6g, for example with %s) [path: %s]", what, short(g.key()), short(w.key()), gv, wv, witnessText(at), p.condText())
		return "fail"
	}
	r.add("unknown", "C11", rule, key, "-", "%s against %s not decided", short(g.key()), short(w.key()))
	return "unknown"
}

// driverParams builds parameters as a model would hold them; graded are those
// with a gradient.
func (p *Path) driverParams(width string, graded []bool) (list Value, params []*Iface) {
	np := p.I.P.ssaPkg(nnPath).Func("NewParam")
	mk := p.I.P.ssaPkg(nnPath).Func("spagoverifParams")
	pt := np.Signature.Results().At(0).Type()
	n := int64(len(graded))
	a := p.newArr(pt, pConst(n), "params", localOwner)
	for i, has := range graded {
		nm := fmt.Sprintf("p%d", i)
		rows, cols := pAtom(nm+".rows"), pAtom(nm+".cols")
		p.F.addGE(pSub(rows, pConst(1)))
		p.F.addGE(pSub(cols, pConst(1)))
		w := p.newMatrix(width, rows, cols, &Owner{kind: "param", name: nm}, p.U.fresh("["+nm+"]", true))
		pv := p.call(np, []Value{w}, nil)
		p.setOwner(pv, &Owner{kind: "param", name: nm})
		ps := &Iface{T: pt, V: pv}
		if has {
			gn := fmt.Sprintf("g%d", i)
			g := p.newMatrix(width, rows, cols, &Owner{kind: "grad", name: gn}, p.U.fresh("["+gn+"]", true))
			p.callNamed(ps, "AccGrad", g)
			if gl, ok := p.callNamed(ps, "Grad").(*Iface); ok {
				p.setOwner(gl.V, &Owner{kind: "grad", name: "the gradient"})
			}
			p.T.shapes[gn] = [2]*Poly{rows, cols}
		}
		p.elemLoc(a, pConst(int64(i))).v = pv
		params = append(params, ps)
	}
	return p.call(mk, []Value{Slice{a, pConst(0), pConst(n), pConst(n)}}, nil), params
}

func clipUnits(P *Program) []*ruleUnit {
	var out []*ruleUnit
	for _, t := range methodOwners(P, optPath, "ClipGrads", "ClipGradients") {
		for _, m := range []string{"ClipGrads", "ClipGradients"} {
			if P.SSA.MethodSets.MethodSet(t).Lookup(nil, m) == nil {
				continue
			}
			t, m := t, m
			n := nameOfType(t.(*types.Pointer).Elem())
			for _, w := range []string{"32", "64"} {
				w := w
				for _, graded := range [][]bool{{true}, {true, true}, {false, true}} {
					graded := graded
					out = append(out, &ruleUnit{"clipper " + n + w, func(I *Interp, r *opResult) { r.clip(I, n, m, w, t, graded) }})
				}
			}
		}
	}
	return out
}

func (r *opResult) clip(I *Interp, name, method, width string, t types.Type, graded []bool) {
	const rule = "the documented clipping"
	type out struct {
		params []*Iface
		arrs   []*Arr
	}
	var outs map[*Path]*out
	I.explore(r.unit, func() {
		outs = map[*Path]*out{}
		*r = opResult{unit: r.unit, stages: map[string]int{}}
	}, func(p *Path) *endPath {
		o := &out{}
		outs[p] = o
		p.T.exact = map[string]float64{"NormType": 3}
		p.T.sc = map[string][2]float64{"Value": {0.05, 2}, "MaxNorm": {0.05, 3}, "NormType": {1.2, 4}}
		p.T.shapes = map[string][2]*Poly{}
		p.phase = "prepare"
		list, params := p.driverParams(width, graded)
		o.params = params
		st := t.(*types.Pointer).Elem()
		c := p.newLoc(st, "clipper", &Owner{kind: "strategy", name: name})
		for i := 0; i < st.Underlying().(*types.Struct).NumFields(); i++ {
			f := st.Underlying().(*types.Struct).Field(i)
			if isFloatT(f.Type()) {
				p.kid(c, i).v = &FloatV{e: eSc(f.Name()), u: p.U.fresh(f.Name(), false)}
			}
		}
		p.phase = "clip"
		p.callNamed(&Iface{T: t, V: c}, method, list)
		p.phase = "post"
		for i, ps := range params {
			if !graded[i] {
				o.arrs = append(o.arrs, nil)
				continue
			}
			g, ok := p.callNamed(ps, "Grad").(*Iface)
			if !ok {
				p.unsupported("the gradient is gone")
			}
			o.arrs = append(o.arrs, p.floatArr(p.callNamed(g, "Data")))
		}
		return nil
	}, func(p *Path, e *endPath) {
		r.paths++
		o := outs[p]
		p.stack = nil
		p.protect = true
		all := true
		for _, g := range graded {
			all = all && g
		}
		if e != nil {
			switch {
			case e.kind == "unsupported" || e.kind == "limit":
				r.add("unknown", "*", "construct", name, e.pos, "%s", e.msg)
			case e.kind != "infeasible" && p.phase == "clip" && !all && (strings.Contains(e.msg, "nil") || strings.Contains(e.msg, "conversion")):
				r.add("fail", "C11", "clipping takes parameters as they come", name, e.pos, "clipping ends in %s (%s) when a parameter has no gradient", e.kind, e.msg)
			}
			return
		}
		if !all {
			r.add("ok", "C11", "clipping takes parameters as they come", name, "", "")
		}
		for _, ev := range p.events {
			if ev.Kind == "write" && ev.Phase == "clip" && !strings.HasPrefix(ev.Name, "grad:") {
				r.add("fail", "C11", "clipping changes gradients only", name+" writes "+plain(ev.Name), ev.Pos, "clipping writes to %s (%s)", ev.Name, stackShort(ev.Stack))
			}
		}
		r.add("ok", "C11", "clipping changes gradients only", name, "", "")
		r.done++
		inf := false
		for k, v := range p.bools {
			if v && strings.HasPrefix(k, "IsInf") {
				inf = true
			}
		}
		var total *Expr = eConst(0)
		for i := range o.params {
			if graded[i] {
				g := eEl(fmt.Sprintf("g%d", i))
				d := p.T.shapes[fmt.Sprintf("g%d", i)]
				total = eAdd(total, eSum(ePowE(eFn("abs", g), eSc("NormType")), cur, p.F.norm(pMul(d[0], d[1]))))
			}
		}
		for i, a := range o.arrs {
			if !graded[i] {
				continue
			}
			gn := fmt.Sprintf("g%d", i)
			g := eEl(gn)
			d := p.T.shapes[gn]
			n := p.F.norm(pMul(d[0], d[1]))
			if a == nil || p.content(a) == nil || p.T.bad != "" {
				r.add("unknown", "C11", rule, name, "-", "no term %s", p.T.bad)
				continue
			}
			var wants []*Expr
			switch name {
			case "ValueClipper":
				v := eSc("Value")
				lo, hi := eSub(eScale(v, -1), g), eSub(g, v)
				wants = []*Expr{eIte(lo, eScale(v, -1), eIte(hi, v, g)), eIte(hi, v, eIte(lo, eScale(v, -1), g))}
			case "NormClipper":
				if inf {
					r.add("unknown", "C11", rule, name+" with the largest element", "-", "maxima have no term")
					continue
				}
				norm := ePowE(total, ePowE(eSc("NormType"), eConst(-1)))
				k := eDiv(eSc("MaxNorm"), eAdd(norm, eConst(1e-7)))
				wants = []*Expr{eMul(g, eIte(eSub(one(), k), k, one()))}
			default:
				r.add("unknown", "C11", rule, name, "-", "no rule is written down for this clipper")
				continue
			}
			ok := false
			for _, w := range wants {
				if p.same(p.canon(p.content(a)), p.canon(w), n, domain(p.canon(w))) {
					ok = true
				}
			}
			if ok {
				r.add("ok", "C11", rule, name, "", "")
				continue
			}
			r.compare(p, rule, name, p.content(a), wants[0], n, "a gradient element")
		}
	})
}

// optimizeUnit is the loop of the optimizer.
func optimizeUnits(P *Program) []*ruleUnit {
	var out []*ruleUnit
	pk := P.ssaPkg(optPath)
	if pk == nil || pk.Func("New") == nil {
		return nil
	}
	ctor := pk.Func("New")
	for bits := 0; bits < 8; bits++ {
		graded := []bool{bits&1 != 0, bits&2 != 0, bits&4 != 0}
		out = append(out, &ruleUnit{"optimizer", func(I *Interp, r *opResult) { r.optimize(I, ctor, graded) }})
	}
	return out
}

func (r *opResult) optimize(I *Interp, ctor *ssa.Function, graded []bool) {
	I.chans = true
	type out struct {
		params []*Iface
		err    Value
	}
	var outs map[*Path]*out
	I.explore(r.unit, func() {
		outs = map[*Path]*out{}
		*r = opResult{unit: r.unit, stages: map[string]int{}}
	}, func(p *Path) *endPath {
		o := &out{}
		outs[p] = o
		p.T.shapes = map[string][2]*Poly{}
		p.phase = "prepare"
		list, params := p.driverParams("64", graded)
		o.params = params
		st := p.call(p.I.P.ssaPkg(optPath).Func("spagoverifNew"), nil, nil)
		ov := p.call(ctor, []Value{list, st}, nil)
		p.phase = "optimize"
		o.err = p.callNamed(&Iface{T: ctor.Signature.Results().At(0).Type(), V: ov}, "Optimize")
		return nil
	}, func(p *Path, e *endPath) {
		r.paths++
		o := outs[p]
		const rule = "one step for every parameter with a gradient"
		if e != nil {
			switch {
			case e.kind == "unsupported" || e.kind == "limit":
				r.add("unknown", "*", "construct", "Optimize", e.pos, "%s", e.msg)
			case e.kind != "infeasible" && p.phase == "optimize":
				r.add("fail", "C14", rule, "Optimize ends in "+e.kind, e.pos, "Optimize ends in %s: %s", e.kind, e.msg)
			}
			return
		}
		r.done++
		steps := make([]int, len(graded))
		failed := false
		stopped := false
		for _, ev := range p.events {
			if ev.Kind == "cancel" && !failed {
				stopped = true
			}
			if ev.Kind != "step" {
				continue
			}
			if stopped {
				r.add("fail", "C14", rule, "Optimize stops the parameters", ev.Pos, "the context of the parameters is cancelled although no step has failed and parameters are left [path: %s]", strings.Join(p.labels, ", "))
			}
			for i, ps := range o.params {
				if ev.Args[0] == ps.V {
					steps[i]++
				}
			}
			if ev.Extra == "true" {
				failed = true
			}
		}
		isn, known := p.isNil(o.err)
		if known && failed && isn {
			r.add("fail", "C14", "a failing step is reported", "Optimize", "-", "Optimize returns no error although a step failed [path: %s]", strings.Join(p.labels, ", "))
		} else if known && !failed && !isn {
			r.add("fail", "C14", "a failing step is reported", "Optimize invents an error", "-", "Optimize returns an error although no step failed")
		} else if !known {
			r.add("unknown", "C14", "a failing step is reported", "Optimize", "-", "the error is not known")
		} else {
			r.add("ok", "C14", "a failing step is reported", "Optimize", "", "")
		}
		for i, has := range graded {
			switch {
			case !has && steps[i] > 0:
				r.add("fail", "C14", rule, "Optimize steps a parameter without a gradient", "-", "parameter %d of %v (true: with a gradient) is stepped although it has no gradient", i, graded)
			case has && steps[i] > 1:
				r.add("fail", "C14", rule, "Optimize steps a parameter more than once", "-", "parameter %d of %v (true: with a gradient) is stepped %d times", i, graded, steps[i])
			case has && steps[i] == 0 && !failed:
				r.add("fail", "C14", rule, "Optimize leaves a parameter out", "-", "parameter %d of %v (true: with a gradient) is not stepped although no step failed [path: %s]", i, graded, strings.Join(p.labels, ", "))
			default:
				r.add("ok", "C14", rule, "Optimize", "", "")
			}
		}
	})
}

func runRules(P *Program, units []*ruleUnit) *opSuite {
	S := &opSuite{}
	for _, u := range units {
		S.units = append(S.units, u.name)
	}
	S.results = parallel(len(units), func(i int) (r *opResult) {
		u := units[i]
		r = &opResult{unit: u.name, stages: map[string]int{}}
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("SPAGOVERIF_DEBUG") != "" {
					panic(e)
				}
				r = &opResult{unit: u.name, stages: map[string]int{"internal": 1}}
				r.facts = append(r.facts, opFact{"unknown", "*", "analysis", u.name, "-", fmt.Sprint(e)})
			}
		}()
		I := NewInterp(P)
		I.terms, I.exactEq = true, true
		u.run(I, r)
		return r
	})
	return S
}

// optSuites are the analyses of the package of optimizers.
func (C *Context) optSuites() (strategies, decays, clips, loop *opSuite) {
	if C.strat == nil {
		P := C.prog(loadOpts{instance: true})
		C.strat = []*opSuite{runStrategies(P, C.tier == "thorough"), runRules(P, decayUnits(P)), runRules(P, clipUnits(P)), runRules(P, optimizeUnits(P))}
	}
	return C.strat[0], C.strat[1], C.strat[2], C.strat[3]
}

// report copies the facts of one property and returns the units that have an
// obligation discharged.
func (s *opSuite) report(r *Report, prop string) map[string]bool {
	proved := map[string]bool{}
	for _, o := range s.results {
		r.Count("configurations analysed", 1)
		r.Count("abstract paths", o.paths)
		r.Count("paths judged to the end", o.done)
		r.Count("paths rejected by the code", o.rejected)
		for _, f := range o.facts {
			switch {
			case f.prop == "*":
				r.Unknown(f.rule, f.key, f.where, "%s", f.detail)
			case f.prop != prop:
			case f.kind == "ok":
				r.OK(f.rule, f.key)
				proved[o.unit] = true
			case f.kind == "fail":
				r.Fail(f.rule, f.key, f.where, "%s", f.detail)
			default:
				r.Unknown(f.rule, f.key, f.where, "%s", f.detail)
			}
		}
	}
	return proved
}

func init() {
	checks["C11"] = func(C *Context, r *Report) {
		st, de, cl, _ := C.optSuites()
		r.Require("update strategies with a proved rule", len(st.report(r, "C11")), 10)
		r.Require("decay functions with a proved rule", len(de.report(r, "C11")), 2)
		r.Require("gradient clippers with a proved rule", len(cl.report(r, "C11")), 2)
	}
	checks["C14"] = func(C *Context, r *Report) {
		_, _, _, lo := C.optSuites()
		r.Require("optimizers with a proved loop", len(lo.report(r, "C14")), 1)
	}
}
