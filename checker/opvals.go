package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
)

// What the differentiable functions compute: the term of every element of the
// result against the formula of the function.

type opArgs struct {
	p  *Path
	op *opPath
	o  []string // operands in order of the parameters, lists apart
	l  []string // operands in the list
	i  []*Poly
	il []*Poly
	f  []string
	n  *Poly // elements of the result
}

func (a *opArgs) el(k int) *Expr { return eEl(a.o[k]) }

// num is the only element of an operand.
func (a *opArgs) num(k int) *Expr { return eRef(a.o[k], pConst(0)) }

func (a *opArgs) dims(name string) (r, c *Poly) {
	r, c, ok := a.p.shapeOf(name)
	if !ok {
		a.p.unsupported("shape of %s", name)
	}
	return r, c
}

func (a *opArgs) sizeOf(name string) *Poly {
	r, c := a.dims(name)
	return a.p.F.norm(pMul(r, c))
}

type opRule func(a *opArgs) []valPiece

var formulas = map[string]opRule{}

func ePosPart(x *Expr) *Expr { return eIte(x, x, eConst(0)) }

func sigmoidOf(x *Expr) *Expr {
	return eDiv(eConst(1), eAdd(eConst(1), eFn("exp", eScale(x, -1))))
}

func tanhOf(x *Expr) *Expr {
	e := eFn("exp", eScale(x, 2))
	return eDiv(eSub(e, eConst(1)), eAdd(e, eConst(1)))
}

func init() {
	k := eConst
	all := func(name string, f func(a *opArgs) *Expr) {
		formulas["New"+name] = func(a *opArgs) []valPiece { return whole(f(a)) }
	}
	un := func(name string, f func(x *Expr) *Expr) {
		all(name, func(a *opArgs) *Expr { return f(a.el(0)) })
	}
	bin := func(name string, f func(x, y *Expr) *Expr) {
		all(name, func(a *opArgs) *Expr { return f(a.el(0), a.el(1)) })
	}
	sc := func(name string, f func(x, s *Expr) *Expr) {
		all(name, func(a *opArgs) *Expr { return f(a.el(0), a.num(1)) })
	}
	sc2 := func(name string, f func(x, s, t *Expr) *Expr) {
		all(name, func(a *opArgs) *Expr { return f(a.el(0), a.num(1), a.num(2)) })
	}
	scalar := func(name string, f func(a *opArgs) *Expr) {
		formulas["New"+name] = func(a *opArgs) []valPiece {
			return []valPiece{{idx: pConst(0), want: f(a)}}
		}
	}
	bin("Add", eAdd)
	bin("Sub", eSub)
	bin("Prod", eMul)
	bin("Div", eDiv)
	bin("Max", func(x, y *Expr) *Expr { return minMaxTerm(true, x, y) })
	bin("Min", func(x, y *Expr) *Expr { return minMaxTerm(false, x, y) })
	sc("AddScalar", eAdd)
	sc("SubScalar", eSub)
	sc("ProdScalar", eMul)
	sc("DivScalar", eDiv)
	sc("ReverseSubScalar", func(x, s *Expr) *Expr { return eSub(s, x) })
	un("Copy", func(x *Expr) *Expr { return x })
	un("Flatten", func(x *Expr) *Expr { return x })
	un("Reshape", func(x *Expr) *Expr { return x })
	un("Neg", func(x *Expr) *Expr { return eScale(x, -1) })
	un("Reciprocal", func(x *Expr) *Expr { return eDiv(k(1), x) })
	un("Square", func(x *Expr) *Expr { return eMul(x, x) })
	for _, n := range []string{"Abs", "Sqrt", "Exp", "Log", "Sin", "Cos", "Tan"} {
		f := fnTerm
		n := n
		un(n, func(x *Expr) *Expr { return f(n, x) })
	}
	un("Tanh", tanhOf)
	un("Sigmoid", sigmoidOf)
	swish := func(x *Expr) *Expr { return eMul(x, sigmoidOf(x)) }
	un("Swish", swish)
	un("SiLU", swish)
	sc("SwishB", func(x, b *Expr) *Expr { return eMul(x, sigmoidOf(eMul(b, x))) })
	un("Mish", func(x *Expr) *Expr {
		return eMul(x, tanhOf(eFn("log", eAdd(k(1), eFn("exp", x)))))
	})
	un("GELU", func(x *Expr) *Expr {
		in := eScale(eAdd(x, eScale(ePowE(x, k(3)), 0.044715)), math.Sqrt(2/math.Pi))
		return eScale(eMul(x, eAdd(k(1), tanhOf(in))), 0.5)
	})
	un("HardSigmoid", func(x *Expr) *Expr {
		return eIte(eSub(x, k(2.5)), k(1), eIte(eSub(k(-2.5), x), k(0), eAdd(eScale(x, 0.2), k(0.5))))
	})
	un("HardTanh", func(x *Expr) *Expr {
		return eIte(eSub(x, k(1)), k(1), eIte(eSub(k(-1), x), k(-1), x))
	})
	un("ReLU", ePosPart)
	un("Softsign", func(x *Expr) *Expr { return eDiv(x, eAdd(k(1), eFn("abs", x))) })
	expm1 := func(x *Expr) *Expr { return eSub(eFn("exp", x), k(1)) }
	sc("ELU", func(x, a *Expr) *Expr { return eIte(x, x, eMul(a, expm1(x))) })
	sc("CELU", func(x, a *Expr) *Expr {
		return eIte(x, x, eMul(a, expm1(eDiv(x, a))))
	})
	sc2("SELU", func(x, a, s *Expr) *Expr {
		return eMul(s, eIte(x, x, eMul(a, expm1(x))))
	})
	sc("LeakyReLU", func(x, a *Expr) *Expr { return eIte(x, x, eMul(a, x)) })
	sc("SoftShrink", func(x, l *Expr) *Expr {
		return eIte(eSub(eScale(x, -1), l), eAdd(x, l), eIte(eSub(x, l), eSub(x, l), k(0)))
	})
	sc2("SoftPlus", func(x, b, t *Expr) *Expr {
		bx := eMul(b, x)
		return eIte(eSub(x, t), x, eDiv(eFn("log", eAdd(k(1), eFn("exp", bx))), b))
	})
	sc2("Threshold", func(x, t, c *Expr) *Expr { return eIte(eSub(x, t), x, c) })
	all("Pow", func(a *opArgs) *Expr { return ePowE(a.el(0), eSc(a.f[0])) })
	all("Softmax", func(a *opArgs) *Expr {
		e := eFn("exp", a.el(0))
		return eDiv(e, eSum(e, cur, a.n))
	})
	scalar("Dot", func(a *opArgs) *Expr { return eSum(eMul(a.el(0), a.el(1)), cur, a.sizeOf(a.o[0])) })
	scalar("ReduceSum", func(a *opArgs) *Expr { return eSum(a.el(0), cur, a.sizeOf(a.o[0])) })
	scalar("ReduceMean", func(a *opArgs) *Expr {
		n := a.sizeOf(a.o[0])
		return eDiv(eSum(a.el(0), cur, n), eInt(n))
	})
	scalar("ReduceMax", func(a *opArgs) *Expr { return a.p.extremum(true, a.o[0], a.sizeOf(a.o[0])) })
	scalar("ScalarMax", func(a *opArgs) *Expr {
		var r *Expr
		for _, n := range a.l {
			x := eRef(n, pConst(0))
			if r == nil {
				r = x
			} else {
				r = minMaxTerm(true, r, x)
			}
		}
		return r
	})
	product := func(a *opArgs, w, x string) *Expr {
		r, c := a.dims(w)
		_, m := a.dims(x)
		return matMul(eEl(w), eEl(x), r, c, m, pAtom(cur))
	}
	all("Mul", func(a *opArgs) *Expr { return product(a, a.o[0], a.o[1]) })
	all("MulT", func(a *opArgs) *Expr {
		r, c := a.dims(a.o[0])
		_, m := a.dims(a.o[1])
		return matMul(a.p.tr(a.el(0), r, c), a.el(1), c, r, m, pAtom(cur))
	})
	all("Affine", func(a *opArgs) *Expr {
		y := eAdd(a.el(0), product(a, a.o[1], a.o[2]))
		for i := 0; i+1 < len(a.l); i += 2 {
			y = eAdd(y, product(a, a.l[i], a.l[i+1]))
		}
		return y
	})
	all("Transpose", func(a *opArgs) *Expr {
		r, c := a.dims(a.o[0])
		return a.p.tr(a.el(0), r, c)
	})
	formulas["NewConcat"] = func(a *opArgs) (l []valPiece) {
		off := pConst(0)
		for _, x := range a.l {
			n := a.sizeOf(x)
			l = append(l, run("of operand xs[]", off, n, eRef(x, iota1)))
			off = pAdd(off, n)
		}
		return l
	}
	formulas["NewStack"] = formulas["NewConcat"]
	formulas["NewAppendRows"] = func(a *opArgs) []valPiece {
		n := a.sizeOf(a.o[0])
		_, c := a.dims(a.o[0])
		l := []valPiece{run("of operand x", pConst(0), n, eRef(a.o[0], iota1))}
		for i, x := range a.l {
			l = append(l, run("of operand vs[]", pAdd(n, pScale(c, int64(i))), c, eRef(x, iota1)))
		}
		return l
	}
	all("ColView", func(a *opArgs) *Expr {
		_, c := a.dims(a.o[0])
		return eRef(a.o[0], pAdd(a.i[0], pMul(c, pAtom(cur))))
	})
	all("RowView", func(a *opArgs) *Expr {
		_, c := a.dims(a.o[0])
		return eRef(a.o[0], pAdd(pMul(a.i[0], c), pAtom(cur)))
	})
	scalar("At", func(a *opArgs) *Expr {
		_, c := a.dims(a.o[0])
		switch len(a.il) {
		case 1:
			return eRef(a.o[0], a.il[0])
		case 2:
			return eRef(a.o[0], pAdd(pMul(a.il[0], c), a.il[1]))
		}
		return nil
	})
	formulas["NewSlice"] = func(a *opArgs) []valPiece {
		_, c := a.dims(a.o[0])
		w := pSub(a.i[3], a.i[1])
		src := pAdd(pMul(pAdd(a.i[0], iota1), c), pAdd(a.i[1], kapp))
		return []valPiece{block("", pConst(0), w, pSub(a.i[2], a.i[0]), w, eRef(a.o[0], src))}
	}
	formulas["NewRotateR"] = func(a *opArgs) []valPiece {
		n := a.sizeOf(a.o[0])
		i := a.i[0]
		return []valPiece{
			run("moved to the front", pConst(0), i, eRef(a.o[0], pAdd(pSub(n, i), iota1))),
			run("moved back", i, pSub(n, i), eRef(a.o[0], iota1)),
		}
	}
	wrappers()
}

func (r *opResult) judgeFormula(u *opUnit, op *opPath, cfg opConfig) {
	const rule = "result as defined"
	p := op.p
	p.stack = nil
	p.protect = true
	if op.end != nil {
		if op.end.kind == "unsupported" || op.end.kind == "limit" {
			r.add("unknown", "C15", "construct", op.stage, op.end.pos, "%s", op.end.msg)
		}
		return
	}
	if p.aliases(op.inputs) != nil {
		return
	}
	r.done++
	defer func() {
		if e := recover(); e != nil {
			if ep, is := e.(endPath); is {
				r.add("unknown", "C15", rule, "", ep.pos, "%s", ep.msg)
				return
			}
			panic(e)
		}
	}()
	ya := p.floatArr(op.y)
	if ya == nil {
		r.add("unknown", "C15", rule, "", "-", "no elements in the result")
		return
	}
	if p.T.bad != "" {
		r.add("unknown", "C15", rule, "", "-", "%s", p.T.bad)
		return
	}
	a := &opArgs{p: p, op: op, n: p.F.norm(pMul(op.yDims[0], op.yDims[1]))}
	sig := u.ctor.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		pv := sig.Params().At(i)
		switch t := pv.Type(); {
		case isTensorT(t):
			a.o = append(a.o, pv.Name())
		case isFloatT(t):
			a.f = append(a.f, pv.Name())
		case isIntT(t):
			a.i = append(a.i, pAtom(pv.Name()))
		case isSliceOf(t, isTensorT):
			for j := 0; j < cfg.listLen; j++ {
				a.l = append(a.l, fmt.Sprintf("%s[%d]", pv.Name(), j))
			}
		case isSliceOf(t, isIntT):
			for j := 0; j < cfg.listLen; j++ {
				a.il = append(a.il, pAtom(fmt.Sprintf("%s[%d]", pv.Name(), j)))
			}
		}
	}
	for _, pc := range formulas[u.name](a) {
		pc := pc
		if pc.want == nil {
			continue
		}
		old := p.F
		p.F = p.F.clone()
		for _, b := range pc.bounds {
			p.F.addGE(b)
		}
		n := pConst(1)
		if pEq(pc.idx, pAtom(cur)) {
			n = p.F.norm(ya.length)
			p.F.addGE(below(pAtom(cur), n))
		}
		r.judgeElement("C15", rule, u.name, p, &pc, ya, nil, n, 0)
		p.F = old
	}
}

func runFormulas(P *Program, maxList int) *matSuite {
	S := &matSuite{}
	type job struct {
		u   *opUnit
		cfg opConfig
	}
	var jobs []job
	for _, u := range findOps(P) {
		if formulas[u.name] == nil {
			continue
		}
		S.units = append(S.units, u.name)
		n := maxList
		if u.name == "NewAffine" {
			n *= 2 // pairs
		}
		for _, cfg := range u.configs(n) {
			cfg.forward = true
			jobs = append(jobs, job{u, cfg})
		}
	}
	S.results = parallel(len(jobs), func(i int) (r *opResult) {
		u, cfg := jobs[i].u, jobs[i].cfg
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("SPAGOVERIF_DEBUG") != "" {
					panic(e)
				}
				r = &opResult{unit: u.name, stages: map[string]int{"internal": 1}}
				r.facts = append(r.facts, opFact{"unknown", "*", "analysis", u.name, "-", fmt.Sprint(e)})
			}
		}()
		reset := func() { r = &opResult{unit: u.name, stages: map[string]int{}} }
		reset()
		I := NewInterp(P)
		I.terms, I.zeros = true, true
		n, complete := I.runOp(u, cfg, reset, func(op *opPath) { r.judgeFormula(u, op, cfg) })
		r.paths, r.complete = n, complete
		return r
	})
	return S
}

func init() {
	checks["C15"] = func(C *Context, r *Report) {
		n := 4
		if C.tier == "thorough" {
			n = 6
		}
		S := runFormulas(C.prog(loadOpts{instance: true}), n)
		proved := map[string]bool{}
		for _, x := range S.results {
			r.Count("configurations analysed", 1)
			r.Count("abstract paths", x.paths)
			x.tell(r, "C15")
			for _, f := range x.facts {
				if f.prop == "C15" && f.kind == "ok" {
					proved[x.unit] = true
				}
			}
		}
		r.Count("differentiable functions with a defined result", len(S.units))
		r.Require("differentiable functions with a proved result", len(proved), 45)
	}
}

func isSliceOf(t types.Type, f func(types.Type) bool) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && f(s.Elem())
}
