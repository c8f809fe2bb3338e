package main

import (
	"fmt"
	"os"
	"strings"
)

// What the operations of matrices compute, element by element. The table says
// which element every operation puts at which position; the terms that the
// interpreter derives from the code are compared with it.

// valPiece is a part of a result: the positions idx (over the variables ι, κ
// under the bounds, or the whole array if idx is •) and what belongs there.
type valPiece struct {
	sub    string
	res    int
	bounds []*Poly // ≥ 0
	idx    *Poly
	want   *Expr
	alt    *Expr
	altIf  *Expr // what has to be zero for alt
}

type valArgs struct {
	*shapeArgs
	p     *Path
	r, c  *Poly
	mp    *matRun
	sc    map[string]*Expr
	calls func(i, j *Expr) *Expr
}

type valRule func(a *valArgs) []valPiece

var valueTable = map[string]valRule{}

var (
	iota1 = pAtom("ι")
	kapp  = pAtom("κ")
)

func below(i, n *Poly) *Poly { return pSub(pSub(n, i), pConst(1)) }

func (a *valArgs) size() *Poly { return pMul(a.r, a.c) }

func whole(e *Expr) []valPiece { return []valPiece{{idx: pAtom(cur), want: e}} }

// rows×cols block: position off+ι*stride+κ.
func block(sub string, off, stride, rows, cols *Poly, want *Expr) valPiece {
	return valPiece{sub: sub, bounds: []*Poly{below(iota1, rows), below(kapp, cols)}, idx: pAdd(off, pAdd(pMul(iota1, stride), kapp)), want: want}
}

func run(sub string, off, n *Poly, want *Expr) valPiece {
	return valPiece{sub: sub, bounds: []*Poly{below(iota1, n)}, idx: pAdd(off, iota1), want: want}
}

func init() {
	d, o := eEl("d"), eEl("other")
	el := func(names string, f func(a *valArgs) *Expr) {
		for _, n := range strings.Fields(names) {
			valueTable[n] = func(a *valArgs) []valPiece { return whole(f(a)) }
		}
	}
	two := func(names string, f func(x, y *Expr) *Expr) {
		el(names, func(a *valArgs) *Expr { return f(d, o) })
	}
	sc := func(names, arg string, f func(x, s *Expr) *Expr) {
		el(names, func(a *valArgs) *Expr { return f(d, eSc(arg)) })
	}
	one := func(names string, f func(x *Expr) *Expr) {
		el(names, func(a *valArgs) *Expr { return f(d) })
	}
	one("ZerosLike Zeros", func(x *Expr) *Expr { return eConst(0) })
	one("OnesLike", func(x *Expr) *Expr { return eConst(1) })
	two("Add AddInPlace", eAdd)
	two("Sub SubInPlace", eSub)
	two("Prod ProdInPlace", eMul)
	two("Div DivInPlace", eDiv)
	two("Maximum", func(x, y *Expr) *Expr { return minMaxTerm(true, x, y) })
	two("Minimum", func(x, y *Expr) *Expr { return minMaxTerm(false, x, y) })
	two("Copy", func(x, y *Expr) *Expr { return y })
	sc("AddScalar AddScalarInPlace", "n", eAdd)
	sc("SubScalar SubScalarInPlace", "n", eSub)
	sc("ProdScalar ProdScalarInPlace", "n", eMul)
	sc("Pow", "power", ePowE)
	el("ProdMatrixScalarInPlace", func(a *valArgs) *Expr { return eMul(eEl("m"), eSc("n")) })
	one("Abs", func(x *Expr) *Expr { return eFn("abs", x) })
	one("Sqrt", func(x *Expr) *Expr { return eFn("sqrt", x) })
	one("Log", func(x *Expr) *Expr { return eFn("log", x) })
	one("Exp", func(x *Expr) *Expr { return eFn("exp", x) })
	one("Sigmoid", func(x *Expr) *Expr { return eDiv(eConst(1), eAdd(eConst(1), eFn("exp", eScale(x, -1)))) })
	one("Clone Flatten FlattenInPlace Reshape ReshapeInPlace SetRequiresGrad ZeroGrad AccGrad", func(x *Expr) *Expr { return x })
	el("SetData", func(a *valArgs) *Expr { return eEl("data") })
	valueTable["ClipInPlace"] = func(a *valArgs) []valPiece {
		lo, hi := eSub(eSc("min"), d), eSub(d, eSc("max"))
		return []valPiece{{idx: pAtom(cur), want: eIte(lo, eSc("min"), eIte(hi, eSc("max"), d)), alt: eIte(hi, eSc("max"), eIte(lo, eSc("min"), d))}}
	}
	scalar := func(n string, f func(a *valArgs) *Expr) {
		valueTable[n] = func(a *valArgs) []valPiece { return []valPiece{{idx: pConst(0), want: f(a)}} }
	}
	norm := func(a *valArgs, p *Expr) *Expr {
		return ePowE(eSum(ePowE(eFn("abs", d), p), cur, a.size()), eDiv(eConst(1), p))
	}
	scalar("DotUnitary", func(a *valArgs) *Expr { return eSum(eMul(d, o), cur, a.size()) })
	scalar("Sum", func(a *valArgs) *Expr { return eSum(d, cur, a.size()) })
	scalar("Max", func(a *valArgs) *Expr { return a.p.extremum(true, "d", a.size()) })
	scalar("Min", func(a *valArgs) *Expr { return a.p.extremum(false, "d", a.size()) })
	scalar("Norm", func(a *valArgs) *Expr { return norm(a, eSc("pow")) })
	scalar("NewScalar", func(a *valArgs) *Expr { return eSc("v") })
	scalar("Item", func(a *valArgs) *Expr { return eRef("d", pConst(0)) })
	at := func(a *valArgs) *Poly {
		switch len(a.list) {
		case 1:
			return a.list[0].(*Poly)
		case 2:
			return pAdd(pMul(a.list[0].(*Poly), a.c), a.list[1].(*Poly))
		}
		return nil
	}
	for _, n := range []string{"At", "ScalarAt"} {
		scalar(n, func(a *valArgs) *Expr {
			i := at(a)
			if i == nil {
				return nil
			}
			return eRef("d", i)
		})
	}
	for _, n := range []string{"SetAt", "SetScalar"} {
		src := map[string]string{"SetAt": "m", "SetScalar": "v"}[n]
		valueTable[n] = func(a *valArgs) []valPiece {
			i := at(a)
			if i == nil {
				return nil
			}
			lo, hi := pSub(pSub(i, iota1), pConst(1)), pSub(pSub(iota1, i), pConst(1))
			in := below(iota1, a.size())
			return []valPiece{
				{sub: "element set", idx: i, want: eRef(src, pConst(0))},
				{sub: "elements before", bounds: []*Poly{lo, in}, idx: iota1, want: eRef("d", iota1)},
				{sub: "elements behind", bounds: []*Poly{hi, in}, idx: iota1, want: eRef("d", iota1)},
			}
		}
	}
	valueTable["Normalize2"] = func(a *valArgs) []valPiece {
		return []valPiece{{idx: pAtom(cur), want: eDiv(d, norm(a, eConst(2))), alt: d, altIf: norm(a, eConst(2))}}
	}
	el("Softmax", func(a *valArgs) *Expr {
		e := eFn("exp", d)
		return eDiv(e, eSum(e, cur, a.size()))
	})
	el("Mul", func(a *valArgs) *Expr { return matMul(d, o, a.r, a.c, a.ac, pAtom(cur)) })
	el("MulT", func(a *valArgs) *Expr { return matMul(a.p.tr(d, a.r, a.c), o, a.c, a.r, a.ac, pAtom(cur)) })
	el("ExtractRow", func(a *valArgs) *Expr { return eRef("d", pAdd(pMul(a.i[0], a.c), pAtom(cur))) })
	el("ExtractColumn", func(a *valArgs) *Expr { return eRef("d", pAdd(a.i[0], pMul(a.c, pAtom(cur)))) })
	el("Range", func(a *valArgs) *Expr { return eRef("d", pAdd(a.i[0], pAtom(cur))) })
	valueTable["SplitV"] = func(a *valArgs) (l []valPiece) {
		off := pConst(0)
		for i, v := range a.list {
			l = append(l, valPiece{res: i, idx: pAtom(cur), want: eRef("d", pAdd(off, pAtom(cur)))})
			off = pAdd(off, v.(*Poly))
		}
		return l
	}
	valueTable["Slice"] = func(a *valArgs) []valPiece {
		w := pSub(a.i[3], a.i[1])
		src := pAdd(pMul(pAdd(a.i[0], iota1), a.c), pAdd(a.i[1], kapp))
		return []valPiece{block("", pConst(0), w, pSub(a.i[2], a.i[0]), w, eRef("d", src))}
	}
	valueTable["ResizeVector"] = func(a *valArgs) []valPiece {
		return []valPiece{
			{sub: "elements kept", bounds: []*Poly{below(iota1, a.size()), below(iota1, a.i[0])}, idx: iota1, want: eRef("d", iota1)},
			{sub: "elements added", bounds: []*Poly{pSub(iota1, a.size()), below(iota1, a.i[0])}, idx: iota1, want: eConst(0)},
		}
	}
	valueTable["Augment"] = func(a *valArgs) []valPiece {
		w := pScale(a.c, 2)
		l := block("matrix", pConst(0), w, a.r, a.c, eRef("d", pAdd(pMul(iota1, a.c), kapp)))
		id := valPiece{sub: "diagonal", bounds: []*Poly{below(iota1, a.r)}, idx: pAdd(pMul(iota1, w), pAdd(a.c, iota1)), want: eConst(1)}
		up := block("above the diagonal", a.c, w, a.r, a.c, eConst(0))
		lo := block("below the diagonal", a.c, w, a.r, a.c, eConst(0))
		up.bounds = append(up.bounds, below(iota1, kapp))
		lo.bounds = append(lo.bounds, below(kapp, iota1))
		return []valPiece{l, id, up, lo}
	}
	valueTable["SwapInPlace"] = func(a *valArgs) []valPiece {
		row := func(sub string, i, j *Poly, more ...*Poly) valPiece {
			return valPiece{sub: sub, bounds: append(more, below(kapp, a.c)), idx: pAdd(pMul(i, a.c), kapp), want: eRef("d", pAdd(pMul(j, a.c), kapp))}
		}
		in := below(iota1, a.r)
		x, y := a.i[0], a.i[1]
		lo, hi := x, y
		if !a.p.F.geZero(pSub(y, x)) {
			lo, hi = y, x
		}
		return []valPiece{
			row("first row", x, y), row("second row", y, x),
			row("rows before", iota1, iota1, in, below(iota1, lo)),
			row("rows between", iota1, iota1, in, below(lo, iota1), below(iota1, hi)),
			row("rows behind", iota1, iota1, in, below(hi, iota1)),
		}
	}
	valueTable["PadRows"] = func(a *valArgs) []valPiece {
		return []valPiece{run("matrix", pConst(0), a.size(), eRef("d", iota1)), run("padding", a.size(), pMul(a.i[0], a.c), eConst(0))}
	}
	valueTable["PadColumns"] = func(a *valArgs) []valPiece {
		w := pAdd(a.c, a.i[0])
		return []valPiece{
			block("matrix", pConst(0), w, a.r, a.c, eRef("d", pAdd(pMul(iota1, a.c), kapp))),
			block("padding", a.c, w, a.r, a.i[0], eConst(0)),
		}
	}
	valueTable["AppendRows"] = func(a *valArgs) []valPiece {
		l := []valPiece{run("matrix", pConst(0), a.size(), eRef("d", iota1))}
		off := a.size()
		for i := range a.list {
			l = append(l, run("rows appended", off, a.c, eRef(fmt.Sprintf("vs[%d]", i), iota1)))
			off = pAdd(off, a.c)
		}
		return l
	}
	for _, n := range []string{"NewConcatV", "NewStack"} {
		valueTable[n] = func(a *valArgs) (l []valPiece) {
			off := pConst(0)
			for i, v := range a.list {
				s := a.dims(v)
				n := pMul(s[0], s[1])
				l = append(l, run("vectors", off, n, eRef(fmt.Sprintf("vs[%d]", i), iota1)))
				off = pAdd(off, n)
			}
			return l
		}
	}
}

// cases splits the configurations that need it.
func (mp *matRun) cases(u *matUnit) {
	if u.m != "SwapInPlace" {
		return
	}
	p := mp.p
	x, y := mp.args["r1"], mp.args["r2"]
	if x == nil || y == nil {
		var l []Value
		for i := 0; i < u.sig.Params().Len(); i++ {
			l = append(l, mp.args[u.sig.Params().At(i).Name()])
		}
		if len(l) != 2 {
			return
		}
		x, y = l[0], l[1]
	}
	d := pSub(x.(*Poly), y.(*Poly))
	switch p.choose("rows", 3) {
	case 0:
		p.F.addEQ(d)
	case 1:
		p.F.addGE(pSub(d, pConst(1)))
	case 2:
		p.F.addGE(pSub(pScale(d, -1), pConst(1)))
	}
}

func (r *opResult) judgeValues(u *matUnit, mp *matRun) {
	const rule = "elements as defined"
	p := mp.p
	rt := valueTable[u.m]
	if rt == nil {
		return
	}
	defer func() {
		if e := recover(); e != nil {
			if ep, is := e.(endPath); is {
				r.add("unknown", "C19", rule, "", ep.pos, "%s", ep.msg)
				return
			}
			panic(e)
		}
	}()
	if p.T.bad != "" {
		r.add("unknown", "C19", rule, "", "-", "%s", p.T.bad)
		return
	}
	var arrs []*Arr
	var dims [][2]*Poly
	var val *Expr
	isScalar := false
	if strings.HasSuffix(u.m, "InPlace") || inPlaceOps[u.m] != "" {
		d, _ := p.dimsOf(mp.recv)
		arrs, dims = append(arrs, p.floatArr(p.callNamed(mp.recv, "Data"))), append(dims, d)
	} else if ms := p.matricesIn(mp.res); len(ms) > 0 || u.m == "SplitV" {
		for _, v := range ms {
			d, _ := p.dimsOf(v)
			arrs, dims = append(arrs, p.floatArr(p.callNamed(v, "Data"))), append(dims, d)
		}
	} else {
		f := p.floatOf(mp.res)
		if f == nil {
			r.add("unknown", "C19", rule, "", "-", "no number in the result")
			return
		}
		val, isScalar = f.e, true
	}
	a := &valArgs{shapeArgs: mp.shapeArgs(u, 0), p: p, mp: mp}
	a.r, a.c = mp.preDims["d"][0], mp.preDims["d"][1]
	for _, pc := range rt(a) {
		if pc.want == nil {
			continue
		}
		if isScalar {
			r.judgeElement("C19", rule, u.name, p, &pc, &Arr{length: pConst(1)}, val, pConst(1), 0)
			continue
		}
		if pc.res >= len(arrs) || arrs[pc.res] == nil {
			r.add("unknown", "C19", rule, pc.sub, "-", "no elements in the result")
			continue
		}
		arr := arrs[pc.res]
		old := p.F
		p.F = p.F.clone()
		for _, b := range pc.bounds {
			p.F.addGE(b)
		}
		n := pConst(1)
		if pEq(pc.idx, pAtom(cur)) {
			n = p.F.norm(arr.length)
			p.F.addGE(below(pAtom(cur), n))
		}
		r.judgeElement("C19", rule, u.name, p, &pc, arr, nil, n, 0)
		p.F = old
	}
}

// judgeElement compares one piece of a result with the table.
func (r *opResult) judgeElement(prop, rule, name string, p *Path, pc *valPiece, arr *Arr, val *Expr, n *Poly, depth int) {
	if p.F.bad {
		return
	}
	got := val
	var split *Poly
	if got == nil {
		got, split = p.element(arr.e, arr.ps, pc.idx)
		if got != nil {
			got, split = p.unfold(got, 0)
		}
	}
	if got == nil && split != nil && depth < 6 {
		old := p.F
		for _, s := range []*Poly{split, pSub(pScale(split, -1), pConst(1))} {
			p.F = old.clone()
			p.F.addGE(s)
			r.judgeElement(prop, rule, name, p, pc, arr, val, n, depth+1)
		}
		p.F = old
		return
	}
	got = p.resolve(got)
	sub := pc.sub
	alt := pc.alt
	if alt != nil && pc.altIf != nil {
		if z, known := p.zeroCase(pc.altIf); !z || !known {
			alt = nil
		}
	}
	decide := func(want *Expr) (ok bool) {
		if got == nil || want == nil {
			return false
		}
		g, w := p.canon(p.implied(p.ranged(p.normIdx(got)))), p.canon(p.implied(p.ranged(p.normIdx(want))))
		return p.same(p.alignRefs(g, w), w, n, domain(w))
	}
	if decide(pc.want) || alt != nil && decide(alt) {
		r.add("ok", prop, rule, sub, "", "")
		return
	}
	if got == nil {
		got = p.content(arr)
		if !pEq(pc.idx, pAtom(cur)) {
			got = got.at(cur, pc.idx)
		}
	}
	if got == nil {
		r.add("unknown", prop, rule, sub, "-", "the elements are not known")
		return
	}
	if floating(got) {
		r.add("unknown", prop, rule, sub, "-", "an element is taken from a position that is not known: %s", got.key())
		return
	}
	g, w := p.canon(got), p.canon(pc.want)
	if at, gv, wv, ok := p.differ(g, w, n, w, n); ok {
		if alt != nil {
			if _, _, _, ok := p.differ(g, p.canon(alt), n, w, n); !ok {
				r.add("unknown", prop, rule, sub, "-", "%s not decided", short(g.key()))
				return
			}
		}
		x := ""
		if sub != "" {
			x = " (" + sub + ")"
		}
		r.add("fail", prop, rule, sub, "-", "%s%s puts %s where %s belongs (%.6g against %.6g, for example with %s) [path: %s]", name, x, short(g.key()), short(w.key()), gv, wv, witnessText(at), p.condText())
		return
	}
	if os.Getenv("SPAGOVERIF_DEBUG") != "" {
		fmt.Println("undecided", name, sub, g.key(), "|", w.key(), n.key(), p.condText(), p.F.rules, p.F.ges, p.F.pos)
	}
	r.add("unknown", prop, rule, sub, "-", "%s against %s not decided", short(g.key()), short(w.key()))
}

// alignRefs writes positions that are equal under the facts the same way.
func (p *Path) alignRefs(e, like *Expr) *Expr {
	pos := map[string][]*Poly{}
	like.each(func(a *eAtom) {
		if a.kind == "ref" && a.idx != nil {
			pos[a.name] = append(pos[a.name], a.idx)
		}
	})
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		if a.kind != "ref" || a.idx == nil {
			return nil, true
		}
		for _, q := range pos[a.name] {
			if pEq(q, a.idx) {
				break
			}
			if p.F.eqZero(pSub(q, a.idx)) == 1 {
				return eRef(a.name, q), false
			}
		}
		return eOf(a), false
	})
}

func runValues(P *Program, maxList int) *matSuite {
	S := &matSuite{}
	type job struct {
		u   *matUnit
		cfg matConfig
	}
	var jobs []job
	for _, u := range matUnits(P) {
		if valueTable[u.m] == nil {
			continue
		}
		S.units = append(S.units, u.name)
		for _, cfg := range u.configs(maxList) {
			jobs = append(jobs, job{u, cfg})
		}
	}
	S.results = parallel(len(jobs), func(i int) (r *opResult) {
		u, cfg := jobs[i].u, jobs[i].cfg
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("SPAGOVERIF_DEBUG") != "" {
					panic(e)
				}
				r = &opResult{unit: u.name, stages: map[string]int{"internal": 1}}
				r.facts = append(r.facts, opFact{"unknown", "*", "analysis", u.name, "-", fmt.Sprint(e)})
			}
		}()
		reset := func() { r = &opResult{unit: u.name, stages: map[string]int{}} }
		reset()
		I := NewInterp(P)
		I.terms, I.zeros = true, true
		n, complete := I.runMat(u, cfg, reset, func(mp *matRun) {
			p := mp.p
			p.stack = nil
			p.protect = true
			if mp.end != nil {
				if mp.end.kind == "unsupported" || mp.end.kind == "limit" {
					r.add("unknown", "*", "construct", u.m, mp.end.pos, "%s", mp.end.msg)
				}
				return
			}
			r.done++
			r.judgeValues(u, mp)
		})
		r.paths, r.complete = n, complete
		return r
	})
	return S
}

func init() {
	checks["C19"] = func(C *Context, r *Report) {
		n := 3
		if C.tier == "thorough" {
			n = 4
		}
		S := runValues(C.prog(loadOpts{instance: true}), n)
		proved := map[string]bool{}
		for _, x := range S.results {
			r.Count("matrix configurations analysed", 1)
			r.Count("abstract paths of matrix operations", x.paths)
			x.tell(r, "C19")
			for _, f := range x.facts {
				if f.prop == "C19" && f.kind == "ok" {
					proved[x.unit] = true
				}
			}
		}
		r.Count("matrix operations with a defined result", len(S.units))
		r.Require("matrix operations with proved elements", len(proved), 50)
	}
}
