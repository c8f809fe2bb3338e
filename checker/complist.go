package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Losses and composed operators.

func init() {
	k := eConst
	loss := func(name string, f func(x, y *Expr) *Expr) {
		composedOver("losses."+name, []int{0, 1}, func(c *comp) []compWant {
			n, m := c.dim("rows"), c.dim("cols")
			v := c.call("losses", name, c.mat("x", n, m), c.mat("y", n, m), c.bool(c.k == 1))
			e := eSum(f(eEl("x"), eEl("y")), cur, pMul(n, m))
			if c.k == 1 {
				e = eDiv(e, eInt(pMul(n, m)))
			}
			return []compWant{scalarWant(v, e)}
		})
	}
	sq := func(x *Expr) *Expr { return eMul(x, x) }
	loss("MAE", func(x, y *Expr) *Expr { return fnTerm("Abs", eSub(x, y)) })
	loss("MSE", func(x, y *Expr) *Expr { return eScale(sq(eSub(x, y)), 0.5) })
	composed("losses.NLL", func(c *comp) []compWant {
		n := c.dim("n")
		v := c.call("losses", "NLL", c.vec("x", n), c.vec("y", n))
		return []compWant{scalarWant(v, eScale(eSum(eMul(eEl("y"), eFn("log", eEl("x"))), cur, n), -1))}
	})
	index := func(c *comp, n *Poly) *Poly {
		i := pAtom("c")
		c.p.F.addGE(i)
		c.p.F.addGE(below(i, n))
		return i
	}
	ce := func(i, n *Poly) *Expr {
		return eSub(eFn("log", eSum(eFn("exp", eEl("x")), cur, n)), eRef("x", i))
	}
	composed("losses.CrossEntropy", func(c *comp) []compWant {
		n := c.dim("n")
		i := index(c, n)
		v := c.call("losses", "CrossEntropy", c.vec("x", n), i)
		return []compWant{scalarWant(v, ce(i, n))}
	})
	composed("losses.Perplexity", func(c *comp) []compWant {
		n := c.dim("n")
		i := index(c, n)
		v := c.call("losses", "Perplexity", c.vec("x", n), i)
		return []compWant{scalarWant(v, eFn("exp", ce(i, n)))}
	})
	focal := func(i, n *Poly) *Expr {
		x := ce(i, n)
		return eMul(ePowE(eSub(k(1), eFn("exp", eScale(x, -1))), eSc("gamma")), x)
	}
	composed("losses.FocalLoss", func(c *comp) []compWant {
		n := c.dim("n")
		i := index(c, n)
		v := c.call("losses", "FocalLoss", c.vec("x", n), i, c.float("gamma"))
		return []compWant{scalarWant(v, focal(i, n))}
	})
	composed("losses.WeightedCrossEntropy", func(c *comp) []compWant {
		n := c.dim("n")
		i := index(c, n)
		f := c.call("losses", "WeightedCrossEntropy", c.vec("w", n))
		v := c.apply(f, c.vec("x", n), i)
		return []compWant{scalarWant(v, eMul(eRef("w", i), ce(i, n)))}
	})
	composed("losses.WeightedFocalLoss", func(c *comp) []compWant {
		n := c.dim("n")
		i := index(c, n)
		f := c.call("losses", "WeightedFocalLoss", c.vec("w", n))
		v := c.apply(f, c.vec("x", n), i, c.float("gamma"))
		return []compWant{scalarWant(v, eMul(eRef("w", i), focal(i, n)))}
	})
	x := eEl("x")
	zeroOne := func(n *Poly) *Expr { return eSum(eMul(sq(x), sq(eSub(k(1), x))), cur, n) }
	norm2 := func(n *Poly) *Expr { return sq(eSub(eSum(sq(x), cur, n), k(1))) }
	quant := func(name string, f func(n *Poly) *Expr, args ...string) {
		composed("losses."+name, func(c *comp) []compWant {
			n, m := c.dim("rows"), c.dim("cols")
			l := []Value{c.mat("x", n, m)}
			for _, a := range args {
				l = append(l, c.float(a))
			}
			return []compWant{scalarWant(c.call("losses", name, l...), f(pMul(n, m)))}
		})
	}
	quant("ZeroOneQuantization", zeroOne)
	quant("Norm2Quantization", norm2)
	quant("OneHotQuantization", func(n *Poly) *Expr { return eMul(eAdd(zeroOne(n), norm2(n)), eSc("q")) }, "q")
	composed("losses.Distance", func(c *comp) []compWant {
		v := c.call("losses", "Distance", c.num("x"), c.float("target"))
		return []compWant{scalarWant(v, eFn("abs", eSub(eSc("target"), eRef("x", pConst(0)))))}
	})
	agComposites()
}

// wrappers are the functions that make a node of one differentiable function.
func wrappers() {
	other := map[string]string{"Transpose": "T", "ReverseSubScalar": "ReverseSub"}
	var names []string
	for n := range formulas {
		names = append(names, strings.TrimPrefix(n, "New"))
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		fn := other[n]
		if fn == "" {
			fn = n
		}
		ks := []int{0}
		switch n {
		case "Concat", "Stack", "ScalarMax":
			ks = []int{1, 2, 3}
		case "AppendRows", "At":
			ks = []int{1, 2}
		case "Affine":
			ks = []int{0, 2, 4}
		}
		composedOver("ag."+fn, ks, func(c *comp) []compWant {
			sp := c.p.I.P.ssaPkg(modPath + "/ag")
			f := sp.Func(fn)
			if f == nil {
				c.p.unsupported("no function ag.%s", fn)
			}
			a := &opArgs{p: c.p}
			args := c.argsOf(f.Signature, a)
			v := c.value(c.p.call(f, args, nil))
			d, ok := c.p.dimsOf(v)
			if !ok {
				c.p.unsupported("shape of the result")
			}
			a.n = c.p.F.norm(pMul(d[0], d[1]))
			return []compWant{{v: v, pieces: formulas["New"+n](a)}}
		})
	}
}

// argsOf makes arguments of a signature and records them for a formula.
func (c *comp) argsOf(sig *types.Signature, a *opArgs) (args []Value) {
	for i := 0; i < sig.Params().Len(); i++ {
		pv := sig.Params().At(i)
		switch t := pv.Type(); {
		case isTensorT(t):
			n := pv.Name()
			args = append(args, c.mat(n, c.dim(n+".rows"), c.dim(n+".cols")))
			a.o = append(a.o, n)
		case isFloatT(t):
			args = append(args, c.float(pv.Name()))
			a.f = append(a.f, pv.Name())
		case isIntT(t):
			args = append(args, pAtom(pv.Name()))
			a.i = append(a.i, pAtom(pv.Name()))
		case isSliceOf(t, isTensorT):
			var l []Value
			for j := 0; j < c.k; j++ {
				n := fmt.Sprintf("%s[%d]", pv.Name(), j)
				l = append(l, c.mat(n, c.dim(n+".rows"), c.dim(n+".cols")))
				a.l = append(a.l, n)
			}
			args = append(args, c.slice(l...))
		case isSliceOf(t, isIntT):
			var l []Value
			for j := 0; j < c.k; j++ {
				q := pAtom(fmt.Sprintf("%s[%d]", pv.Name(), j))
				l = append(l, q)
				a.il = append(a.il, q)
			}
			args = append(args, c.sliceOf(types.Typ[types.Int], l...))
		default:
			c.p.unsupported("parameter %s", pv)
		}
	}
	return args
}

func agComposites() {
	k := eConst
	x := eEl("x")
	same := func(c *comp, names ...string) (l []Value, n, m *Poly) {
		n, m = c.dim("rows"), c.dim("cols")
		for _, s := range names {
			l = append(l, c.mat(s, n, m))
		}
		return
	}
	series := func(name string, variadic bool, f func(es []*Expr) *Expr) {
		ks := []int{1, 2, 3, 4, 5, 9, 17}
		if strings.HasPrefix(name, "M") && name != "Mean" {
			ks = ks[:4]
		}
		composedOver("ag."+name, ks, func(c *comp) []compWant {
			var names []string
			var es []*Expr
			for i := 0; i < c.k; i++ {
				s := fmt.Sprintf("xs[%d]", i)
				names = append(names, s)
				es = append(es, eEl(s))
			}
			l, n, m := same(c, names...)
			return []compWant{wholeWant(c.call("ag", name, c.slice(l...)), n, m, f(es))}
		})
	}
	sum := func(es []*Expr) *Expr {
		r := es[0]
		for _, e := range es[1:] {
			r = eAdd(r, e)
		}
		return r
	}
	best := func(max bool) func(es []*Expr) *Expr {
		return func(es []*Expr) *Expr {
			r := es[0]
			for _, e := range es[1:] {
				r = minMaxTerm(max, r, e)
			}
			return r
		}
	}
	series("Sum", true, sum)
	series("Mean", false, func(es []*Expr) *Expr { return eScale(sum(es), 1/float64(len(es))) })
	series("Maximum", false, best(true))
	series("Minimum", false, best(false))
	composed("ag.Add of nil", func(c *comp) []compWant {
		l, n, m := same(c, "x")
		return []compWant{wholeWant(c.call("ag", "Add", NilV{}, l[0]), n, m, x)}
	})
	composed("ag.ReverseSubOne", func(c *comp) []compWant {
		l, n, m := same(c, "x")
		return []compWant{wholeWant(c.call("ag", "ReverseSubOne", l...), n, m, eSub(k(1), x))}
	})
	composed("ag.PositiveELU", func(c *comp) []compWant {
		l, n, m := same(c, "x")
		e := eIte(x, eAdd(x, k(1)), eFn("exp", x))
		return []compWant{wholeWant(c.call("ag", "PositiveELU", l...), n, m, e)}
	})
	composed("ag.LogSoftmax", func(c *comp) []compWant {
		n := c.dim("n")
		e := eSub(x, eFn("log", eSum(eFn("exp", x), cur, n)))
		return []compWant{wholeWant(c.call("ag", "LogSoftmax", c.vec("x", n)), n, pConst(1), e)}
	})
	composedOver("ag.LogSumExp", []int{1, 2, 3, 4, 5}, func(c *comp) []compWant {
		if c.k == 1 {
			n := c.dim("n")
			return []compWant{scalarWant(c.call("ag", "LogSumExp", c.slice(c.vec("x", n))), eFn("log", eSum(eFn("exp", x), cur, n)))}
		}
		var l []Value
		e := k(0)
		for i := 0; i < c.k; i++ {
			s := fmt.Sprintf("xs[%d]", i)
			l = append(l, c.num(s))
			e = eAdd(e, eFn("exp", eRef(s, pConst(0))))
		}
		return []compWant{scalarWant(c.call("ag", "LogSumExp", c.slice(l...)), eFn("log", e))}
	})
	bilinear := func(n, m *Poly) *Expr {
		return eSum(eMul(eEl("x2"), matMul(eEl("x1"), eEl("w"), pConst(1), n, m, pAtom(cur))), cur, m)
	}
	composed("ag.BiLinear", func(c *comp) []compWant {
		n, m := c.dim("n"), c.dim("m")
		v := c.call("ag", "BiLinear", c.mat("w", n, m), c.vec("x1", n), c.vec("x2", m))
		return []compWant{scalarWant(v, bilinear(n, m))}
	})
	composed("ag.BiAffine", func(c *comp) []compWant {
		n, m := c.dim("n"), c.dim("m")
		v := c.call("ag", "BiAffine", c.mat("w", n, m), c.vec("u", n), c.vec("v", m), c.num("b"), c.vec("x1", n), c.vec("x2", m))
		e := eAdd(bilinear(n, m), eAdd(eSum(eMul(eEl("u"), eEl("x1")), cur, n), eSum(eMul(eEl("v"), eEl("x2")), cur, m)))
		return []compWant{scalarWant(v, eAdd(e, eRef("b", pConst(0))))}
	})
	numbered := func(pre string, n int) (l []string) {
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%s[%d]", pre, i))
		}
		return l
	}
	composedOver("ag.Map", []int{0, 1, 2, 3, 7}, func(c *comp) []compWant {
		l, n, m := same(c, numbered("x", c.k)...)
		ys := c.list(c.call("ag", "Map", c.fn("ag", "Exp"), c.slice(l...)))
		var want []compWant
		for _, s := range numbered("x", c.k) {
			want = append(want, compWant{r: n, c: m, pieces: whole(eFn("exp", eEl(s)))})
		}
		return c.all(ys, want)
	})
	composedOver("ag.Map2", []int{0, 1, 2, 3, 7}, func(c *comp) []compWant {
		a, n, m := same(c, numbered("a", c.k)...)
		b, _, _ := same(c, numbered("b", c.k)...)
		ys := c.list(c.call("ag", "Map2", c.fn("ag", "Sub"), c.slice(a...), c.slice(b...)))
		var want []compWant
		for i, s := range numbered("a", c.k) {
			want = append(want, compWant{r: n, c: m, pieces: whole(eSub(eEl(s), eEl(fmt.Sprintf("b[%d]", i))))})
		}
		return c.all(ys, want)
	})
	// 10·given + size of the result
	composedOver("ag.Pad", []int{2, 11, 12, 13, 21, 22, 23, 24, 33, 36, 42}, func(c *comp) []compWant {
		have, size := c.k/10, c.k%10
		names := numbered("x", have)
		l, n, m := same(c, append(names, "pad")...)
		pad := c.call("ag", "spagoverifPad", l[have])
		ys := c.list(c.call("ag", "Pad", c.slice(l[:have]...), pConst(int64(size)), pad))
		var want []compWant
		for i := 0; i < size; i++ {
			e := eAdd(eEl("pad"), k(float64(i)))
			if i < have {
				e = eEl(names[i])
			}
			want = append(want, compWant{r: n, c: m, pieces: whole(e)})
		}
		return c.all(ys, want)
	})
	el := func(name string, i int64) compWant {
		return compWant{r: pConst(1), c: pConst(1), pieces: []valPiece{{idx: pConst(0), want: eRef(name, pConst(i))}}}
	}
	elems := func(name string, from, n int) (l []compWant) {
		for i := from; i < from+n; i++ {
			l = append(l, el(name, int64(i)))
		}
		return l
	}
	composedOver("ag.SeparateMatrix", []int{11, 12, 21, 23, 32, 41, 33}, func(c *comp) []compWant {
		n, m := c.k/10, c.k%10
		rows := c.list(c.call("ag", "SeparateMatrix", c.mat("x", pConst(int64(n)), pConst(int64(m)))))
		if len(rows) != n {
			return c.wrong("%d rows where %d belong", len(rows), n)
		}
		var l []compWant
		for i, r := range rows {
			l = append(l, c.all(c.list(r), elems("x", m*i, m))...)
		}
		return l
	})
	composedOver("ag.SeparateVec", []int{1, 2, 3, 8}, func(c *comp) []compWant {
		return c.all(c.list(c.call("ag", "SeparateVec", c.vec("x", pConst(int64(c.k))))), elems("x", 0, c.k))
	})
	composedOver("ag.SplitVec", []int{1, 2, 3, 4, 6, 12}, func(c *comp) []compWant {
		n := int64(12)
		ys := c.list(c.call("ag", "SplitVec", c.vec("x", pConst(n)), pConst(int64(c.k))))
		w := n / int64(c.k)
		var want []compWant
		for i := int64(0); i < int64(c.k); i++ {
			want = append(want, compWant{r: pConst(w), c: pConst(1), pieces: whole(eRef("x", pAdd(pConst(i*w), pAtom(cur))))})
		}
		return c.all(ys, want)
	})
	composedOver("ag.RowViews", []int{1, 2, 3, 7}, func(c *comp) []compWant {
		m := c.dim("cols")
		var want []compWant
		for i := int64(0); i < int64(c.k); i++ {
			want = append(want, compWant{r: pConst(1), c: m, pieces: whole(eRef("x", pAdd(pScale(m, i), pAtom(cur))))})
		}
		return c.all(c.list(c.call("ag", "RowViews", c.mat("x", pConst(int64(c.k)), m))), want)
	})
	composedOver("ag.ColViews", []int{1, 2, 3, 7}, func(c *comp) []compWant {
		n := c.dim("rows")
		var want []compWant
		for i := int64(0); i < int64(c.k); i++ {
			want = append(want, compWant{pieces: whole(eRef("x", pAdd(pConst(i), pScale(pAtom(cur), int64(c.k)))))})
		}
		return c.all(c.list(c.call("ag", "ColViews", c.mat("x", n, pConst(int64(c.k))))), want)
	})
	composed("ag.StopGrad", func(c *comp) []compWant {
		l, n, m := same(c, "x")
		return []compWant{wholeWant(c.call("ag", "StopGrad", l...), n, m, x)}
	})
	for _, f := range []string{"Dropout", "DropoutFunc"} {
		f := f
		composed("ag."+f+" of nothing", func(c *comp) []compWant {
			l, n, m := same(c, "x")
			zero := 0.0
			z := &FloatV{c: &zero, e: k(0)}
			var v Value
			if f == "Dropout" {
				v = c.call("ag", f, l[0], z)
			} else {
				v = c.apply(c.call("ag", f, z), l[0])
			}
			return []compWant{wholeWant(v, n, m, x)}
		})
	}
	for _, s := range []string{"MSE", "MAE"} {
		s := s
		composedOver("losses."+s+"Seq", []int{2, 4, 3, 5, 6, 7, 11, 18}, func(c *comp) []compWant {
			var names []string
			e := k(0)
			n, m := c.dim("rows"), c.dim("cols")
			for i := 0; i < c.k/2; i++ {
				a, b := fmt.Sprintf("p[%d]", i), fmt.Sprintf("t[%d]", i)
				names = append(names, a, b)
				d := eSub(eEl(a), eEl(b))
				if s == "MSE" {
					e = eAdd(e, eScale(eMul(d, d), 0.5))
				} else {
					e = eAdd(e, eFn("abs", d))
				}
			}
			l, _, _ := same(c, names...)
			var p, t []Value
			for i := 0; i < len(l); i += 2 {
				p, t = append(p, l[i]), append(t, l[i+1])
			}
			e = eSum(e, cur, pMul(n, m))
			if c.k%2 == 1 {
				e = eScale(e, 1/float64(len(p)))
			}
			return []compWant{scalarWant(c.call("losses", s+"Seq", c.slice(p...), c.slice(t...), c.bool(c.k%2 == 1)), e)}
		})
	}
	composedOver("losses.CrossEntropySeq", []int{2, 4, 3, 5, 6, 7, 11}, func(c *comp) []compWant {
		n := c.dim("n")
		e := k(0)
		var p, t []Value
		for i := 0; i < c.k/2; i++ {
			a, b := fmt.Sprintf("p[%d]", i), pAtom(fmt.Sprintf("c%d", i))
			c.p.F.addGE(b)
			c.p.F.addGE(below(b, n))
			p, t = append(p, c.vec(a, n)), append(t, b)
			e = eAdd(e, eSub(eFn("log", eSum(eFn("exp", eEl(a)), cur, n)), eRef(a, b)))
		}
		if c.k%2 == 1 {
			e = eScale(e, 1/float64(len(p)))
		}
		return []compWant{scalarWant(c.call("losses", "CrossEntropySeq", c.slice(p...), c.sliceOf(types.Typ[types.Int], t...), c.bool(c.k%2 == 1)), e)}
	})
	composedOver("losses.SPG", []int{1, 2, 3, 6}, func(c *comp) []compWant {
		var p, t []Value
		e := k(0)
		for i := 0; i < c.k; i++ {
			a, b := fmt.Sprintf("p[%d]", i), fmt.Sprintf("t[%d]", i)
			p, t = append(p, c.num(a)), append(t, c.num(b))
			e = eSub(e, eMul(eRef(a, pConst(0)), eRef(b, pConst(0))))
		}
		return []compWant{scalarWant(c.call("losses", "SPG", c.slice(p...), c.slice(t...)), e)}
	})
}
