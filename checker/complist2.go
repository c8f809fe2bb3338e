package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models.

func col(n *Poly) (*Poly, *Poly) { return n, pConst(1) }

// prod is the product of a matrix (rows×inner) and a vector.
func prodVec(w, x *Expr, rows, inner *Poly) *Expr {
	return matMul(w, x, rows, inner, pConst(1), pAtom(cur))
}

func init() {
	affine := func(b, w, x *Expr, rows, inner *Poly) *Expr {
		return eAdd(b, prodVec(w, x, rows, inner))
	}
	el := eEl
	// each is for models that treat their inputs one by one
	each := func(name string, f func(c *comp) (m Value, n *Poly, want func(x *Expr) compWant)) {
		ks := []int{0, 1, 2, 3, 5}
		if strings.HasSuffix(name, "/layernormsimple") || strings.HasSuffix(name, "/scalenorm") {
			ks = ks[1:] // not defined for no inputs
		}
		composedOver(name, ks, func(c *comp) []compWant {
			m, n, want := f(c)
			var l []compWant
			for _, x := range named("x", c.k) {
				l = append(l, want(x))
			}
			return c.all(c.forward(m, c.vecs("x", c.k, n)...), l)
		})
	}
	each("nn/linear", func(c *comp) (Value, *Poly, func(*Expr) compWant) {
		in, out := c.dim("in"), c.dim("out")
		m := c.create("nn/linear", "New", in, out)
		c.name(m)
		return m, in, func(x *Expr) compWant { return vecOf(out, affine(el("B"), el("W"), x, out, in)) }
	})
	composedOver("nn/embedding", []int{0, 1, 2, 3}, func(c *comp) []compWant {
		n := c.dim("n")
		m := c.create("nn/embedding", "New", pConst(4), n)
		c.name(m)
		idx := [][]int64{nil, {2}, {3, 0}, {1, 3, 1}}[c.k]
		xs := c.list(c.p.callNamed(m, "MustEncode", c.ints(idx...)))
		var want []compWant
		for _, i := range idx {
			want = append(want, vecOf(n, el(fmt.Sprintf("Weights[%d]", i))))
		}
		want = c.all(xs, want)
		sums := map[int64]*Expr{}
		for k, i := range idx {
			if k < len(xs) {
				g := fmt.Sprintf("g%d", k)
				c.p.callNamed(xs[k], "AccGrad", c.vec(g, n))
				if sums[i] == nil {
					sums[i] = eConst(0)
				}
				sums[i] = eAdd(sums[i], el(g))
			}
		}
		for k, i := range idx {
			if k < len(xs) {
				w := vecOf(n, sums[i])
				w.v, w.sub = c.p.callNamed(xs[k], "Grad"), "gradient"
				want = append(want, w)
			}
		}
		return want
	})
	composedOver("nn/recurrent/srn", []int{0, 1, 2, 3, 4}, func(c *comp) []compWant {
		in, out := c.dim("in"), c.dim("out")
		m := c.create("nn/recurrent/srn", "New", in, out)
		c.name(m)
		var want []compWant
		var h *Expr
		for _, x := range named("x", c.k) {
			e := affine(el("B"), el("W"), x, out, in)
			if h != nil {
				e = eAdd(e, prodVec(el("WRec"), h, out, out))
			}
			h = tanhOf(e)
			want = append(want, vecOf(out, h))
		}
		return c.all(c.forward(m, c.vecs("x", c.k, in)...), want)
	})
	for _, refined := range []bool{false, true} {
		refined := refined
		name := "nn/recurrent/lstm"
		if refined {
			name += " refined"
		}
		composedDeep(name, []int{0, 1, 2}, []int{3}, func(c *comp) []compWant {
			in, out := c.dim("in"), c.dim("out")
			if refined {
				in = out
			}
			m := c.create("nn/recurrent/lstm", "New", in, out)
			if refined {
				m = &Iface{T: m.(*Iface).T, V: c.p.callNamed(m, "WithRefinedGates", c.bool(true))}
			}
			c.name(m)
			gate := func(g string, x, h *Expr) *Expr {
				e := affine(el("B"+g), el("W"+g), x, out, in)
				if h != nil {
					e = eAdd(e, prodVec(el("W"+g+"Rec"), h, out, out))
				}
				return e
			}
			var want []compWant
			var h, cell *Expr
			for _, x := range named("x", c.k) {
				i, o, f := sigmoidOf(gate("In", x, h)), sigmoidOf(gate("Out", x, h)), sigmoidOf(gate("For", x, h))
				if refined {
					i, o = eMul(i, x), eMul(o, x)
				}
				n := eMul(i, tanhOf(gate("Cand", x, h)))
				if cell != nil {
					n = eAdd(n, eMul(f, cell))
				}
				cell = n
				h = eMul(o, tanhOf(cell))
				want = append(want, vecOf(out, h))
			}
			return c.all(c.forward(m, c.vecs("x", c.k, in)...), want)
		})
	}
	composedDeep("nn/recurrent/gru", []int{0, 1, 2}, []int{3}, func(c *comp) []compWant {
		in, out := c.dim("in"), c.dim("out")
		m := c.create("nn/recurrent/gru", "New", in, out)
		c.name(m)
		ys := c.forward(m, c.vecs("x", c.k, in)...)
		gate := func(g string, x, h *Expr) *Expr {
			e := affine(el("B"+g), el("W"+g), x, out, in)
			if h != nil {
				e = eAdd(e, prodVec(el("W"+g+"Rec"), h, out, out))
			}
			return e
		}
		step := func(x, h *Expr) *Expr {
			r, z := sigmoidOf(gate("Res", x, h)), sigmoidOf(gate("Part", x, h))
			if h == nil {
				return eMul(z, tanhOf(gate("Cand", x, nil)))
			}
			return eAdd(eMul(z, tanhOf(gate("Cand", x, eMul(r, h)))), eMul(eSub(eConst(1), z), h))
		}
		var h *Expr
		var want []compWant
		for _, x := range named("x", c.k) {
			h = step(x, h)
			want = append(want, vecOf(out, h))
		}
		return c.all(ys, want)
	})
	each("nn/highway", func(c *comp) (Value, *Poly, func(*Expr) compWant) {
		n := c.dim("n")
		m := c.create("nn/highway", "New", n, c.konst("nn/activation", "Tanh"))
		c.name(m)
		return m, n, func(x *Expr) compWant {
			t := sigmoidOf(affine(el("BT"), el("WT"), x, n, n))
			h := tanhOf(affine(el("BIn"), el("WIn"), x, n, n))
			return vecOf(n, eAdd(eMul(t, h), eMul(eSub(eConst(1), t), x)))
		}
	})
	// normalization: f is the result for one vector among some
	norm := func(name string, build func(c *comp, n *Poly) Value, f func(c *comp, x *Expr, n *Poly) *Expr) {
		each("nn/normalization/"+name, func(c *comp) (Value, *Poly, func(*Expr) compWant) {
			n := c.dim("n")
			m := build(c, n)
			c.name(m)
			return m, n, func(x *Expr) compWant { return vecOf(n, f(c, x, n)) }
		})
	}
	sized := func(name string, more ...Value) func(c *comp, n *Poly) Value {
		return func(c *comp, n *Poly) Value {
			return c.create("nn/normalization/"+name, "New", append([]Value{n}, more...)...)
		}
	}
	plain := func(name string) func(c *comp, n *Poly) Value {
		return func(c *comp, n *Poly) Value { return c.create("nn/normalization/"+name, "New") }
	}
	mean := func(x *Expr, n *Poly) *Expr { return eDiv(eSum(x, cur, n), eInt(n)) }
	sq := func(x *Expr) *Expr { return eMul(x, x) }
	dev := func(x *Expr, n *Poly) *Expr { return eSub(x, mean(x, n)) }
	std := func(x *Expr, n *Poly) *Expr { return eSqrt(mean(sq(dev(x, n)), n)) }
	small := eConst(1e-10)
	norm("layernorm", func(c *comp, n *Poly) Value {
		return c.create("nn/normalization/layernorm", "New", n, c.float("eps"))
	}, func(c *comp, x *Expr, n *Poly) *Expr {
		d := dev(x, n)
		return eAdd(eMul(eDiv(d, eSqrt(eAdd(mean(sq(d), n), eRef("Eps", pConst(0))))), el("W")), el("B"))
	})
	norm("layernormsimple", plain("layernormsimple"), func(c *comp, x *Expr, n *Poly) *Expr {
		return eDiv(dev(x, n), eAdd(std(x, n), small))
	})
	norm("rmsnorm", sized("rmsnorm"), func(c *comp, x *Expr, n *Poly) *Expr {
		return eAdd(eMul(eDiv(x, eAdd(eSqrt(mean(sq(x), n)), small)), el("W")), el("B"))
	})
	norm("scalenorm", sized("scalenorm"), func(c *comp, x *Expr, n *Poly) *Expr {
		return eMul(eDiv(x, eAdd(eSqrt(eSum(sq(x), cur, n)), small)), el("Gain"))
	})
	norm("fixnorm", plain("fixnorm"), func(c *comp, x *Expr, n *Poly) *Expr {
		return eDiv(x, eAdd(eSqrt(eSum(sq(x), cur, n)), small))
	})
	norm("adanorm", func(c *comp, n *Poly) Value {
		return c.create("nn/normalization/adanorm", "New", c.float("scale"))
	}, func(c *comp, x *Expr, n *Poly) *Expr {
		y := eDiv(dev(x, n), eAdd(std(x, n), small))
		return eMul(y, eMul(eRef("Scale", pConst(0)), eSub(eConst(1), eScale(y, 0.1))))
	})
	const bnEps = 1e-5
	norm("batchnorm", sized("batchnorm"), func(c *comp, x *Expr, n *Poly) *Expr {
		return eAdd(eMul(eSub(x, el("Mean")), eDiv(el("W"), eAdd(el("StdDev"), eConst(bnEps)))), el("B"))
	})
	composedOver("nn/normalization/batchnorm training", []int{1, 2, 3, 5}, func(c *comp) []compWant {
		n := c.dim("n")
		m := c.create("nn/normalization/batchnorm", "New", n)
		c.name(m)
		var xs []Value
		var es []*Expr
		mu := eConst(0)
		for i := 0; i < c.k; i++ {
			s := fmt.Sprintf("x%d", i)
			xs, es = append(xs, c.vec(s, n)), append(es, el(s))
			mu = eAdd(mu, el(s))
		}
		count := eConst(float64(c.k) + bnEps)
		mu = eDiv(mu, count)
		v := eConst(0)
		for _, e := range es {
			v = eAdd(v, sq(eSub(mu, e)))
		}
		sd := eSqrt(eDiv(v, count))
		ys := c.list(c.p.callNamed(m, "ForwardT", c.slice(xs...)))
		var want []compWant
		for _, e := range es {
			want = append(want, vecOf(n, eAdd(eMul(eSub(e, mu), eDiv(el("W"), eAdd(sd, eConst(bnEps)))), el("B"))))
		}
		want = c.all(ys, want)
		mom := eRef("Momentum", pConst(0))
		c.changed = map[string]*Expr{"Mean": mix(mom, el("Mean"), mu), "StdDev": mix(mom, el("StdDev"), sd)}
		return want
	})
	composed("nn/convolution/conv1x1", func(c *comp) []compWant {
		n := c.dim("n")
		m := c.create("nn/convolution/conv1x1", "New", c.config("nn/convolution/conv1x1", "Config", map[string]Value{"InputChannels": pConst(3), "OutputChannels": pConst(2)}))
		c.name(m)
		ys := c.forward(m, c.vec("x0", n), c.vec("x1", n), c.vec("x2", n))
		var want []compWant
		for o := int64(0); o < 2; o++ {
			e := eRef("B", pConst(o))
			for i := int64(0); i < 3; i++ {
				e = eAdd(e, eMul(eRef("W", pConst(o*3+i)), el(fmt.Sprintf("x%d", i))))
			}
			want = append(want, vecOf(n, e))
		}
		return c.all(ys, want)
	})
	each("nn/sqrdist", func(c *comp) (Value, *Poly, func(*Expr) compWant) {
		in, rank := c.dim("in"), c.dim("rank")
		m := c.create("nn/sqrdist", "New", in, rank)
		c.name(m)
		return m, in, func(x *Expr) compWant {
			b := prodVec(el("B"), x, rank, in)
			return compWant{r: pConst(1), c: pConst(1), pieces: []valPiece{{idx: pConst(0), want: eSum(sq(b), cur, rank)}}}
		}
	})
	composedOver("nn/flatten", []int{1, 2, 3}, func(c *comp) []compWant {
		m := c.create("nn/flatten", "New")
		var xs []Value
		var ps []valPiece
		off := pConst(0)
		for i := 0; i < c.k; i++ {
			s := fmt.Sprintf("x%d", i)
			r, w := c.dim(s+".rows"), c.dim(s+".cols")
			xs = append(xs, c.mat(s, r, w))
			n := pMul(r, w)
			ps = append(ps, run("of "+s, off, n, eRef(s, iota1)))
			off = pAdd(off, n)
		}
		return c.all(c.forward(m, xs...), []compWant{{r: off, c: pConst(1), pieces: ps}})
	})
	each("nn/dropout", func(c *comp) (Value, *Poly, func(*Expr) compWant) {
		n := c.dim("n")
		return c.create("nn/dropout", "New", zeroV()), n, func(x *Expr) compWant { return vecOf(n, x) }
	})
	for i, merge := range []string{"Concat", "Sum", "Prod", "Avg"} {
		merge := merge
		_ = i
		composed("nn/birnn "+merge, func(c *comp) []compWant {
			in, out := c.dim("in"), c.dim("out")
			pos := c.create("nn/recurrent/srn", "New", in, out)
			neg := c.create("nn/recurrent/srn", "New", in, out)
			m := c.create("nn/birnn", "New", pos, neg, c.konst("nn/birnn", merge))
			c.name(m)
			ys := c.forward(m, c.vec("x0", in), c.vec("x1", in), c.vec("x2", in))
			states := func(d string, xs ...string) (l []*Expr) {
				for i, x := range xs {
					e := affine(el(d+".B"), el(d+".W"), el(x), out, in)
					if i > 0 {
						e = eAdd(e, prodVec(el(d+".WRec"), l[i-1], out, out))
					}
					l = append(l, tanhOf(e))
				}
				return l
			}
			f, b := states("Positive", "x0", "x1", "x2"), states("Negative", "x2", "x1", "x0")
			var want []compWant
			for i := range f {
				x, y := f[i], b[2-i]
				switch merge {
				case "Sum":
					want = append(want, vecOf(out, eAdd(x, y)))
				case "Prod":
					want = append(want, vecOf(out, eMul(x, y)))
				case "Avg":
					want = append(want, vecOf(out, eScale(eAdd(x, y), 0.5)))
				default:
					want = append(want, compWant{r: pScale(out, 2), c: pConst(1), pieces: []valPiece{
						run("forward", pConst(0), out, x.at(cur, iota1)), run("backward", out, out, y.at(cur, iota1)),
					}})
				}
			}
			return c.all(ys, want)
		})
	}
	for _, merge := range []string{"Concat", "Sum", "Prod", "Avg"} {
		merge := merge
		// with any models as directions
		composedOver("nn/birnn of any "+merge, []int{1, 2, 3, 4, 5, 8}, func(c *comp) []compWant {
			in, out := c.dim("in"), c.dim("out")
			back := out
			if merge == "Concat" {
				back = c.dim("back")
			}
			m := c.create("nn/birnn", "New", c.create("nn/recurrent/srn", "New", in, out), c.create("nn/recurrent/srn", "New", in, back), c.konst("nn/birnn", merge))
			c.name(m)
			c.cut(map[string]*Poly{"Positive": out, "Negative": back})
			ys := c.forward(m, c.vecs("x", c.k, in)...)
			var fw, bw, want []compWant
			for i := 0; i < c.k; i++ {
				fw = append(fw, vecOf(in, eEl(fmt.Sprintf("x%d", i))))
				bw = append(bw, vecOf(in, eEl(fmt.Sprintf("x%d", c.k-1-i))))
				x, y := eEl(fmt.Sprintf("Positive!%d", i)), eEl(fmt.Sprintf("Negative!%d", c.k-1-i))
				switch merge {
				case "Sum":
					want = append(want, vecOf(out, eAdd(x, y)))
				case "Prod":
					want = append(want, vecOf(out, eMul(x, y)))
				case "Avg":
					want = append(want, vecOf(out, eScale(eAdd(x, y), 0.5)))
				default:
					want = append(want, compWant{r: pAdd(out, back), c: pConst(1), pieces: []valPiece{
						run("forward", pConst(0), out, x.at(cur, iota1)), run("backward", out, back, y.at(cur, iota1)),
					}})
				}
			}
			return append(append(c.given("Positive", fw), c.given("Negative", bw)...), c.all(ys, want)...)
		})
	}
	activations()
	attentions()
}

func vecOf(n *Poly, e *Expr) compWant { return compWant{r: n, c: pConst(1), pieces: whole(e)} }

func zeroV() Value {
	z := 0.0
	return &FloatV{c: &z, e: eConst(0)}
}

// konst is an integer constant of the library.
func (c *comp) konst(pkg, name string) Value {
	sp := c.p.I.P.ssaPkg(modPath + "/" + pkg)
	if sp != nil {
		if k, ok := sp.Members[name].(*ssa.NamedConst); ok {
			if v, exact := constant.Int64Val(constant.ToInt(k.Value.Value)); exact {
				return pConst(v)
			}
		}
	}
	c.p.unsupported("no constant %s.%s", pkg, name)
	return nil
}

// param wraps a matrix into a parameter.
func (c *comp) param(v Value) Value { return c.call("nn", "NewParam", v) }

func (c *comp) paramType() types.Type {
	return c.p.I.P.ssaPkg(nnPath).Func("NewParam").Signature.Results().At(0).Type()
}

func activations() {
	of := func(name string, params int, f func(c *comp, n *Poly) []valPiece) {
		composed("nn/activation "+name, func(c *comp) []compWant {
			r, w := c.dim("rows"), c.dim("cols")
			if strings.Contains(name, "Softmax") {
				w = pConst(1)
			}
			args := []Value{c.konst("nn/activation", name)}
			var ps []Value
			for i := 0; i < params; i++ {
				ps = append(ps, c.param(c.num(fmt.Sprintf("p%d", i))))
			}
			m := c.create("nn/activation", "New", append(args, c.sliceOf(c.paramType(), ps...))...)
			ys := c.forward(m, c.mat("x", r, w))
			return c.all(ys, []compWant{{r: r, c: w, pieces: f(c, pMul(r, w))}})
		})
	}
	for _, n := range []string{"Tan", "Tanh", "Sigmoid", "HardSigmoid", "HardTanh", "Softsign", "ReLU", "GELU", "Swish", "SiLU", "Mish", "Softmax", "CELU", "ELU", "SwishB", "LeakyReLU", "SELU", "SoftPlus", "SoftShrink", "Threshold"} {
		n := n
		params := map[string]int{"CELU": 1, "ELU": 1, "SwishB": 1, "LeakyReLU": 1, "SELU": 2, "SoftPlus": 2, "SoftShrink": 1, "Threshold": 2}[n]
		of(n, params, func(c *comp, k *Poly) []valPiece {
			return formulas["New"+n](&opArgs{p: c.p, o: []string{"x", "p0", "p1"}, n: k})
		})
	}
	x := eEl("x")
	of("Identity", 0, func(c *comp, n *Poly) []valPiece { return whole(x) })
	of("PositiveELU", 0, func(c *comp, n *Poly) []valPiece {
		return whole(eIte(x, eAdd(x, eConst(1)), eFn("exp", x)))
	})
	of("LogSoftmax", 0, func(c *comp, n *Poly) []valPiece {
		return whole(eSub(x, eFn("log", eSum(eFn("exp", x), cur, n))))
	})
}

// attend is scaled dot-product attention: the weights and result for a query,
// given the keys and values as terms of their own elements.
func attend(q *Expr, ks, vs []*Expr, dim *Poly, scale *Expr, visible int) (weights []*Expr, out *Expr) {
	total := eConst(0)
	for t, k := range ks {
		w := eConst(0)
		if t < visible {
			w = eFn("exp", eMul(scale, eSum(eMul(q, k), cur, dim)))
		}
		weights = append(weights, w)
		total = eAdd(total, w)
	}
	out = eConst(0)
	for t := range ks {
		weights[t] = eDiv(weights[t], total)
		out = eAdd(out, eMul(weights[t], vs[t]))
	}
	return
}

func named(s string, n int) (l []*Expr) {
	for i := 0; i < n; i++ {
		l = append(l, eEl(fmt.Sprintf("%s%d", s, i)))
	}
	return
}

func (c *comp) vecs(s string, k int, n *Poly) (l []Value) {
	for i := 0; i < k; i++ {
		l = append(l, c.vec(fmt.Sprintf("%s%d", s, i), n))
	}
	return
}

func weightsWant(w []*Expr) compWant {
	var ps []valPiece
	for i, x := range w {
		ps = append(ps, valPiece{idx: pConst(int64(i)), want: x, sub: "weights"})
	}
	return compWant{r: pConst(int64(len(w))), c: pConst(1), pieces: ps}
}

func attentions() {
	for _, causal := range []bool{false, true} {
		causal := causal
		name := "nn/attention"
		if causal {
			name += " causal"
		}
		composedOver(name, []int{1, 2, 3}, func(c *comp) []compWant {
			d, o := c.dim("dim"), c.dim("out")
			rs := c.call("nn/attention", "ScaledDotProductAttention", c.slice(c.vecs("q", c.k, d)...),
				c.call("ag", "Stack", c.slice(c.vecs("k", c.k, d)...)), c.call("ag", "Stack", c.slice(c.vecs("v", c.k, o)...)), c.num("scale"), c.bool(causal)).(Tuple)
			var want []compWant
			for i, q := range named("q", c.k) {
				visible := c.k
				if causal {
					visible = i + 1
				}
				_, y := attend(q, named("k", c.k), named("v", c.k), d, eRef("scale", pConst(0)), visible)
				want = append(want, vecOf(o, y))
			}
			for i, q := range named("q", c.k) {
				visible := c.k
				if causal {
					visible = i + 1
				}
				w, _ := attend(q, named("k", c.k), named("v", c.k), d, eRef("scale", pConst(0)), visible)
				want = append(want, weightsWant(w))
			}
			return c.all(append(c.list(rs[0]), c.list(rs[1])...), want)
		})
	}
}
