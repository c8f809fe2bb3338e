package main

import (
	"fmt"
	"go/types"
	"math"
)

// segment is the product of some columns of W with a vector.
func segment(w string, cols, off *Poly, x *Expr, n *Poly) *Expr {
	at := pAdd(pMul(pAtom(cur), cols), pAdd(off, pAtom(bound)))
	return sumOf(eMul(eRef(w, at), x.at(cur, pAtom(bound))), n)
}

func sentences() {
	// inputs, steps
	for _, steps := range []int64{2, 3} {
		steps := steps
		ks := []int{1, 2}
		if steps > 2 {
			ks = []int{2}
		}
		composedOver(fmt.Sprintf("nn/gnn/slstm %d steps", steps), ks, func(c *comp) []compWant {
			in, out := c.dim("in"), c.dim("out")
			if steps > 2 {
				in, out = pConst(1), pConst(1)
			}
			m := c.create("nn/gnn/slstm", "New", c.config("nn/gnn/slstm", "Config", map[string]Value{"InputSize": in, "OutputSize": out, "Steps": pConst(steps)}))
			c.name(m)
			el := eEl
			xs := named("x", c.k)
			prod := func(w string, x *Expr, n *Poly) *Expr { return prodVec(el(w), x, out, n) }
			var h, cell []*Expr
			for range xs {
				h, cell = append(h, el("InitValue")), append(cell, el("InitValue"))
			}
			g := el("InitValue")
			for t := int64(1); t < steps; t++ {
				var nh, nc []*Expr
				for i, x := range xs {
					lh, lc, rh, rc := el("StartH"), el("StartH"), el("EndH"), el("EndH")
					if i > 0 {
						lh, lc = h[i-1], cell[i-1]
					}
					if i+1 < len(xs) {
						rh, rc = h[i+1], cell[i+1]
					}
					gate := func(s string) *Expr {
						e := eAdd(el(s+".B"), eAdd(prod(s+".V", g, out), prod(s+".U", x, in)))
						for j, y := range []*Expr{lh, h[i], rh} {
							e = eAdd(e, segment(s+".W", pScale(out, 3), pScale(out, int64(j)), y, out))
						}
						return e
					}
					sg := func(s string) *Expr { return sigmoidOf(gate(s)) }
					q := eAdd(eMul(sg("LeftCellGate"), lc), eMul(sg("CellGate"), cell[i]))
					q = eAdd(q, eMul(sg("RightCellGate"), rc))
					q = eAdd(q, eMul(sg("SentCellGate"), g))
					q = eAdd(q, eMul(sg("InputGate"), tanhOf(gate("InputActivation"))))
					nc = append(nc, q)
					nh = append(nh, eMul(sg("OutputGate"), tanhOf(q)))
				}
				avg := eConst(0)
				for _, x := range h {
					avg = eAdd(avg, x)
				}
				avg = eScale(avg, 1/float64(len(h)))
				two := func(s string, y *Expr) *Expr {
					return sigmoidOf(eAdd(el(s+".B"), eAdd(prod(s+".W", g, out), prod(s+".U", y, out))))
				}
				cg := eMul(two("NonLocalSentCellGate", avg), g)
				for i := range h {
					cg = eAdd(cg, eMul(two("NonLocalInputGate", h[i]), cell[i]))
				}
				g = eMul(two("NonLocalSentOutputGate", avg), tanhOf(cg))
				h, cell = nh, nc
			}
			var want []compWant
			for _, e := range h {
				want = append(want, vecOf(out, e))
			}
			return c.all(c.forward(m, c.vecs("x", c.k, in)...), want)
		})
	}
	composedOver("nn/crf", []int{1, 2, 3}, func(c *comp) []compWant {
		const size = 2
		m := c.create("nn/crf", "New", pConst(size))
		c.name(m)
		var want []compWant
		at := func(i, j int) *Expr { return eRef("TransitionScores", pConst(int64(i*(size+1)+j))) }
		em := func(t, i int) *Expr { return eRef(fmt.Sprintf("x%d", t), pConst(int64(i))) }
		xs := c.vecs("x", c.k, pConst(size))
		// all label sequences
		var seqs [][]int
		for b := 0; b < 1<<c.k; b++ {
			var s []int
			for t := 0; t < c.k; t++ {
				s = append(s, b>>t&1)
			}
			seqs = append(seqs, s)
		}
		score := func(s []int) *Expr {
			e := eAdd(at(0, s[0]+1), em(0, s[0]))
			for t := 1; t < len(s); t++ {
				e = eAdd(e, eAdd(at(s[t-1]+1, s[t]+1), em(t, s[t])))
			}
			return eAdd(e, at(s[len(s)-1]+1, 0))
		}
		total := eConst(0)
		for _, s := range seqs {
			total = eAdd(total, eFn("exp", score(s)))
		}
		for _, s := range seqs {
			var ls []Value
			for _, l := range s {
				ls = append(ls, pConst(int64(l)))
			}
			w := scalarWant(c.p.callNamed(m, "NegativeLogLoss", c.slice(xs...), c.sliceOf(types.Typ[types.Int], ls...)), eSub(eFn("log", total), score(s)))
			w.sub = fmt.Sprint("labels ", s)
			want = append(want, w)
		}
		return want
	})
	// the labels decoded are the best: none have a higher score. Two digits,
	// labels and steps.
	composedDeep("nn/crf.Decode", []int{21, 22, 23, 31, 32}, []int{24}, func(c *comp) []compWant {
		size, steps := int64(c.k/10), c.k%10
		m := c.create("nn/crf", "New", pConst(size))
		c.name(m)
		at := func(i, j int64) *Expr { return eRef("TransitionScores", pConst(i*(size+1)+j)) }
		em := func(t int, i int64) *Expr { return eRef(fmt.Sprintf("x%d", t), pConst(i)) }
		ys := c.list(c.p.callNamed(m, "Decode", c.slice(c.vecs("x", steps, pConst(size))...)))
		c.p.consistent()
		if len(ys) != steps {
			return c.wrong("%d labels for %d inputs", len(ys), steps)
		}
		score := func(l []int64) *Expr {
			e := eAdd(at(0, l[0]+1), em(0, l[0]))
			for t := 1; t < len(l); t++ {
				e = eAdd(e, eAdd(at(l[t-1]+1, l[t]+1), em(t, l[t])))
			}
			return eAdd(e, at(l[len(l)-1]+1, 0))
		}
		best := make([]int64, steps)
		for t, y := range ys {
			q, ok := y.(*Poly)
			if !ok {
				c.p.unsupported("a label that is not known")
			}
			n, ok := c.p.F.norm(q).isConst()
			if !ok {
				c.p.unsupported("a label that is not known: %s", q.key())
			}
			if n < 0 || n >= size {
				return c.wrong("label %d of %d", n, size)
			}
			best[t] = n
		}
		var want []compWant
		l := make([]int64, steps)
		var each func(t int)
		each = func(t int) {
			if t < steps {
				for l[t] = 0; l[t] < size; l[t]++ {
					each(t + 1)
				}
				return
			}
			if fmt.Sprint(l) == fmt.Sprint(best) {
				return
			}
			// 0 where the labels are better than those decoded
			w := scalarWant(c.number("best", eIte(eSub(score(l), score(best)), eConst(0), eConst(1))), eConst(1))
			w.sub = "best labels"
			want = append(want, w)
		}
		each(0)
		return append(want, scalarWant(c.number("done", eConst(1)), eConst(1)))
	})
}

// field is what a part of a model holds, by its path.
func (c *comp) field(m Value, names ...string) Value {
	v := m
	for _, n := range names {
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		if s, ok := v.(Slice); ok {
			var j int64
			fmt.Sscan(n, &j)
			v = c.p.loadElem(s, pConst(j))
			continue
		}
		l, ok := v.(*Loc)
		if !ok {
			c.p.unsupported("%s of a %T", n, v)
		}
		st, ok := l.T.Underlying().(*types.Struct)
		k := -1
		for i := 0; ok && i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				k = i
			}
		}
		if k < 0 {
			c.p.unsupported("no field %s", n)
		}
		v = c.p.loadPtr(c.p.kid(l, k))
		if l, ok := v.(*Loc); ok {
			v = &Iface{T: types.NewPointer(l.T), V: l}
		}
	}
	return v
}

// constants that a model is built with
func built() {
	a := eSc("a")
	composed("nn/normalization/layernorm as built", func(c *comp) []compWant {
		m := c.create("nn/normalization/layernorm", "New", c.dim("n"), c.float("a"))
		return []compWant{scalarWant(c.field(m, "Eps"), a)}
	})
	composed("nn/normalization/adanorm as built", func(c *comp) []compWant {
		m := c.create("nn/normalization/adanorm", "New", c.float("a"))
		return []compWant{scalarWant(c.field(m, "Scale"), a)}
	})
	composed("nn/normalization/batchnorm as built", func(c *comp) []compWant {
		n := c.dim("n")
		m := c.create("nn/normalization/batchnorm", "NewWithMomentum", n, c.float("a"))
		return []compWant{scalarWant(c.field(m, "Momentum"), a), vecOf(n, eConst(0)).of(c.field(m, "Mean")), vecOf(n, eConst(0)).of(c.field(m, "StdDev")),
			scalarWant(c.field(c.create("nn/normalization/batchnorm", "New", n), "Momentum"), eConst(0.9))}
	})
	composed("nn/attention/selfattention as built", func(c *comp) []compWant {
		in, q, v := c.dim("in"), c.dim("key"), c.dim("value")
		m := c.create("nn/attention/selfattention", "New", c.config("nn/attention/selfattention", "Config", map[string]Value{"InputSize": in, "QuerySize": q, "KeySize": q, "ValueSize": v, "ScaleFactor": c.float("a")}))
		return []compWant{scalarWant(c.field(m, "ScaleFactor"), a)}
	})
	composedOver("nn/attention/multiheadattention as built", []int{1, 2, 3}, func(c *comp) []compWant {
		size := int64(6)
		m := c.create("nn/attention/multiheadattention", "New", pConst(size), pConst(int64(c.k)), c.bool(false), c.bool(false))
		var want []compWant
		for i := 0; i < c.k; i++ {
			want = append(want, scalarWant(c.field(m, "Heads", fmt.Sprint(i), "ScaleFactor"), eConst(1/math.Sqrt(float64(size/int64(c.k))))))
		}
		return want
	})
}

func (w compWant) of(v Value) compWant {
	w.v = v
	return w
}

func init() {
	sentences()
	built()
}
