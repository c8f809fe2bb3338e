package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Models made of others.

func lin(b, w *Expr, x *Expr, rows, inner *Poly) *Expr { return eAdd(b, prodVec(w, x, rows, inner)) }

func selfAttentions() {
	for _, kind := range []string{"", " causal", " cached", " cross", " causal cached"} {
		kind := kind
		ks := []int{1, 2, 3}
		if strings.HasSuffix(kind, " cached") {
			ks = []int{1, 2}
		}
		composedOver("nn/attention/selfattention"+kind, ks, func(c *comp) []compWant {
			in, d, o := c.dim("in"), c.dim("dim"), c.dim("out")
			m := c.create("nn/attention/selfattention", "New", c.config("nn/attention/selfattention", "Config", map[string]Value{
				"InputSize": in, "QuerySize": d, "KeySize": d, "ValueSize": o, "ScaleFactor": c.float("s"), "UseCausalMask": c.bool(strings.HasPrefix(kind, " causal")), "IsCrossAttention": c.bool(kind == " cross"),
			}))
			c.name(m)
			past := 0
			cache := c.none("nn/attention/selfattention", "Cache")
			if strings.HasSuffix(kind, " cached") || kind == " cross" {
				past = 2
				cache = c.array("nn/attention/selfattention", "Cache", c.call("ag", "Stack", c.slice(c.vecs("pk", past, d)...)), c.call("ag", "Stack", c.slice(c.vecs("pv", past, o)...)))
			}
			rs := c.p.callNamed(m, "Forward", cache, c.slice(c.vecs("q", c.k, in)...), c.slice(c.vecs("x", c.k, in)...)).(Tuple)
			ks, vs := named("pk", past), named("pv", past)
			if kind != " cross" {
				for _, x := range named("x", c.k) {
					ks = append(ks, lin(eEl("Key.B"), eEl("Key.W"), x, d, in))
					vs = append(vs, lin(eEl("Value.B"), eEl("Value.W"), x, o, in))
				}
			}
			var want, ws []compWant
			for i, q := range named("q", c.k) {
				visible := len(ks)
				if strings.HasPrefix(kind, " causal") {
					visible = past + i + 1
				}
				w, y := attend(lin(eEl("Query.B"), eEl("Query.W"), q, d, in), ks, vs, d, eRef("ScaleFactor", pConst(0)), visible)
				want, ws = append(want, vecOf(o, y)), append(ws, weightsWant(w))
			}
			// the next cache
			for j, l := range [][]*Expr{ks, vs} {
				w, name := d, "next keys"
				if j == 1 {
					w, name = o, "next values"
				}
				cw := compWant{r: pConst(int64(len(l))), c: w, sub: name}
				for t, e := range l {
					cw.pieces = append(cw.pieces, run("", pScale(w, int64(t)), w, e.at(cur, iota1)))
				}
				ws = append(ws, cw)
			}
			return c.all(append(append(c.list(rs[0]), c.list(rs[1])...), c.items(rs[2])...), append(want, ws...))
		})
	}
}

// multiHeads has two or three heads of two elements or more.
func multiHeads() {
	const pkg = "nn/attention/multiheadattention"
	for _, kind := range []string{"", " causal", " cached", " cross"} {
		kind := kind
		ks := []int{1, 2, 3}
		if kind == " cached" || kind == " cross" {
			ks = []int{1, 2}
		}
		composedOver(pkg+kind, ks, func(c *comp) []compWant {
			heads, k := 2, c.k
			if k == 3 {
				heads, k = 3, 1
			}
			d := c.dim("dim")
			c.p.F.addGE(pSub(d, pConst(2)))
			n := pScale(d, int64(heads))
			m := c.create(pkg, "New", n, pConst(int64(heads)), c.bool(kind == " causal"), c.bool(kind == " cross"))
			c.name(m)
			past := 0
			cache := c.none(pkg, "Cache")
			if kind == " cached" || kind == " cross" {
				past = 1
				if kind == " cross" {
					past = c.k
				}
				var l []Value
				for h := 0; h < heads; h++ {
					l = append(l, c.array("nn/attention/selfattention", "Cache",
						c.call("ag", "Stack", c.slice(c.vecs(fmt.Sprintf("pk%d.", h), past, d)...)), c.call("ag", "Stack", c.slice(c.vecs(fmt.Sprintf("pv%d.", h), past, d)...))))
				}
				cache = c.sliceOf(c.p.I.P.ssaPkg(modPath+"/nn/attention/selfattention").Type("Cache").Type(), l...)
			}
			rs := c.p.callNamed(m, "Forward", cache, c.slice(c.vecs("q", k, n)...), c.slice(c.vecs("x", k, n)...)).(Tuple)
			var want []compWant
			for i, q := range named("q", k) {
				e := eEl("OutputMerge.B")
				for h := 0; h < heads; h++ {
					at := func(s string) *Expr { return eEl(fmt.Sprintf("Heads[%d].%s", h, s)) }
					ks, vs := named(fmt.Sprintf("pk%d.", h), past), named(fmt.Sprintf("pv%d.", h), past)
					if kind != " cross" {
						for _, x := range named("x", k) {
							ks = append(ks, lin(at("Key.B"), at("Key.W"), x, d, n))
							vs = append(vs, lin(at("Value.B"), at("Value.W"), x, d, n))
						}
					}
					visible := len(ks)
					if kind == " causal" {
						visible = i + 1
					}
					_, y := attend(lin(at("Query.B"), at("Query.W"), q, d, n), ks, vs, d, eRef(fmt.Sprintf("Heads[%d].ScaleFactor", h), pConst(0)), visible)
					w := eRef("OutputMerge.W", pAdd(pAdd(pMul(pAtom(cur), n), pScale(d, int64(h))), pAtom("j")))
					e = eAdd(e, eSum(eMul(w, y.at(cur, pAtom("j"))), "j", d))
				}
				want = append(want, vecOf(n, e))
			}
			return c.all(c.list(rs[0]), want)
		})
	}
}

// window is the product of a kernel with the part of x (with cols columns) at
// a position.
func window(w, x string, wr, wc, cols, row, col int64) *Expr {
	e := eConst(0)
	for i := int64(0); i < wr; i++ {
		for j := int64(0); j < wc; j++ {
			e = eAdd(e, eMul(eRef(w, pConst(i*wc+j)), eRef(x, pConst((row+i)*cols+col+j))))
		}
	}
	return e
}

func (c *comp) sized(name string, r, w int64) Value { return c.mat(name, pConst(r), pConst(w)) }

func exact(r, w int64, es []*Expr) compWant {
	cw := compWant{r: pConst(r), c: pConst(w)}
	for i, e := range es {
		cw.pieces = append(cw.pieces, valPiece{idx: pConst(int64(i)), want: e})
	}
	return cw
}

func convolutions() {
	conv1 := [][4]int64{{2, 3, 7, 1}, {2, 3, 7, 2}, {2, 3, 7, 4}, {1, 1, 5, 2}, {3, 2, 2, 5}, {1, 2, 8, 3}}
	composedOver("nn/convolution.Conv1D", upTo(len(conv1)), func(c *comp) []compWant {
		g := conv1[c.k]
		v := c.call("nn/convolution", "Conv1D", c.sized("w", g[0], g[1]), c.sized("x", g[0], g[2]), pConst(g[3]))
		var es []*Expr
		for at := int64(0); at+g[1] <= g[2]; at += g[3] {
			es = append(es, window("w", "x", g[0], g[1], g[2], 0, at))
		}
		return c.all([]Value{v}, []compWant{exact(int64(len(es)), 1, es)})
	})
	conv2 := [][6]int64{{2, 3, 4, 7, 1, 1}, {2, 3, 4, 7, 1, 2}, {2, 2, 4, 3, 2, 1}, {1, 2, 4, 8, 3, 2}, {2, 1, 7, 4, 5, 3}, {3, 3, 3, 3, 4, 4}, {2, 2, 5, 3, 3, 1}}
	composedOver("nn/convolution.Conv2D", upTo(len(conv2)), func(c *comp) []compWant {
		g := conv2[c.k]
		v := c.call("nn/convolution", "Conv2D", c.sized("w", g[0], g[1]), c.sized("x", g[2], g[3]), pConst(g[4]), pConst(g[5]))
		var es []*Expr
		var n int64
		for i := int64(0); i+g[0] <= g[2]; i += g[4] {
			n++
			for j := int64(0); j+g[1] <= g[3]; j += g[5] {
				es = append(es, window("w", "x", g[0], g[1], g[3], i, j))
			}
		}
		return c.all([]Value{v}, []compWant{exact(n, int64(len(es))/n, es)})
	})
	for _, dims := range []int{1, 2} {
		dims := dims
		pkg := fmt.Sprintf("nn/convolution/convolution%dd", dims)
		for _, kind := range []string{"", " masked", " depthwise"} {
			kind := kind
			// channels in and out, rows and columns of the kernel and of the
			// input, strides
			geo := [][8]int64{{2, 3, 2, 2, 3, 3, 1, 1}, {3, 2, 1, 2, 4, 5, 3, 3}, {1, 1, 2, 1, 4, 3, 2, 2}}
			if kind == " masked" {
				geo = append(geo, [8]int64{3, 1, 2, 2, 2, 2, 1, 1})
			}
			composedOver(pkg+kind, upTo(len(geo)), func(c *comp) []compWant {
				g := geo[c.k]
				in, out, wr, wc, rows, cols, xs, ys := g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]
				f := map[string]Value{"KernelSizeX": pConst(wr), "KernelSizeY": pConst(wc), "YStride": pConst(ys), "InputChannels": pConst(in), "Activation": c.konst("nn/activation", "Tanh")}
				if dims == 2 {
					f["XStride"] = pConst(xs)
				} else {
					rows = wr
				}
				mask := map[int64]bool{}
				for i := int64(0); i < in; i++ {
					mask[i] = true
				}
				switch kind {
				case " masked":
					var l []Value
					for i := int64(0); i < in; i++ {
						mask[i] = (i+in)%2 == 1
						x := int64(0)
						if mask[i] {
							x = 1
						}
						l = append(l, pConst(x))
					}
					f["Mask"] = c.sliceOf(types.Typ[types.Int], l...)
				case " depthwise":
					f["DepthWise"] = c.bool(true)
					out = in
				}
				f["OutputChannels"] = pConst(out)
				m := c.create(pkg, "New", c.config(pkg, "Config", f))
				c.name(m)
				var xv []Value
				for i := int64(0); i < in; i++ {
					xv = append(xv, c.sized(fmt.Sprintf("x%d", i), rows, cols))
				}
				yv := c.forward(m, xv...)
				var want []compWant
				for o := int64(0); o < out; o++ {
					var es []*Expr
					n := int64(0)
					for i := int64(0); i+wr <= rows; i += xs {
						n++
						for j := int64(0); j+wc <= cols; j += ys {
							e := eConst(0)
							for ch := int64(0); ch < in; ch++ {
								q := o*in + ch
								if kind == " depthwise" {
									if ch != o {
										continue
									}
									q = o
								}
								if mask[ch] {
									e = eAdd(e, eAdd(window(fmt.Sprintf("K[%d]", q), fmt.Sprintf("x%d", ch), wr, wc, cols, i, j), eRef(fmt.Sprintf("B[%d]", q), pConst(0))))
								}
							}
							es = append(es, tanhOf(e))
						}
					}
					r, w := int64(len(es)), int64(1)
					if dims == 2 {
						r, w = n, r/n
					}
					want = append(want, exact(r, w, es))
				}
				return c.all(yv, want)
			})
		}
	}
	composedOver("nn/pooling", []int{0, 1, 2}, func(c *comp) []compWant {
		// size of the windows, their number, and their rows and columns
		w := [][4]int64{{2, 2, 2, 1}, {1, 2, 2, 2}, {2, 1, 1, 3}}[c.k]
		h, v, rows, cols := w[0], w[1], w[2], w[3]
		m := c.create("nn/pooling", "NewMax", pConst(h), pConst(v))
		ys := c.forward(m, c.sized("x", h*rows, v*cols))
		var es []*Expr
		for r := int64(0); r < rows; r++ {
			for q := int64(0); q < cols; q++ {
				var e *Expr
				for i := int64(0); i < h; i++ {
					for j := int64(0); j < v; j++ {
						x := eRef("x", pConst((r*h+i)*v*cols+q*v+j))
						if e == nil {
							e = x
						} else {
							e = minMaxTerm(true, e, x)
						}
					}
				}
				es = append(es, e)
			}
		}
		return c.all(ys, []compWant{exact(rows, cols, es)})
	})
}

// norm1 is layer normalization over n elements.
func norm1(x, w, b, eps *Expr, n *Poly) *Expr {
	mean := func(e *Expr) *Expr { return eDiv(eSum(e, cur, n), eInt(n)) }
	d := eSub(x, mean(x))
	return eAdd(eMul(eDiv(d, eSqrt(eAdd(mean(eMul(d, d)), eps))), w), b)
}

func mixers() {
	num := func(s string) *Expr { return eRef(s, pConst(0)) }
	sgu := func(pre string, xs []*Expr, half *Poly, act func(*Expr) *Expr) (ys []*Expr) {
		var gates []*Expr
		for _, x := range xs {
			gates = append(gates, norm1(x.at(cur, pAdd(pAtom(cur), half)), eEl(pre+"Norm.W"), eEl(pre+"Norm.B"), num(pre+"Norm.Eps"), half))
		}
		for i, x := range xs {
			g := eRef(pre+"Proj.B", pConst(int64(i)))
			for j := range xs {
				g = eAdd(g, eMul(eRef(pre+"Proj.W", pConst(int64(i*len(xs)+j))), gates[j]))
			}
			ys = append(ys, eMul(x, act(g)))
		}
		return
	}
	same := func(e *Expr) *Expr { return e }
	for _, kind := range []string{"Identity", "Tanh"} {
		kind := kind
		act := same
		if kind == "Tanh" {
			act = tanhOf
		}
		composedOver("nn/sgu "+kind, []int{1, 2}, func(c *comp) []compWant {
			half := c.dim("half")
			n := pScale(half, 2)
			m := c.create("nn/sgu", "New", c.config("nn/sgu", "Config", map[string]Value{"Dim": n, "DimSeq": pConst(int64(c.k)), "InitEps": zeroV(), "Activation": c.konst("nn/activation", kind)}))
			c.name(m)
			var want []compWant
			for _, e := range sgu("", named("x", c.k), half, act) {
				want = append(want, vecOf(half, e))
			}
			return c.all(c.forward(m, c.vecs("x", c.k, n)...), want)
		})
	}
	// parts of their own are looked into on their own
	outs := func(at string, n int) (es []*Expr) {
		for i := 0; i < n; i++ {
			es = append(es, eEl(fmt.Sprintf("%s!%d", at, i)))
		}
		return
	}
	composedOver("nn/gmlp", []int{1, 2, 3}, func(c *comp) []compWant {
		n := c.dim("dim")
		// two layers, a sequence of up to two, padded to two
		xn, depth := 1+(c.k-1)%2, int64(1+(c.k-1)/2)
		m := c.create("nn/gmlp", "New", c.config("nn/gmlp", "Config", map[string]Value{"Dim": n, "Depth": pConst(depth), "SeqLen": pConst(2), "FFMult": pConst(4), "Activation": c.konst("nn/activation", "Identity")}))
		c.name(m)
		sizes := map[string]*Poly{}
		for l := int64(0); l < depth; l++ {
			pre := fmt.Sprintf("Layers[%d].PreNorm.", l)
			sizes[pre+"Norm"] = n
			for i, q := range []int64{4, 4, 2, 1} {
				sizes[fmt.Sprintf("%sBlock.Layers[%d]", pre, i)] = pScale(n, q)
			}
		}
		c.cut(sizes)
		ys := c.forward(m, c.vecs("x", xn, n)...)
		xs := append(named("x", xn), eConst(0))[:2]
		var want []compWant
		vecs := func(at string, es []*Expr) {
			var w []compWant
			for _, e := range es {
				q := n
				if sizes[at] != nil {
					q = sizes[at]
				}
				w = append(w, vecOf(q, e))
			}
			want = append(want, c.given(at, w)...)
		}
		for l := int64(0); l < depth; l++ {
			pre := fmt.Sprintf("Layers[%d].PreNorm.", l)
			at := func(i int) string { return fmt.Sprintf("%sBlock.Layers[%d]", pre, i) }
			vecs(pre+"Norm", xs)
			es := outs(pre+"Norm", 2)
			for i, q := range []int64{1, 4, 4, 2} {
				var w []compWant
				for _, e := range es {
					w = append(w, vecOf(pScale(n, q), e))
				}
				want = append(want, c.given(at(i), w)...)
				es = outs(at(i), 2)
			}
			for i := range xs {
				xs[i] = eAdd(xs[i], es[i])
			}
		}
		var last []compWant
		for _, e := range xs {
			last = append(last, vecOf(n, e))
		}
		return append(want, c.all(ys, last)...)
	})
	composedOver("nn/mlpmixer", []int{1, 2, 3}, func(c *comp) []compWant {
		n, th, ch := pConst(2), c.dim("tokens"), c.dim("hidden")
		m := c.create("nn/mlpmixer", "New", c.config("nn/mlpmixer", "Config", map[string]Value{"InputSize": n, "HiddenSizeTokenMixer": th, "HiddenSizeChannelMixer": ch, "Channels": pConst(int64(c.k)),
			"ActFunctionTokenMixer": c.konst("nn/activation", "Tanh"), "ActFunctionChannelMixer": c.konst("nn/activation", "Tanh"), "Eps": zeroV()}))
		c.name(m)
		k := pConst(int64(c.k))
		c.cut(map[string]*Poly{"TokenLayerNorm": n, "TokenMixerFF": k, "ChannelLayerNorm": n, "ChannelMixerFF": n})
		ys := c.forward(m, c.vecs("x", c.k, n)...)
		xs := named("x", c.k)
		vecs := func(es []*Expr) (w []compWant) {
			for _, e := range es {
				w = append(w, vecOf(n, e))
			}
			return
		}
		want := c.given("TokenLayerNorm", vecs(xs))
		// the tokens of a channel are mixed
		var cols []compWant
		for j := int64(0); j < 2; j++ {
			var es []*Expr
			for t := 0; t < c.k; t++ {
				es = append(es, eRef(fmt.Sprintf("TokenLayerNorm!%d", t), pConst(j)))
			}
			cols = append(cols, exact(int64(c.k), 1, es))
		}
		want = append(want, c.given("TokenMixerFF", cols)...)
		mixed := func(t int, j int64) *Expr {
			return eAdd(eRef(fmt.Sprintf("x%d", t), pConst(j)), eRef(fmt.Sprintf("TokenMixerFF!%d", j), pConst(int64(t))))
		}
		var ms, last []compWant
		for t := 0; t < c.k; t++ {
			ms = append(ms, exact(2, 1, []*Expr{mixed(t, 0), mixed(t, 1)}))
			var es []*Expr
			for j := int64(0); j < 2; j++ {
				es = append(es, eAdd(mixed(t, j), eRef(fmt.Sprintf("ChannelMixerFF!%d", t), pConst(j))))
			}
			last = append(last, exact(2, 1, es))
		}
		want = append(want, c.given("ChannelLayerNorm", ms)...)
		want = append(want, c.given("ChannelMixerFF", vecs(outs("ChannelLayerNorm", c.k)))...)
		return append(want, c.all(ys, last)...)
	})
	composed("nn/mlpmixer FeedForward", func(c *comp) []compWant {
		n, th, ch := c.dim("dim"), c.dim("tokens"), c.dim("hidden")
		m := c.create("nn/mlpmixer", "New", c.config("nn/mlpmixer", "Config", map[string]Value{"InputSize": n, "HiddenSizeTokenMixer": th, "HiddenSizeChannelMixer": ch, "Channels": pConst(2),
			"ActFunctionTokenMixer": c.konst("nn/activation", "Identity"), "ActFunctionChannelMixer": c.konst("nn/activation", "Tanh"), "Eps": zeroV()}))
		c.name(m)
		ff := func(name, x string, in, h *Poly, act func(*Expr) *Expr) []compWant {
			at := func(s string) *Expr { return eEl(name + ".Layers" + s) }
			y := act(lin(at("[0].B"), at("[0].W"), eEl(x), h, in))
			y = lin(at("[2].B"), at("[2].W"), y, in, h)
			var f Value
			for l, path := range c.paths {
				if path == name && nameOfType(l.T) == "FeedForward" {
					f = &Iface{T: types.NewPointer(l.T), V: l}
				}
			}
			if f == nil {
				c.p.unsupported("no %s", name)
			}
			return c.all(c.forward(f, c.vec(x, in)), []compWant{vecOf(in, y)})
		}
		want := ff("TokenMixerFF", "x", pConst(2), th, same)
		return append(want, ff("ChannelMixerFF", "y", n, ch, tanhOf)...)
	})
}

func init() {
	selfAttentions()
	multiHeads()
	convolutions()
	mixers()
}

func upTo(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return l
}
