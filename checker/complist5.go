package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is made of numbers drawn at random. The generators are not looked into:
// each number drawn is a new name, and what becomes of it is compared with what
// the distribution says.

const drawPrefix = "draw#"

// draws makes the generators give names.
func (c *comp) draws() {
	unit := func() Value {
		c.n++
		n := fmt.Sprintf("%su%d", drawPrefix, c.n)
		if c.p.T.sc == nil {
			c.p.T.sc = map[string][2]float64{}
		}
		c.p.T.sc[n] = [2]float64{0, 1}
		return &FloatV{e: eSc(n), u: c.p.U.fresh("["+n+"]", true), dep: depOf(n)}
	}
	normal := func() Value {
		c.n++
		return c.float(fmt.Sprintf("%sn%d", drawPrefix, c.n))
	}
	c.p.T.cut = func(fn *ssa.Function, args []Value) (Value, bool) {
		pk := pkgOf(fn)
		if pk == nil || !strings.HasSuffix(pk.Path(), "/rand") || !inModule(pk) {
			return nil, false
		}
		switch fn.Name() {
		case "Float64", "Float32":
			return unit(), true
		case "NormFloat64":
			return normal(), true
		case "NewLockedRand":
			return c.generator(), true
		case "Intn":
			c.n++
			d := pAtom(fmt.Sprintf("%si%d", drawPrefix, c.n))
			c.drawn = append(c.drawn, d)
			if len(c.drawn) > 4 {
				c.p.end("done", "longer sequences of draws")
			}
			c.p.F.addGE(d)
			c.p.F.addGE(below(d, args[len(args)-1].(*Poly)))
			return d, true
		case "Shuffle":
			swap := args[len(args)-1]
			c.shuffled = append(c.shuffled, args[len(args)-2])
			if c.shuffle != nil {
				c.shuffle()
			}
			for _, s := range c.swaps {
				c.p.callValue(swap, []Value{pConst(s[0]), pConst(s[1])}, nil, nil)
			}
			return nil, true
		}
		return nil, false
	}
}

// generator is a generator that nothing is known of.
func (c *comp) generator() Value {
	sp := c.p.I.P.ssaPkg(modPath + "/mat/rand")
	if sp == nil || sp.Type("LockedRand") == nil {
		c.p.unsupported("no generator")
	}
	return c.p.newLoc(sp.Type("LockedRand").Type(), "generator", nil)
}

// drawsIn lists the draws a term depends on.
func drawsIn(e *Expr) (l []string) {
	seen := map[string]bool{}
	e.each(func(a *eAtom) {
		if a.kind == "sc" && strings.HasPrefix(a.name, drawPrefix) && !seen[a.name] {
			seen[a.name] = true
			l = append(l, a.name)
		}
	})
	sort.Strings(l)
	return
}

// drawnWant says what the elements of a matrix of n elements are, each given a
// draw of its own.
func (c *comp) drawnWant(v Value, sub string, rows, cols int64, f func(i int64, u *Expr) *Expr) compWant {
	w := compWant{v: v, r: pConst(rows), c: pConst(cols), sub: sub}
	a := c.p.floatArr(c.p.callNamed(c.value(v), "Data"))
	if a == nil {
		c.p.unsupported("no elements")
	}
	for i := int64(0); i < rows*cols; i++ {
		e := c.p.loadTerm(a, pConst(i))
		if e == nil {
			c.p.unsupported("element %d is not known", i)
		}
		if x, _ := c.p.unfold(e, 0); x != nil {
			e = x
		}
		name := drawPrefix + "none"
		ds := drawsIn(e)
		if len(ds) == 0 {
			// decided by the path
			for _, l := range c.p.T.conds {
				if l.c.d == nil {
					continue
				}
				for _, d := range drawsIn(l.c.d) {
					if !c.used[d] && (len(ds) == 0 || len(d) < len(ds[0]) || len(d) == len(ds[0]) && d < ds[0]) {
						ds = []string{d}
					}
				}
			}
		}
		switch {
		case len(ds) > 1:
			return compWant{bad: fmt.Sprintf("an element %d of %s that depends on %d draws", i, sub, len(ds))}
		case len(ds) == 1 && c.used[ds[0]]:
			return compWant{bad: fmt.Sprintf("an element %d of %s with the draw of another element", i, sub)}
		case len(ds) == 1:
			name = ds[0]
			if c.used == nil {
				c.used = map[string]bool{}
			}
			c.used[name] = true
		}
		w.pieces = append(w.pieces, valPiece{idx: pConst(i), want: f(i, eSc(name)), sub: "elements"})
	}
	return w
}

func init() {
	k := eConst
	shapes := [][2]int64{{2, 2}, {1, 3}, {3, 1}, {1, 1}}
	fill := func(fn string, args []string, gen bool, f func(r, cc int64) func(u *Expr) *Expr) {
		composedOver("rand/"+fn, []int{0, 1, 2, 3}, func(c *comp) []compWant {
			c.draws()
			s := shapes[c.k]
			l := []Value{c.mat("old", pConst(s[0]), pConst(s[1]))}
			for _, a := range args {
				l = append(l, c.float(a))
			}
			if gen {
				l = append(l, c.generator())
			}
			v := c.call("initializers", fn, l...)
			g := f(s[0], s[1])
			el := func(_ int64, u *Expr) *Expr { return g(u) }
			w1 := c.drawnWant(l[0], "the matrix", s[0], s[1], el)
			c.used = nil
			return []compWant{w1, c.drawnWant(v, "what is returned", s[0], s[1], el)}
		})
	}
	plain := func(e *Expr) func(r, cc int64) func(u *Expr) *Expr {
		return func(r, cc int64) func(u *Expr) *Expr { return func(*Expr) *Expr { return e } }
	}
	uni := func(lo, hi *Expr) func(u *Expr) *Expr {
		return func(u *Expr) *Expr { return eAdd(eMul(u, eSub(hi, lo)), lo) }
	}
	fill("Uniform", []string{"min", "max"}, true, func(r, cc int64) func(u *Expr) *Expr { return uni(eSc("min"), eSc("max")) })
	fill("Normal", []string{"mean", "std"}, true, func(r, cc int64) func(u *Expr) *Expr {
		return func(u *Expr) *Expr { return eAdd(eMul(u, eSc("std")), eSc("mean")) }
	})
	fill("Constant", []string{"c"}, false, plain(eSc("c")))
	fill("Ones", nil, false, plain(k(1)))
	fill("Zeros", nil, false, plain(k(0)))
	xavier := func(num float64, r, cc int64, gain *Expr) *Expr {
		return eMul(gain, eFn("sqrt", k(num/float64(r+cc))))
	}
	fill("XavierUniform", []string{"gain"}, true, func(r, cc int64) func(u *Expr) *Expr {
		a := xavier(6, r, cc, eSc("gain"))
		return uni(eScale(a, -1), a)
	})
	fill("XavierNormal", []string{"gain"}, true, func(r, cc int64) func(u *Expr) *Expr {
		return func(u *Expr) *Expr { return eMul(u, xavier(2, r, cc, eSc("gain"))) }
	})
	fill("Achlioptas", nil, true, func(r, cc int64) func(u *Expr) *Expr {
		s3 := eFn("sqrt", k(3))
		return func(u *Expr) *Expr {
			return eIte(eSub(k(1.0/6), u), eScale(s3, -1), eIte(eSub(u, k(5.0/6)), s3, k(0)))
		}
	})
	composedOver("rand/Gain", []int{0, 1, 2, 3}, func(c *comp) []compWant {
		name := []string{"Identity", "Sigmoid", "ReLU", "Tanh"}[c.k]
		want := []*Expr{k(1), k(1), eFn("sqrt", k(2)), k(5.0 / 3)}[c.k]
		x, ok := c.call("initializers", "Gain", c.konst("nn/activation", name)).(*FloatV)
		if !ok || x.e == nil {
			c.p.unsupported("a gain that is not known")
		}
		return []compWant{scalarWant(c.number("gain", x.e), want)}
	})
	// dropping
	composedOver("rand/Dropout", []int{0, 1, 2, 3}, func(c *comp) []compWant {
		c.draws()
		s := shapes[c.k]
		x, gy := c.mat("x", pConst(s[0]), pConst(s[1])), c.mat("gy", pConst(s[0]), pConst(s[1]))
		c.p.callNamed(x, "SetRequiresGrad", c.bool(true))
		c.p.T.sc = map[string][2]float64{"p": {0, 1}}
		f := c.generic("mat/gradfn", "NewDropout", x, c.float("p"), c.generator())
		v := c.p.callNamed(f, "Forward").(Tuple)[0]
		keep := func(what string) func(i int64, u *Expr) *Expr {
			return func(i int64, u *Expr) *Expr {
				q := eSub(k(1), eSc("p"))
				kept := eIte(eSub(eSc("p"), u), k(0), eDiv(eRef(what, pConst(i)), q))
				return eIte(q, kept, k(0))
			}
		}
		w1 := c.drawnWant(v, "the result", s[0], s[1], keep("x"))
		c.used = nil
		c.p.callNamed(f, "Backward", gy)
		return []compWant{w1, c.drawnWant(c.p.callNamed(x, "Grad"), "the gradient", s[0], s[1], keep("gy"))}
	})
	composedOver("rand/Bernoulli", []int{0, 1, 2, 3}, func(c *comp) []compWant {
		c.draws()
		s := shapes[c.k]
		fn := c.p.I.instanceOf(modPath+"/mat/rand/bernulli", "Distribution", c.width)
		if fn == nil {
			c.p.unsupported("no distribution")
		}
		c.p.T.sc = map[string][2]float64{"p": {0, 1}}
		v := c.p.call(fn, []Value{pConst(s[0]), pConst(s[1]), c.float("p"), c.generator()}, nil)
		return []compWant{c.drawnWant(v, "the result", s[0], s[1], func(_ int64, u *Expr) *Expr {
			return eIte(eSub(eSc("p"), u), k(0), k(1))
		})}
	})
	initTargets()
}

// number is a matrix of one known number.
func (c *comp) number(name string, e *Expr) Value {
	v := c.num(name)
	c.p.setArr(c.p.floatArr(c.p.callNamed(v, "Data")), e)
	return v
}

func initTargets() {
	k := eConst
	// what a model's initialization leaves in its parameters
	filled := func(c *comp, f func(path string, r, cc int64) func(u *Expr) *Expr) (want []compWant) {
		for _, x := range c.params {
			d := c.p.T.shapes[x.name]
			r, ok1 := c.p.F.norm(d[0]).isConst()
			cc, ok2 := c.p.F.norm(d[1]).isConst()
			if !ok1 || !ok2 {
				c.p.unsupported("size of %s", x.name)
			}
			g := f(x.name, r, cc)
			if g == nil {
				g = func(*Expr) *Expr { return nil }
			}
			name := x.name
			want = append(want, c.drawnWant(c.held[x.name], name, r, cc, func(i int64, u *Expr) *Expr {
				if e := g(u); e != nil {
					return e
				}
				return eRef(name, pConst(i))
			}))
		}
		c.params = nil
		return want
	}
	xavier := func(r, cc int64) func(u *Expr) *Expr {
		return func(u *Expr) *Expr {
			a := eFn("sqrt", k(6/float64(r+cc)))
			return eSub(eMul(u, eScale(a, 2)), a)
		}
	}
	start := func(c *comp, m Value) {
		c.draws()
		c.held = map[string]Value{}
		c.name(m)
	}
	composed("rand/lstm.Init", func(c *comp) []compWant {
		m := c.create("nn/recurrent/lstm", "New", pConst(2), pConst(1))
		start(c, m)
		c.p.callNamed(m, "Init", c.generator())
		return filled(c, func(path string, r, cc int64) func(u *Expr) *Expr {
			if path == "BFor" {
				return func(*Expr) *Expr { return k(1) }
			}
			return xavier(r, cc)
		})
	})
	attention := func(path string, r, cc int64) func(u *Expr) *Expr {
		if strings.HasSuffix(path, ".W") {
			return xavier(r, cc)
		}
		return nil
	}
	composed("rand/selfattention.Init", func(c *comp) []compWant {
		m := c.create("nn/attention/selfattention", "New", c.config("nn/attention/selfattention", "Config", map[string]Value{
			"InputSize": pConst(2), "QuerySize": pConst(1), "KeySize": pConst(1), "ValueSize": pConst(3), "ScaleFactor": c.float("s"), "UseCausalMask": c.bool(false), "IsCrossAttention": c.bool(false)}))
		start(c, m)
		c.p.callNamed(m, "Init", c.generator())
		return filled(c, attention)
	})
	composed("rand/multiheadattention.Init", func(c *comp) []compWant {
		m := c.create("nn/attention/multiheadattention", "New", pConst(2), pConst(2), c.bool(false), c.bool(false))
		start(c, m)
		c.p.callNamed(m, "Init", c.generator())
		return filled(c, attention)
	})
	composedOver("rand/sgu.Initialize", []int{1, 2}, func(c *comp) []compWant {
		m := c.create("nn/sgu", "New", c.config("nn/sgu", "Config", map[string]Value{"Dim": pConst(4), "DimSeq": pConst(int64(c.k)), "InitEps": c.float("eps"), "Activation": c.konst("nn/activation", "Identity")}))
		start(c, m)
		c.p.callNamed(m, "Initialize", pAtom("seed"))
		return filled(c, func(path string, r, cc int64) func(u *Expr) *Expr {
			a := eScale(eSc("eps"), 1/float64(c.k))
			switch path {
			case "Proj.W":
				return func(u *Expr) *Expr { return eSub(eMul(u, eScale(a, 2)), a) }
			case "Proj.B":
				return func(*Expr) *Expr { return k(1) }
			}
			return nil
		})
	})
	// choices
	composedOver("rand/WeightedChoice", []int{1, 2, 3}, func(c *comp) []compWant {
		c.draws()
		fn := c.p.I.instanceOf(modPath+"/mat/rand", "WeightedChoice", c.width)
		if fn == nil {
			c.p.unsupported("no choice")
		}
		w := c.vec("w", pConst(int64(c.k)))
		a := c.p.floatArr(c.p.callNamed(w, "Data"))
		n := pConst(int64(c.k))
		r, ok := c.p.call(fn, []Value{Slice{a, pConst(0), n, n}}, nil).(*Poly)
		if !ok {
			c.p.unsupported("an index that is not known")
		}
		u := eSc(drawPrefix + "u1")
		// the weights sum up to one: the last is taken if none before it is
		want := eInt(r)
		for i := c.k - 1; i >= 0; i-- {
			s := eConst(0)
			for j := 0; j <= i; j++ {
				s = eAdd(s, eRef("w", pConst(int64(j))))
			}
			want = eIte(eSub(s, u), eConst(float64(i)), want)
		}
		return []compWant{scalarWant(c.number("choice", eInt(r)), want)}
	})
	ints := func(c *comp, n int, name string) (l []Value) {
		for i := 0; i < n; i++ {
			l = append(l, pAtom(fmt.Sprintf("%s%d", name, i)))
		}
		return
	}
	// numbers that are all different: what is drawn is taken unless it was
	// taken before or is not valid
	for _, name := range []string{"GetUniqueRandomInt", "GetUniqueRandomIndices"} {
		name := name
		composedOver("rand/"+name, []int{1, 2, 3}, func(c *comp) []compWant {
			c.draws()
			max := c.dim("max")
			var valids, invalid []*Poly
			valid := &NativeV{func(args []Value) Value {
				x, ok := args[0].(*Poly)
				if !ok {
					c.p.unsupported("a number that is not known")
				}
				x = c.p.F.norm(x)
				ok = c.p.decide(&BoolV{kind: bOpaque, key: "valid " + x.key()})
				if !ok {
					invalid = append(invalid, x)
				} else {
					valids = append(valids, x)
				}
				return vBool(ok)
			}}
			var v Value
			if name == "GetUniqueRandomInt" {
				v = c.call("mat/rand", name, pConst(int64(c.k)), max, valid)
			} else {
				// any order of the indices may come first
				l := c.ints(0, 0, 0, 0).(Slice)
				c.shuffle = func() {
					c.n++
					d := pAtom(fmt.Sprintf("%si%d", drawPrefix, c.n))
					c.drawn = append(c.drawn, d)
					if len(c.drawn) > 4 {
						c.p.end("done", "longer sequences of draws")
					}
					c.p.F.addGE(d)
					c.p.elemLoc(l.A, pConst(0)).v = d
				}
				v = c.call("mat/rand", name, pConst(int64(c.k)), l, valid)
			}
			got := c.list(v)
			if len(got) != c.k {
				return c.wrong("%d numbers where %d were asked for", len(got), c.k)
			}
			eq := func(x, y Value) int {
				a, ok1 := x.(*Poly)
				b, ok2 := y.(*Poly)
				if !ok1 || !ok2 {
					c.p.unsupported("a number that is not known")
				}
				return c.p.F.eqZero(pSub(a, b))
			}
			one := func(ok, not bool, f string, a ...interface{}) compWant {
				if ok {
					return scalarWant(c.number("ok", eConst(1)), eConst(1))
				}
				if not {
					return compWant{bad: fmt.Sprintf(f, a...)}
				}
				return scalarWant(c.number("unknown", eSc("unknown")), eConst(1))
			}
			var want []compWant
			for i := range got {
				for j := range got[:i] {
					q := eq(got[i], got[j])
					want = append(want, one(q == -1, q == 1, "the same number twice"))
				}
			}
			for _, g := range got {
				found, no := false, true
				for _, x := range valids {
					found = found || eq(g, x) == 1
					no = no && eq(g, x) == -1
				}
				for _, x := range invalid {
					no = no || eq(g, x) == 1
				}
				want = append(want, one(found, no, "a number that is not valid"))
			}
			// each draw was taken, or taken before, or not valid
			next := 0
			for _, d := range c.drawn {
				if next < len(got) && eq(d, got[next]) == 1 {
					next++
					continue
				}
				before, no := false, true
				for _, g := range got[:next] {
					before = before || eq(d, g) == 1
					no = no && eq(d, g) == -1
				}
				for _, g := range invalid {
					before = before || eq(d, g) == 1
				}
				want = append(want, one(before, no, "up a valid number that was not taken before"))
			}
			want = append(want, one(next == len(got), true, "a number that was not drawn"))
			return want
		})
	}
	composedOver("rand/ShuffleInPlace", []int{0, 1}, func(c *comp) []compWant {
		c.draws()
		c.swaps = [][2]int64{{2, 0}, {1, 1}, {1, 0}}
		l := ints(c, 3, "a")
		s := c.ints(0, 0, 0)
		for i, x := range l {
			c.p.elemLoc(s.(Slice).A, pConst(int64(i))).v = x
		}
		g := c.p.zero(types.NewPointer(c.generator().(*Loc).T))
		if c.k == 1 {
			g = c.generator()
		}
		got := c.list(c.call("mat/rand", "ShuffleInPlace", s, g))
		if len(got) != 3 || len(c.shuffled) != 1 || !pEq(c.p.F.norm(c.shuffled[0].(*Poly)), pConst(3)) {
			return c.wrong("%d elements after %d shuffles", len(got), len(c.shuffled))
		}
		var w []compWant
		for i, j := range []int{1, 2, 0} {
			for _, r := range []Value{got[i], c.list(s)[i]} {
				x, ok := r.(*Poly)
				if !ok {
					c.p.unsupported("an element that is not known")
				}
				if !pEq(c.p.F.norm(x), l[j].(*Poly)) {
					return c.wrong("element %s where %s was swapped to", x.key(), l[j].(*Poly).key())
				}
				w = append(w, scalarWant(c.number("ok", eConst(1)), eConst(1)))
			}
		}
		return w
	})
}

// isDraw reports whether a term is a number drawn from [0,1).
func (e *Expr) isDraw() bool {
	if len(e.t) != 1 {
		return false
	}
	for _, m := range e.t {
		return m.c == 1 && len(m.f) == 1 && m.f[0].x == 1 && m.f[0].a.kind == "sc" && strings.HasPrefix(m.f[0].a.name, drawPrefix+"u")
	}
	return false
}

// generic calls the instance of a function at an interface type.
func (c *comp) generic(pkg, name string, args ...Value) Value {
	var f *ssa.Function
	for fn := range c.p.I.P.All() {
		o := fn.Origin()
		if o == nil || o.Name() != name || fn.Blocks == nil || pkgOf(fn) == nil || pkgOf(fn).Path() != modPath+"/"+pkg || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		if types.IsInterface(fn.TypeArgs()[0]) && (f == nil || fn.String() < f.String()) {
			f = fn
		}
	}
	if f == nil {
		c.p.unsupported("no function %s.%s", pkg, name)
	}
	return &Iface{T: f.Signature.Results().At(0).Type(), V: c.p.call(f, args, nil)}
}

// ranged decides comparisons of single draws by their range and what the path
// says about them.
func (p *Path) ranged(e *Expr) *Expr {
	if e == nil || !p.I.draws {
		return e
	}
	linear := func(d *Expr) (name string, c0, c1 float64, ok bool) {
		for k, m := range d.t {
			switch {
			case k == "":
				c0 = m.c
			case name == "" && len(m.f) == 1 && m.f[0].x == 1 && m.f[0].a.kind == "sc" && strings.HasPrefix(m.f[0].a.name, drawPrefix+"u"):
				name, c1 = m.f[0].a.name, m.c
			default:
				return "", 0, 0, false
			}
		}
		return name, c0, c1, name != ""
	}
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		if a.kind != "pos" {
			return nil, true
		}
		n, c0, c1, ok := linear(a.args[0])
		if !ok {
			return nil, true
		}
		lo, hi := 0.0, 1.0
		for _, l := range p.T.conds {
			if l.c.d == nil || l.c.eq {
				continue
			}
			m, d0, d1, ok := linear(l.c.d)
			if !ok || m != n {
				continue
			}
			x := -d0 / d1
			if (l.v != l.c.neg) == (d1 > 0) {
				lo = math.Max(lo, x)
			} else {
				hi = math.Min(hi, x)
			}
		}
		x, y := c0+c1*lo, c0+c1*hi
		switch {
		case x >= 0 && y >= 0:
			return eConst(1), false
		case x <= 0 && y <= 0:
			return eConst(0), false
		}
		return nil, true
	})
}
