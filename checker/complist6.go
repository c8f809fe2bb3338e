package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Gradients of the operators that move, select or normalize elements: what
// every element of an operand gets back.

// delivered runs a function forward and backward and compares what its
// operands are given.
func (c *comp) delivered(name string, args []Value, xs []Value, result []valPiece, gx [][]valPiece) []compWant {
	return c.deliveredTo(-1, name, args, xs, result, gx)
}

// deliveredTo leaves one operand that needs no gradient out.
func (c *comp) deliveredTo(frozen int, name string, args []Value, xs []Value, result []valPiece, gx [][]valPiece) []compWant {
	for i, x := range xs {
		c.p.callNamed(x, "SetRequiresGrad", c.bool(i != frozen))
	}
	f := c.generic("mat/gradfn", name, args...)
	y := c.p.callNamed(f, "Forward").(Tuple)[0]
	d, ok := c.p.dimsOf(c.value(y))
	if !ok {
		c.p.unsupported("the shape of the result is not known")
	}
	c.p.callNamed(f, "Backward", c.mat("gy", d[0], d[1]))
	var want []compWant
	if result != nil {
		want = append(want, compWant{v: y, sub: "the result", pieces: result})
	}
	for i, x := range xs {
		if i == frozen {
			want = append(want, compWant{v: c.truth(c.p.callNamed(x, "HasGrad")), r: pConst(1), c: pConst(1), sub: fmt.Sprintf("operand %d has no gradient", i), pieces: []valPiece{{idx: pConst(0), want: eConst(0)}}})
			continue
		}
		s, ok := c.p.dimsOf(x)
		if !ok {
			c.p.unsupported("the shape of an operand is not known")
		}
		want = append(want, compWant{v: c.p.callNamed(x, "Grad"), r: s[0], c: s[1], sub: fmt.Sprintf("gradient of operand %d", i), pieces: gx[i]})
	}
	return want
}

// rest are the positions of an r×c matrix outside rows [r0,r1) and columns [c0,c1).
func rest(r, cc, r0, r1, c0, c1 *Poly, want *Expr) []valPiece {
	at := pAdd(pMul(iota1, cc), kapp)
	in := []*Poly{below(iota1, r), below(kapp, cc)}
	p := func(sub string, b ...*Poly) valPiece {
		return valPiece{sub: sub, bounds: append(append([]*Poly{}, in...), b...), idx: at, want: want}
	}
	return []valPiece{
		p("rows before", below(iota1, r0)),
		p("rows behind", pSub(iota1, r1)),
		p("columns before", below(kapp, c0)),
		p("columns behind", pSub(kapp, c1)),
	}
}

func init() {
	k := eConst
	one := pConst(1)
	gyAt := func(i *Poly) *Expr { return eRef("gy", i) }
	index := func(c *comp, name string, n *Poly) *Poly {
		i := pAtom(name)
		c.p.F.addGE(i)
		c.p.F.addGE(below(i, n))
		return i
	}
	at := func(name string, l []int64) []valPiece {
		var ps []valPiece
		for i, j := range l {
			e := k(0)
			if j >= 0 {
				e = eRef(name, pConst(j))
			}
			ps = append(ps, valPiece{idx: pConst(int64(i)), want: e})
		}
		return ps
	}
	composedOver("grad/At", []int{0, 1, 2, 3, 4, 5, 6, 7}, func(c *comp) []compWant {
		if c.k > 1 {
			x := c.mat("x", pConst(2), pConst(3))
			l := []int64{-1, -1, -1, -1, -1, -1}
			l[c.k-2] = 0
			return c.delivered("NewAt", []Value{x, c.ints(int64(c.k-2)/3, int64(c.k-2)%3)}, []Value{x}, at("x", []int64{int64(c.k - 2)}), [][]valPiece{at("gy", l)})
		}
		r, cc := c.dim("rows"), c.dim("cols")
		if c.k == 0 {
			n := c.dim("n")
			x := c.vec("x", n)
			i := index(c, "i", n)
			return c.delivered("NewAt", []Value{x, c.sliceOf(types.Typ[types.Int], i)}, []Value{x}, []valPiece{{idx: pConst(0), want: eRef("x", i)}}, [][]valPiece{append(rest(n, one, i, pAdd(i, one), pConst(0), one, k(0)), valPiece{idx: i, want: gyAt(pConst(0))})})
		}
		x := c.mat("x", r, cc)
		i, j := index(c, "i", r), index(c, "j", cc)
		return c.delivered("NewAt", []Value{x, c.sliceOf(types.Typ[types.Int], i, j)}, []Value{x}, []valPiece{{idx: pConst(0), want: eRef("x", pAdd(pMul(i, cc), j))}}, [][]valPiece{append(rest(r, cc, i, pAdd(i, one), j, pAdd(j, one), k(0)), valPiece{sub: "the element", idx: pAdd(pMul(i, cc), j), want: gyAt(pConst(0))})})
	})
	composed("grad/RowView", func(c *comp) []compWant {
		r, cc := c.dim("rows"), c.dim("cols")
		x := c.mat("x", r, cc)
		i := index(c, "i", r)
		return c.delivered("NewRowView", []Value{x, i}, []Value{x}, []valPiece{run("", pConst(0), cc, eRef("x", pAdd(pMul(i, cc), iota1)))}, [][]valPiece{append(rest(r, cc, i, pAdd(i, one), pConst(0), cc, k(0)), run("the row", pMul(i, cc), cc, gyAt(iota1)))})
	})
	composed("grad/ColView", func(c *comp) []compWant {
		r, cc := c.dim("rows"), c.dim("cols")
		x := c.mat("x", r, cc)
		j := index(c, "j", cc)
		return c.delivered("NewColView", []Value{x, j}, []Value{x}, []valPiece{run("", pConst(0), r, eRef("x", pAdd(pMul(iota1, cc), j)))}, [][]valPiece{append(rest(r, cc, pConst(0), r, j, pAdd(j, one), k(0)),
			valPiece{sub: "the column", bounds: []*Poly{below(iota1, r)}, idx: pAdd(pMul(iota1, cc), j), want: gyAt(iota1)})})
	})
	composedOver("grad/Slice", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, func(c *comp) []compWant {
		if c.k > 0 {
			g := [][6]int64{{1, 1, 2, 2, 3, 3}, {0, 1, 2, 3, 3, 3}, {1, 0, 3, 2, 3, 3}, {0, 0, 3, 1, 3, 3}, {1, 0, 2, 3, 3, 3}, {1, 0, 3, 3, 3, 3},
				{0, 1, 2, 3, 2, 4}, {1, 0, 2, 4, 2, 4}, {1, 0, 3, 2, 4, 2}, {2, 1, 3, 2, 4, 2}, {0, 0, 2, 3, 2, 3}}[c.k-1]
			var l, taken []int64
			for i := int64(0); i < g[4]*g[5]; i++ {
				q := int64(-1)
				if a, b := i/g[5], i%g[5]; a >= g[0] && a < g[2] && b >= g[1] && b < g[3] {
					q = (a-g[0])*(g[3]-g[1]) + b - g[1]
					taken = append(taken, i)
				}
				l = append(l, q)
			}
			x := c.mat("x", pConst(g[4]), pConst(g[5]))
			return c.delivered("NewSlice", []Value{x, pConst(g[0]), pConst(g[1]), pConst(g[2]), pConst(g[3])}, []Value{x}, at("x", taken), [][]valPiece{at("gy", l)})
		}
		// as many rows and columns before, in and behind the slice as one likes
		var d [6]*Poly
		for i := range d {
			d[i] = pAtom(fmt.Sprintf("s%d", i))
			c.p.F.addGE(d[i])
		}
		c.p.F.addGE(pSub(d[1], one))
		c.p.F.addGE(pSub(d[4], one))
		r1, c1 := pAdd(d[0], d[1]), pAdd(d[3], d[4])
		r, cc := pAdd(r1, d[2]), pAdd(c1, d[5])
		x := c.mat("x", r, cc)
		return c.delivered("NewSlice", []Value{x, d[0], d[3], r1, c1}, []Value{x}, []valPiece{
			{bounds: []*Poly{below(iota1, d[1]), below(kapp, d[4])}, idx: pAdd(pMul(iota1, d[4]), kapp), want: eRef("x", pAdd(pMul(pAdd(d[0], iota1), cc), pAdd(d[3], kapp)))}}, [][]valPiece{append(rest(r, cc, d[0], r1, d[3], c1, k(0)),
			valPiece{sub: "elements taken", bounds: []*Poly{below(iota1, d[1]), below(kapp, d[4])}, idx: pAdd(pMul(pAdd(d[0], iota1), cc), pAdd(d[3], kapp)), want: gyAt(pAdd(pMul(iota1, d[4]), kapp))})})
	})
	composed("grad/RotateR", func(c *comp) []compWant {
		i, j := pAtom("i"), pAtom("j")
		c.p.F.addGE(i)
		c.p.F.addGE(j)
		n := pAdd(i, j)
		c.p.F.addGE(pSub(n, one))
		x := c.vec("x", n)
		return c.delivered("NewRotateR", []Value{x, i}, []Value{x}, []valPiece{
			run("moved to the front", pConst(0), i, eRef("x", pAdd(j, iota1))),
			run("moved back", i, j, eRef("x", iota1)),
		}, [][]valPiece{{
			run("moved back", pConst(0), j, gyAt(pAdd(i, iota1))),
			run("moved to the front", j, i, gyAt(iota1)),
		}})
	})
	// lists: k vectors, and with 10, 20, 30 more the first, second, third of
	// them takes no gradient; 100 more make every other one a row
	lists, longer := []int{1, 2, 3, 12, 22, 13, 23, 33, 102, 103}, []int{4, 14, 24, 34, 44, 104}
	composedDeep("grad/Concat", lists, longer, func(c *comp) []compWant {
		var xs []Value
		var gx [][]valPiece
		var y []valPiece
		off := pConst(0)
		for i := 0; i < c.k%10; i++ {
			n := c.dim(fmt.Sprintf("n%d", i))
			name := fmt.Sprintf("x%d", i)
			if c.k >= 100 && i%2 == 1 {
				xs = append(xs, c.mat(name, one, n))
			} else {
				xs = append(xs, c.vec(name, n))
			}
			gx = append(gx, []valPiece{run("", pConst(0), n, gyAt(pAdd(off, iota1)))})
			y = append(y, run("", off, n, eRef(name, iota1)))
			off = pAdd(off, n)
		}
		return c.deliveredTo(c.k%100/10-1, "NewConcat", []Value{c.slice(xs...)}, xs, y, gx)
	})
	composedDeep("grad/Stack", lists, longer, func(c *comp) []compWant {
		n := c.dim("n")
		var xs []Value
		var gx [][]valPiece
		var y []valPiece
		for i := 0; i < c.k%10; i++ {
			name := fmt.Sprintf("x%d", i)
			if c.k >= 100 && i%2 == 1 {
				xs = append(xs, c.mat(name, one, n))
			} else {
				xs = append(xs, c.vec(name, n))
			}
			off := pScale(n, int64(i))
			gx = append(gx, []valPiece{run("", pConst(0), n, gyAt(pAdd(off, iota1)))})
			y = append(y, run("", off, n, eRef(name, iota1)))
		}
		return c.deliveredTo(c.k%100/10-1, "NewStack", []Value{c.slice(xs...)}, xs, y, gx)
	})
	composedOver("grad/AppendRows", []int{0, 1, 2, 10, 11, 21, 12, 22, 32}, func(c *comp) []compWant {
		r, cc := c.dim("rows"), c.dim("cols")
		x := c.mat("x", r, cc)
		size := pMul(r, cc)
		xs := []Value{x}
		gx := [][]valPiece{{run("", pConst(0), size, gyAt(iota1))}}
		y := []valPiece{run("", pConst(0), size, eRef("x", iota1))}
		for i := 0; i < c.k%10; i++ {
			name := fmt.Sprintf("v%d", i)
			xs = append(xs, c.mat(name, one, cc))
			off := pAdd(size, pScale(cc, int64(i)))
			gx = append(gx, []valPiece{run("", pConst(0), cc, gyAt(pAdd(off, iota1)))})
			y = append(y, run("", off, cc, eRef(name, iota1)))
		}
		return c.deliveredTo(c.k/10-1, "NewAppendRows", []Value{x, c.slice(xs[1:]...)}, xs, y, gx)
	})
	// the rest for small shapes, element by element
	shapes := [][2]int64{{1, 3}, {3, 1}, {1, 1}, {2, 2}}
	el := func(name string, i int64) *Expr { return eRef(name, pConst(i)) }
	sum := func(n int64, f func(i int64) *Expr) *Expr {
		s := k(0)
		for i := int64(0); i < n; i++ {
			s = eAdd(s, f(i))
		}
		return s
	}
	each := func(n int64, f func(i int64) *Expr) (l []valPiece) {
		for i := int64(0); i < n; i++ {
			l = append(l, valPiece{idx: pConst(i), want: f(i)})
		}
		return
	}
	composedOver("grad/Softmax", []int{0, 1, 2}, func(c *comp) []compWant {
		s := shapes[c.k]
		n := s[0] * s[1]
		x := c.mat("x", pConst(s[0]), pConst(s[1]))
		z := sum(n, func(i int64) *Expr { return eFn("exp", el("x", i)) })
		y := func(i int64) *Expr { return eDiv(eFn("exp", el("x", i)), z) }
		return c.delivered("NewSoftmax", []Value{x}, []Value{x}, each(n, y), [][]valPiece{each(n, func(i int64) *Expr {
			return eMul(y(i), eSub(el("gy", i), sum(n, func(j int64) *Expr { return eMul(el("gy", j), y(j)) })))
		})})
	})
	// biggest(i) is 1 where an element of a list is the first of the biggest
	biggest := func(es []*Expr, i int) *Expr {
		r := k(1)
		for j := range es {
			switch {
			case j < i: // strictly bigger than those before
				r = eMul(r, eIte(eSub(es[i], es[j]), k(1), k(0)))
			case j > i:
				r = eMul(r, eIte(eSub(es[j], es[i]), k(0), k(1)))
			}
		}
		return r
	}
	composedOver("grad/ReduceMax", []int{0, 1, 2}, func(c *comp) []compWant {
		s := shapes[c.k]
		n := s[0] * s[1]
		x := c.mat("x", pConst(s[0]), pConst(s[1]))
		var es []*Expr
		for i := int64(0); i < n; i++ {
			es = append(es, el("x", i))
		}
		return c.delivered("NewReduceMax", []Value{x}, []Value{x}, each(1, func(int64) *Expr {
			return sum(n, func(i int64) *Expr { return eMul(es[i], biggest(es, int(i))) })
		}), [][]valPiece{each(n, func(i int64) *Expr { return eMul(biggest(es, int(i)), el("gy", 0)) })})
	})
	composedOver("grad/MaxPooling", []int{0, 1, 2, 3, 4}, func(c *comp) []compWant {
		g := [][4]int64{{2, 2, 1, 2}, {2, 2, 2, 1}, {1, 3, 1, 3}, {2, 2, 1, 1}, {4, 1, 2, 1}}[c.k]
		r, cc, pr, pc := g[0], g[1], g[2], g[3]
		x := c.mat("x", pConst(r), pConst(cc))
		// the window an element lies in
		window := func(i int64) (l []int64, at int, out int64) {
			row, col := i/cc/pr, i%cc/pc
			for a := row * pr; a < row*pr+pr; a++ {
				for b := col * pc; b < col*pc+pc; b++ {
					if a*cc+b == i {
						at = len(l)
					}
					l = append(l, a*cc+b)
				}
			}
			return l, at, row*(cc/pc) + col
		}
		first := func(i int64) *Expr {
			l, at, _ := window(i)
			var es []*Expr
			for _, j := range l {
				es = append(es, el("x", j))
			}
			return biggest(es, at)
		}
		return c.delivered("NewMaxPooling", []Value{x, pConst(pr), pConst(pc)}, []Value{x}, each(r/pr*(cc/pc), func(o int64) *Expr {
			return sum(r*cc, func(i int64) *Expr {
				if _, _, out := window(i); out != o {
					return k(0)
				}
				return eMul(first(i), el("x", i))
			})
		}), [][]valPiece{each(r*cc, func(i int64) *Expr {
			_, _, out := window(i)
			return eMul(first(i), el("gy", out))
		})})
	})
	composedOver("grad/ScalarMax", []int{1, 2, 3}, func(c *comp) []compWant {
		var xs []Value
		var es []*Expr
		for i := 0; i < c.k; i++ {
			xs = append(xs, c.num(fmt.Sprintf("x%d", i)))
			es = append(es, eRef(fmt.Sprintf("x%d", i), pConst(0)))
		}
		for _, x := range xs {
			c.p.callNamed(x, "SetRequiresGrad", c.bool(true))
		}
		f := c.generic("mat/gradfn", "NewScalarMax", c.slice(xs...))
		y := c.p.callNamed(f, "Forward").(Tuple)[0]
		c.p.callNamed(f, "Backward", c.num("gy"))
		res := k(0)
		for i := range xs {
			res = eAdd(res, eMul(es[i], biggest(es, i)))
		}
		want := []compWant{{v: y, sub: "the result", pieces: each(1, func(int64) *Expr { return res })}}
		for i, x := range xs {
			// none is given where it would be zero
			if has := c.p.callNamed(x, "HasGrad"); c.p.decide(has.(*BoolV)) {
				want = append(want, compWant{v: c.p.callNamed(x, "Grad"), sub: fmt.Sprintf("gradient of operand %d", i), pieces: each(1, func(int64) *Expr { return eMul(biggest(es, i), el("gy", 0)) })})
			} else {
				want = append(want, compWant{v: c.number("none", k(0)), sub: fmt.Sprintf("gradient of operand %d", i), pieces: each(1, func(int64) *Expr { return eMul(biggest(es, i), el("gy", 0)) })})
			}
		}
		return want
	})
	sparse()
}

// sorted models sorting of short lists: every comparison may come out either
// way.
func (p *Path) sorted(fn *ssa.Function, args []Value) (ok bool) {
	v := args[0]
	if i, is := v.(*Iface); is {
		v = i.V
	}
	s, is := v.(Slice)
	if !is || s.A == nil {
		return false
	}
	n, known := p.F.norm(s.Len).isConst()
	if !known || n > 4 {
		return false
	}
	less := func(i, j int64) bool {
		b, ok := p.callValue(args[1], []Value{pConst(i), pConst(j)}, nil, nil).(*BoolV)
		if !ok {
			p.unsupported("a comparison that is not known")
		}
		return p.decide(b)
	}
	for i := int64(1); i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			a, b := p.loadElem(s, pConst(j)), p.loadElem(s, pConst(j-1))
			p.storePtr(p.elemPtr(s, j), b)
			p.storePtr(p.elemPtr(s, j-1), a)
		}
	}
	return true
}

func sparse() {
	k := eConst
	el := func(name string, i int) *Expr { return eRef(name, pConst(int64(i))) }
	pos := func(e *Expr) *Expr { return eIte(e, e, k(0)) }
	// tau is the biggest of (sum of a subset - 1) / its size
	tau := func(n int) *Expr {
		var t *Expr
		for m := 1; m < 1<<n; m++ {
			s, size := k(-1), 0
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					s = eAdd(s, el("x", i))
					size++
				}
			}
			s = eScale(s, 1/float64(size))
			if t == nil {
				t = s
			} else {
				t = eIte(eSub(s, t), s, t)
			}
		}
		return t
	}
	each := func(n int, f func(i int) *Expr) (l []valPiece) {
		for i := 0; i < n; i++ {
			l = append(l, valPiece{idx: pConst(int64(i)), want: f(i)})
		}
		return
	}
	shapes := [][2]int64{{1, 1}, {2, 1}, {1, 2}, {3, 1}}
	composedOver("grad/SparseMax", []int{0, 1, 2}, func(c *comp) []compWant {
		s := shapes[c.k]
		n := int(s[0] * s[1])
		t := tau(n)
		in := func(i int) *Expr { return eIte(eSub(el("x", i), t), k(1), k(0)) }
		x := c.mat("x", pConst(s[0]), pConst(s[1]))
		return c.delivered("NewSparseMax", []Value{x}, []Value{x}, each(n, func(i int) *Expr { return pos(eSub(el("x", i), t)) }), [][]valPiece{each(n, func(i int) *Expr {
			g, m := k(0), k(0)
			for j := 0; j < n; j++ {
				g, m = eAdd(g, eMul(in(j), el("gy", j))), eAdd(m, in(j))
			}
			return eMul(in(i), eSub(el("gy", i), eDiv(g, m)))
		})})
	})
	composedOver("grad/SparseMaxLoss", []int{0, 1, 2}, func(c *comp) []compWant {
		s := shapes[c.k]
		n := int(s[0] * s[1])
		t := tau(n)
		reg, gsum := k(0.5), k(0)
		for i := 0; i < n; i++ {
			x := el("x", i)
			reg = eAdd(reg, eIte(eSub(x, t), eScale(eSub(eMul(x, x), eMul(t, t)), 0.5), k(0)))
			gsum = eAdd(gsum, el("gy", i))
		}
		x := c.mat("x", pConst(s[0]), pConst(s[1]))
		return c.delivered("NewSparseMaxLoss", []Value{x}, []Value{x}, each(n, func(i int) *Expr { return eSub(el("x", i), reg) }), [][]valPiece{each(n, func(i int) *Expr {
			return eSub(el("gy", i), eMul(pos(eSub(el("x", i), t)), gsum))
		})})
	})
}

func (p *Path) elemPtr(s Slice, i int64) Value {
	if s.A.isFloat {
		return &FloatElem{s.A, pAdd(s.Off, pConst(i))}
	}
	return p.elemLoc(s.A, pAdd(s.Off, pConst(i)))
}

// cumulated puts the sums of a short list.
func (p *Path) cumulated(d, s Value) {
	x, ok1 := d.(Slice)
	y, ok2 := s.(Slice)
	if !p.I.sorts || !ok1 || !ok2 || x.A == nil || y.A == nil || x.A == y.A {
		return
	}
	n, known := p.F.norm(y.Len).isConst()
	if !known || n > 4 {
		return
	}
	sum := eConst(0)
	for i := int64(0); i < n; i++ {
		sum = eAdd(sum, p.loadTerm(y.A, pAdd(y.Off, pConst(i))))
		p.storeTerm(x.A, pAdd(x.Off, pConst(i)), sum)
	}
}

// implied decides comparisons that follow from those the path made.
func (p *Path) implied(e *Expr) *Expr {
	if e == nil || !p.I.sorts {
		return e
	}
	known := map[string]bool{}
	var ks []*Expr
	add := func(d *Expr) {
		if d != nil && !known[d.key()] {
			known[d.key()] = true
			ks = append(ks, d)
		}
	}
	for _, k := range p.takenSides() {
		add(k)
	}
	if len(ks) == 0 {
		return e
	}
	var ks0 []*Expr
	for _, k := range ks {
		ks0 = append(ks0, unscaled(k))
	}
	for from, n := 0, len(ks); from < n && n < 40; from, n = n, len(ks) {
		for i := range ks[:n] {
			for j := range ks[:i] {
				if s := eAdd(ks[i], ks[j]); s != nil && len(s.t) <= len(ks[i].t) {
					add(s)
				}
			}
		}
	}
	return e.mapAtoms(func(a *eAtom) (*Expr, bool) {
		if a.kind != "pos" {
			return nil, true
		}
		d := a.args[0]
		for _, x := range []float64{1, 0.5, 1.0 / 3, 2, 3} {
			switch {
			case known[eScale(d, x).key()]:
				return eConst(1), false
			case known[eScale(d, -x).key()]:
				return eConst(0), false
			}
		}
		steps := 4000
		d = unscaled(d)
		if addsUp(d, ks0, &steps) {
			return eConst(1), false
		}
		steps = 4000
		if addsUp(eScale(d, -1), ks0, &steps) {
			return eConst(0), false
		}
		return nil, true
	})
}

// takenSides are the terms the path found to be positive.
func (p *Path) takenSides() (ks []*Expr) {
	for _, l := range p.T.conds {
		switch {
		case l.c.d == nil || l.c.eq:
		case l.v != l.c.neg:
			ks = append(ks, l.c.d)
		default:
			ks = append(ks, eScale(l.c.d, -1))
		}
	}
	return ks
}

// unscaled is a term times what makes its smallest coefficient 1.
func unscaled(e *Expr) *Expr {
	least := math.Inf(1)
	for _, m := range e.t {
		if m.c != 0 {
			least = math.Min(least, math.Abs(m.c))
		}
	}
	if math.IsInf(least, 0) {
		return e
	}
	return eScale(e, 1/least)
}

// consistent ends paths whose comparisons contradict each other.
func (p *Path) consistent() {
	ks := p.takenSides()
	for i := range ks {
		ks[i] = unscaled(ks[i])
	}
	for i, k := range ks {
		steps := 4000
		if addsUp(eScale(k, -1), append(append([]*Expr(nil), ks[:i]...), ks[i+1:]...), &steps) {
			panic(endPath{kind: "infeasible"})
		}
	}
}

// addsUp says whether d is a sum of terms known to be positive: one of them
// has each term of d that the others do not cancel.
func addsUp(d *Expr, ks []*Expr, steps *int) bool {
	if d == nil {
		return false
	}
	var first *emono
	for _, m := range d.t {
		if m.c != 0 && (first == nil || m.key < first.key) {
			first = m
		}
	}
	if first == nil {
		return true
	}
	for i, k := range ks {
		if *steps--; *steps < 0 {
			return false
		}
		m := k.t[first.key]
		if m == nil || (m.c > 0) != (first.c > 0) {
			continue
		}
		rest := append(append(make([]*Expr, 0, len(ks)), ks[:i]...), ks[i+1:]...)
		if addsUp(eSub(d, k), rest, steps) {
			return true
		}
	}
	return false
}

// truth is 1 or 0.
func (c *comp) truth(v Value) Value {
	b, ok := v.(*BoolV)
	if !ok {
		c.p.unsupported("not a boolean")
	}
	if c.p.decide(b) {
		return c.number("true", eConst(1))
	}
	return c.number("false", eConst(0))
}
