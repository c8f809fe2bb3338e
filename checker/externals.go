package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extName is the full name of a function without type arguments.
func extName(fn *ssa.Function) string {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	if obj, ok := f.Object().(*types.Func); ok {
		return obj.FullName()
	}
	return f.String()
}

func allowExternalBody(fn *ssa.Function) bool { return false }

// special handles calls by shape rather than by name.
func (p *Path) special(fn *ssa.Function, args []Value) (Value, bool) {
	if k, ok := kernelContracts[extName(fn)]; ok {
		return k.apply(p, fn, args), true
	}
	if fn.Name() == "spagoverifCancel" {
		p.event(Event{Kind: "cancel", Args: args})
		return nil, true
	}
	if fn.Name() == "spagoverifStep" {
		// a step of a strategy of the driver: it may fail
		fails := p.choose("the step fails", 2) == 1
		p.event(Event{Kind: "step", Args: args, Extra: fmt.Sprint(fails)})
		if fails {
			return &Opaque{id: p.nid(), T: fn.Signature.Results().At(0).Type(), name: "error", nonnil: true}, true
		}
		return NilV{}, true
	}
	return nil, false
}

type extFn func(p *Path, fn *ssa.Function, args []Value) Value

func extNop(p *Path, fn *ssa.Function, args []Value) Value {
	return p.freshResult(fn.Signature, fn.Name())
}

func extErr(p *Path, fn *ssa.Function, args []Value) Value {
	return &Opaque{id: p.nid(), T: fn.Signature.Results().At(0).Type(), name: "error", nonnil: true}
}

func extFatal(p *Path, fn *ssa.Function, args []Value) Value {
	p.end("fatal", fn.Name())
	return nil
}

func fl1(f func(p *Path, x *FloatV) *FloatV) extFn {
	return func(p *Path, fn *ssa.Function, args []Value) Value {
		x := p.toFloat(args[0])
		r := f(p, x)
		if p.I.terms {
			n := *r
			n.e = fnTerm(fn.Name(), x.e)
			return &n
		}
		return r
	}
}

// dimensionless argument and result
var flTrans = fl1(func(p *Path, x *FloatV) *FloatV {
	if !x.poly {
		p.equate(x.u, nil, "transcendental argument")
	}
	return &FloatV{dep: x.dep}
})
var flSame = fl1(func(p *Path, x *FloatV) *FloatV { return &FloatV{u: x.u, poly: x.poly, dep: x.dep} })

func flMinMax(p *Path, fn *ssa.Function, args []Value) Value {
	a, b := p.toFloat(args[0]), p.toFloat(args[1])
	d := depJoin(a.dep, b.dep)
	e := minMaxTerm(fn.Name() == "Max", a.e, b.e)
	if a.poly {
		return &FloatV{u: b.u, poly: b.poly, dep: d, e: e}
	}
	if b.poly {
		return &FloatV{u: a.u, dep: d, e: e}
	}
	p.equate(a.u, b.u, "min/max")
	return &FloatV{u: a.u, dep: d, e: e}
}

var externals = map[string]extFn{}

func init() {
	for _, n := range []string{"Exp", "Exp2", "Expm1", "Log", "Log2", "Log10", "Log1p", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Asin", "Acos", "Atan", "Asinh", "Acosh", "Atanh", "Erf", "Erfc", "Gamma"} {
		externals["math."+n] = flTrans
	}
	for _, n := range []string{"Abs", "Floor", "Ceil", "Trunc", "Round"} {
		externals["math."+n] = flSame
	}
	externals["math.Max"] = flMinMax
	externals["math.Min"] = flMinMax
	externals["math.Sqrt"] = fl1(func(p *Path, x *FloatV) *FloatV {
		return &FloatV{u: uScale(x.u, ratHalf), poly: x.poly, dep: x.dep}
	})
	externals["math.Inf"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		s := 1
		if c, ok := p.intVal(args[0]).isConst(); ok && c < 0 {
			s = -1
		}
		f := math.Inf(s)
		return &FloatV{poly: true, c: &f, e: eScale(eSc(infName), float64(s))}
	}
	externals["math.NaN"] = func(p *Path, fn *ssa.Function, args []Value) Value { return &FloatV{poly: true} }
	externals["math.Pow"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		x, y := p.toFloat(args[0]), p.toFloat(args[1])
		d := depJoin(x.dep, y.dep)
		e := ePowE(x.e, y.e)
		if y.c != nil {
			return &FloatV{u: uScale(x.u, ratOf(*y.c)), dep: d, e: e}
		}
		if !y.poly {
			p.equate(y.u, nil, "exponent")
		}
		if len(p.U.norm(x.u)) == 0 {
			return &FloatV{dep: d, e: e}
		}
		return &FloatV{u: p.U.fresh("pow", false), dep: d, e: e}
	}
	externals["math.Copysign"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		x, y := p.toFloat(args[0]), p.toFloat(args[1])
		r := &FloatV{u: x.u, dep: depJoin(x.dep, y.dep)}
		if p.I.terms {
			a := fnTerm("Abs", x.e)
			r.e = eIte(y.e, a, eScale(a, -1))
		}
		return r
	}
	externals["math.Mod"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		x, y := p.toFloat(args[0]), p.toFloat(args[1])
		r := &FloatV{u: x.u, poly: x.poly, dep: depJoin(x.dep, y.dep)}
		if p.I.terms {
			r.e = eSub(x.e, eMul(y.e, fnTerm("Trunc", eDiv(x.e, y.e))))
		}
		return r
	}
	externals["math.Hypot"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		x, y := p.toFloat(args[0]), p.toFloat(args[1])
		p.equate(x.u, y.u, "hypotenuse")
		return &FloatV{u: x.u, dep: depJoin(x.dep, y.dep), e: ePow(eAdd(eMul(x.e, x.e), eMul(y.e, y.e)), 0.5)}
	}
	externals["math.FMA"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		x, y, z := p.toFloat(args[0]), p.toFloat(args[1]), p.toFloat(args[2])
		return p.floatOp(token.ADD, p.toFloat(p.floatOp(token.MUL, x, y)), z)
	}
	for _, n := range []string{"context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause"} {
		externals[n] = func(p *Path, fn *ssa.Function, args []Value) Value {
			ctx := &Opaque{id: p.nid(), T: fn.Signature.Results().At(0).Type(), name: "context", nonnil: true}
			var c *ssa.Function
			if pk := p.I.P.ssaPkg(optPath); pk != nil {
				c = pk.Func("spagoverifCancel")
			}
			if c == nil {
				return p.freshResult(fn.Signature, fn.Name())
			}
			return Tuple{ctx, &Closure{Fn: c}}
		}
	}
	for _, n := range []string{"fmt.Errorf", "errors.New", "errors.Join"} {
		externals[n] = extErr
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf"} {
		externals[n] = extFatal
	}
	externals["reflect.ValueOf"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		return &Iface{T: fn.Signature.Results().At(0).Type(), V: args[0]}
	}
	externals["(reflect.Value).Kind"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		return pConst(22) // pointer
	}
	externals["(reflect.Value).IsNil"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		v := args[0]
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		n, ok := p.isNil(v)
		if ok {
			return vBool(n)
		}
		return &BoolV{kind: bOpaque, key: fmt.Sprintf("isnil?%d", p.nid())}
	}
	externals["(reflect.Value).IsValid"] = func(p *Path, fn *ssa.Function, args []Value) Value { return vBool(true) }
	// call-through helpers
	callArg := func(i int) extFn {
		return func(p *Path, fn *ssa.Function, args []Value) Value {
			p.callValue(args[i], nil, nil, nil)
			return nil
		}
	}
	externals["(*sync.Once).Do"] = callArg(1)
	externals["(*sync.WaitGroup).Go"] = callArg(1)
	externals["(*sync.WaitGroup).Wait"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		for _, c := range p.chans {
			c.sure = len(c.buf)
		}
		return nil
	}
	externals["sort.Slice"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		if p.I.sorts && p.sorted(fn, args) {
			return nil
		}
		v := args[0]
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		if s, ok := v.(Slice); ok && s.A != nil {
			p.noteWrite(s.A.own, "sorted in place")
			s.A.symW = true
		}
		return nil
	}
	externals["sort.SliceStable"] = externals["sort.Slice"]
	srt := func(p *Path, fn *ssa.Function, args []Value) Value {
		v := args[0]
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		if s, ok := v.(Slice); ok && s.A != nil {
			p.noteWrite(s.A.own, "sorted in place")
			s.A.symW = true
		}
		return nil
	}
	for _, n := range []string{"sort.Float64s", "sort.Ints", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse"} {
		externals[n] = srt
	}
	externals["slices.Clone"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		s, ok := args[0].(Slice)
		if !ok || s.A == nil {
			return args[0]
		}
		na := p.newArr(s.A.elem, s.Len, p.site(), localOwner)
		r := Slice{na, pConst(0), s.Len, s.Len}
		p.doCopy(r, s)
		return r
	}
	externals["slices.Equal"] = func(p *Path, fn *ssa.Function, args []Value) Value {
		a, ok1 := args[0].(Slice)
		b, ok2 := args[1].(Slice)
		if !ok1 || !ok2 {
			return &BoolV{kind: bOpaque, key: fmt.Sprintf("sliceseq?%d", p.nid())}
		}
		la, c1 := p.F.norm(a.Len).isConst()
		lb, c2 := p.F.norm(b.Len).isConst()
		if !c1 || !c2 {
			return &BoolV{kind: bOpaque, key: fmt.Sprintf("sliceseq?%d", p.nid())}
		}
		if la != lb {
			return vBool(false)
		}
		for i := int64(0); i < la; i++ {
			if !p.decide(p.eqVals(p.loadElem(a, pConst(i)), p.loadElem(b, pConst(i)))) {
				return vBool(false)
			}
		}
		return vBool(true)
	}
}

// external is a function without a body in the module.
func (p *Path) external(fn *ssa.Function, args []Value) Value {
	pk := pkgOf(fn)
	if inModule(pk) && fn.Blocks == nil {
		p.unsupported("function without Go body and without contract: %s", extName(fn))
	}
	n := extName(fn)
	if strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
		p.event(Event{Kind: "sync", Name: n, Args: args})
	}
	res := p.freshResult(fn.Signature, fn.Name())
	// results of external float functions depend on float arguments
	var d *depSet
	for _, a := range args {
		if f, ok := a.(*FloatV); ok {
			d = depJoin(d, f.dep)
		}
	}
	if f, ok := res.(*FloatV); ok {
		if pk != nil && pk.Path() == "math/rand" {
			return &FloatV{}
		}
		return &FloatV{u: f.u, dep: d}
	}
	return res
}

// ---- kernel contracts ----------------------------------------------------

// kernelContract is the interface contract of a vector kernel: which slice
// arguments it writes, which lengths it relies on, and how dimensions flow.
type kernelContract struct {
	name  string
	apply func(p *Path, fn *ssa.Function, args []Value) Value
}

var kernelContracts = map[string]*kernelContract{}

func kArr(v Value) *Arr {
	if s, ok := v.(Slice); ok {
		return s.A
	}
	return nil
}

func kLen(v Value) *Poly {
	if s, ok := v.(Slice); ok {
		return s.Len
	}
	return pConst(0)
}

func (p *Path) kwhole(kind string, v Value) {
	if s, ok := v.(Slice); ok && s.A != nil && !p.kassume {
		p.span(kind, "kernel", s.A, s.Off, pAdd(s.Off, s.Len))
	}
}

func kElem(p *Path, v Value) *FloatV {
	a := kArr(v)
	if a == nil {
		return &FloatV{poly: true}
	}
	p.kwhole("read", v)
	return p.kFirst(v)
}

// kFirst is the abstract element of a slice.
func (p *Path) kFirst(v Value) *FloatV {
	a := kArr(v)
	if a == nil {
		return &FloatV{poly: true}
	}
	old := p.kspan
	p.kspan = false
	defer func() { p.kspan = old }()
	f := *p.loadPtr(&FloatElem{a, pConst(0)}).(*FloatV)
	f.e = p.kernelTerm(v)
	return &f
}

func kPut(p *Path, v Value, f *FloatV) {
	a := kArr(v)
	if a == nil {
		return
	}
	if p.kassume {
		p.kouts[a] = true
		return
	}
	p.noteWrite(a.own, "element data (kernel output)")
	p.kwhole("wrote", v)
	if s := v.(Slice); p.F.eqZero(s.Off) == 1 && p.F.eqZero(pSub(s.Len, a.length)) == 1 {
		p.arrReplace(a, f)
		p.setTerm(a, f.e)
		return
	}
	e := a.e
	p.arrPut(a, f)
	if !p.I.terms {
		return
	}
	a.e = e
	if p.merging > 0 {
		p.spoil("elements written by a kernel in a branch")
	}
	p.addPatch(a, v.(Slice).Off, f.e, v.(Slice).Len)
}

type lenReq struct {
	what string
	got  *Poly // must be >= 0
}

func (p *Path) kernelReq(name string, reqs ...lenReq) {
	for _, r := range reqs {
		if p.kassume {
			p.F.addGE(r.got)
			continue
		}
		x := "ok"
		if !p.F.geZero(p.F.norm(r.got)) {
			x = "unproved: " + r.what + " (" + p.F.norm(r.got).key() + " >= 0)"
			old := p.F
			p.F = p.F.clone()
			p.F.addGE(pSub(pScale(r.got, -1), pConst(1)))
			w, found, unk := p.witness(r.got)
			p.F = old
			if found && !unk {
				x = "violated: " + r.what + ", for example with " + witnessText(w)
			}
		}
		p.event(Event{Kind: "kernel", Name: name, Extra: x})
	}
}

func atLeast(what string, have, need *Poly) lenReq { return lenReq{what, pSub(have, need)} }

func init() {
	mf := modPath + "/mat/internal/matfuncs."
	reg := func(name string, f func(p *Path, nm string, a []Value) Value) {
		short := name[strings.LastIndex(name, "/")+1:]
		kernelContracts[name] = &kernelContract{name: short, apply: func(p *Path, fn *ssa.Function, args []Value) Value {
			return f(p, short, args)
		}}
	}
	mulF := func(a, b *FloatV) *FloatV {
		d := depJoin(a.dep, b.dep)
		e := eMul(a.e, b.e)
		if a.poly && a.c == nil || b.poly && b.c == nil {
			return &FloatV{poly: true, dep: d, e: e}
		}
		return &FloatV{u: uAdd(a.u, b.u, 1), dep: d, e: e}
	}
	// an assembly variant obeys the contract of the function it implements
	variants := func(n, w string, f func(p *Path, nm string, a []Value) Value) {
		reg(mf+n+w, f)
		reg(mf+n+"AVX"+w, f)
		reg(mf+n+"SSE"+w, f)
	}
	for _, w := range []string{"32", "64"} {
		for _, n := range []string{"Add", "Sub", "Div"} {
			n := n
			variants(n, w, func(p *Path, nm string, a []Value) Value {
				// element i of every argument for i < len(first)
				p.kernelReq(nm, atLeast("len(x2) >= len(x1)", kLen(a[1]), kLen(a[0])), atLeast("len(y) >= len(x1)", kLen(a[2]), kLen(a[0])), atLeast("len(x1) >= len(y)", kLen(a[0]), kLen(a[2])))
				x, y := kElem(p, a[0]), kElem(p, a[1])
				d := depJoin(x.dep, y.dep)
				e := opTerm(map[string]token.Token{"Add": token.ADD, "Sub": token.SUB, "Div": token.QUO}[n], x.e, y.e)
				if n == "Div" {
					if x.poly {
						kPut(p, a[2], &FloatV{poly: true, dep: d, e: e})
					} else {
						kPut(p, a[2], &FloatV{u: uAdd(x.u, y.u, -1), dep: d, e: e})
					}
					return nil
				}
				switch {
				case x.poly:
					kPut(p, a[2], &FloatV{u: y.u, poly: y.poly, dep: d, e: e})
				case y.poly:
					kPut(p, a[2], &FloatV{u: x.u, dep: d, e: e})
				default:
					p.equate(x.u, y.u, "matrix sum")
					kPut(p, a[2], &FloatV{u: x.u, dep: d, e: e})
				}
				return nil
			})
		}
		variants("AddConst", w, func(p *Path, nm string, a []Value) Value {
			p.kernelReq(nm, atLeast("len(y) >= len(x)", kLen(a[2]), kLen(a[1])), atLeast("len(x) >= len(y)", kLen(a[1]), kLen(a[2])))
			mark := p.readMark(a[2])
			c, x := p.toFloat(a[0]), kElem(p, a[1])
			d := depJoin(c.dep, x.dep)
			e := eAdd(c.e, x.e)
			if p.sameSlice(a[1], a[2]) && p.I.terms {
				acc := p.axpyTerm(a[2], c.e, mark)
				defer func() {
					if ar := kArr(a[2]); ar != nil && !p.kassume {
						ar.e = acc
					}
				}()
			}
			switch {
			case c.poly:
				kPut(p, a[2], &FloatV{u: x.u, poly: x.poly, dep: d, e: e})
			case x.poly:
				kPut(p, a[2], &FloatV{u: c.u, dep: d, e: e})
			default:
				p.equate(c.u, x.u, "matrix + scalar")
				kPut(p, a[2], &FloatV{u: x.u, dep: d, e: e})
			}
			return nil
		})
		variants("MulConst", w, func(p *Path, nm string, a []Value) Value {
			p.kernelReq(nm, atLeast("len(y) >= len(x)", kLen(a[2]), kLen(a[1])), atLeast("len(x) >= len(y)", kLen(a[1]), kLen(a[2])))
			kPut(p, a[2], mulF(p.toFloat(a[0]), kElem(p, a[1])))
			return nil
		})
		for _, n := range []string{"Exp", "Log"} {
			n := n
			reg(mf+n+w, func(p *Path, nm string, a []Value) Value {
				p.kernelReq(nm, atLeast("len(y) >= len(x)", kLen(a[1]), kLen(a[0])), atLeast("len(x) >= len(y)", kLen(a[0]), kLen(a[1])))
				x := kElem(p, a[0])
				if !x.poly {
					p.equate(x.u, nil, nm)
				}
				kPut(p, a[1], &FloatV{dep: x.dep, e: fnTerm(n, x.e)})
				return nil
			})
		}
		variants("Sum", w, func(p *Path, nm string, a []Value) Value {
			x := kElem(p, a[0])
			return &FloatV{u: x.u, poly: x.poly, dep: x.dep, e: eSum(x.e, cur, p.F.norm(kLen(a[0])))}
		})
		variants("DotProd", w, func(p *Path, nm string, a []Value) Value {
			p.kernelReq(nm, atLeast("len(x2) >= len(x1)", kLen(a[1]), kLen(a[0])), atLeast("len(x1) >= len(x2)", kLen(a[0]), kLen(a[1])))
			r := *mulF(kElem(p, a[0]), kElem(p, a[1]))
			r.e = p.dotTerm(a[0], a[1], r.e)
			return &r
		})
		for _, n := range []string{"Exp", "Log"} {
			for v, width := range map[string]int64{"AVX": 8, "SSE": 4} {
				width := pConst(width)
				reg(mf+n+v+w, func(p *Path, nm string, a []Value) Value {
					// one block of a fixed width
					p.kernelReq(nm, atLeast("a whole block in x", kLen(a[0]), width), atLeast("a whole block in y", kLen(a[1]), width))
					x := p.kFirst(a[0])
					if !x.poly {
						p.equate(x.u, nil, nm)
					}
					if ar := kArr(a[1]); ar != nil && !p.kassume {
						p.noteWrite(ar.own, "element data (kernel output)")
						p.arrPut(ar, &FloatV{dep: x.dep})
						p.span("wrote", nm, ar, a[1].(Slice).Off, pAdd(a[1].(Slice).Off, width))
						p.span("read", nm, kArr(a[0]), a[0].(Slice).Off, pAdd(a[0].(Slice).Off, width))
					}
					return nil
				})
			}
		}
		f := modPath + "/mat/internal/f" + w + "."
		reg(f+"MatrixMul", func(p *Path, nm string, a []Value) Value {
			m, k, n := p.intVal(a[0]), p.intVal(a[1]), p.intVal(a[2])
			p.kernelReq(nm,
				atLeast("len(a) >= aRows*aCols", kLen(a[3]), pMul(m, k)),
				atLeast("len(b) >= aCols*bCols", kLen(a[4]), pMul(k, n)),
				atLeast("len(c) >= aRows*bCols", kLen(a[5]), pMul(m, n)))
			x, y := kElem(p, a[3]), kElem(p, a[4])
			r := *mulF(x, y)
			r.e = p.mulTerm(x.e, y.e, m, k, n)
			kPut(p, a[5], &r)
			return nil
		})
		cum := func(p *Path, nm string, a []Value) Value {
			p.kernelReq(nm, atLeast("len(dst) >= len(s)", kLen(a[0]), kLen(a[1])))
			x := *kElem(p, a[1])
			x.e = nil
			kPut(p, a[0], &x)
			p.cumulated(a[0], a[1])
			return a[0]
		}
		reg(f+"CumSum", cum)
		reg(modPath+"/mat/internal/f"+w+"/asm"+w+".CumSum", cum)
		reg(modPath+"/mat/internal/f"+w+"/asm"+w+".AxpyUnitaryTo", func(p *Path, nm string, a []Value) Value {
			// dst[i] = alpha*x[i] + y[i] for i < len(x)
			p.kernelReq(nm, atLeast("len(y) >= len(x)", kLen(a[3]), kLen(a[2])), atLeast("len(dst) >= len(x)", kLen(a[0]), kLen(a[2])))
			ax := mulF(p.toFloat(a[1]), kElem(p, a[2]))
			mark := p.readMark(a[3])
			y := kElem(p, a[3])
			e := eAdd(ax.e, y.e)
			if p.sameSlice(a[0], a[3]) && p.I.terms {
				acc := p.axpyTerm(a[0], ax.e, mark)
				defer func() {
					if ar := kArr(a[0]); ar != nil && !p.kassume {
						ar.e = acc
					}
				}()
			}
			if !y.poly && !ax.poly {
				p.equate(ax.u, y.u, nm)
			}
			if ax.poly {
				ax = y
			}
			r := *ax
			r.e = e
			kPut(p, a[0], &r)
			return nil
		})
		reg(modPath+"/mat/internal/f"+w+"/asm"+w+".AxpyUnitary", func(p *Path, nm string, a []Value) Value {
			// y[i] += alpha*x[i] for i < len(x)
			p.kernelReq(nm, atLeast("len(y) >= len(x)", kLen(a[2]), kLen(a[1])))
			ax := mulF(p.toFloat(a[0]), kElem(p, a[1]))
			mark := p.readMark(a[2])
			y := kElem(p, a[2])
			if !y.poly && !ax.poly {
				p.equate(ax.u, y.u, nm)
			}
			e := p.axpyTerm(a[2], ax.e, mark)
			if ax.poly {
				ax = y
			}
			r := *ax
			r.e = nil
			kPut(p, a[2], &r)
			if ar := kArr(a[2]); ar != nil && !p.kassume {
				ar.e = e
			}
			return nil
		})
		reg(modPath+"/mat/internal/f"+w+"/asm"+w+".DotUnitary", func(p *Path, nm string, a []Value) Value {
			p.kernelReq(nm, atLeast("len(y) >= len(x)", kLen(a[1]), kLen(a[0])))
			r := *mulF(kElem(p, a[0]), kElem(p, a[1]))
			r.e = p.dotTerm(a[0], a[1], r.e)
			return &r
		})
		reg(modPath+"/mat/internal/f"+w+"/asm"+w+".GemvN", func(p *Path, nm string, a []Value) Value {
			m, n, lda := p.intVal(a[0]), p.intVal(a[1]), p.intVal(a[4])
			p.kernelReq(nm,
				atLeast("lda >= n", lda, n),
				atLeast("incX = 1", p.intVal(a[6]), pConst(1)), atLeast("incX = 1", pConst(1), p.intVal(a[6])),
				atLeast("incY = 1", p.intVal(a[9]), pConst(1)), atLeast("incY = 1", pConst(1), p.intVal(a[9])),
				atLeast("len(a) >= m*lda", kLen(a[3]), pMul(m, lda)),
				atLeast("len(x) >= n*incX", kLen(a[5]), pMul(n, p.intVal(a[6]))),
				atLeast("len(y) >= m*incY", kLen(a[8]), pMul(m, p.intVal(a[9]))))
			A, x, y := kElem(p, a[3]), kElem(p, a[5]), kElem(p, a[8])
			r := *mulF(mulF(p.toFloat(a[2]), A), x)
			r.e = nil
			if pEq(p.F.norm(lda), p.F.norm(n)) {
				r.e = eAdd(eMul(p.toFloat(a[2]).e, p.mulTerm(A.e, x.e, m, n, pConst(1))), eMul(p.toFloat(a[7]).e, y.e))
			}
			kPut(p, a[8], &r)
			return nil
		})
	}
}

var _ = big.NewRat
