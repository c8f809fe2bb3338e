package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const gradfnPath = modPath + "/mat/gradfn"
const matPath = modPath + "/mat"

// opUnit is one differentiable function constructor under analysis.
type opUnit struct {
	name string
	ctor *ssa.Function
	res  types.Type
}

// findOps enumerates the differentiable functions of package gradfn: every
// exported package-level function returning a type with Operands, Forward and
// Backward methods.
func findOps(P *Program) []*opUnit {
	var out []*opUnit
	seen := map[string]bool{}
	for fn := range P.All() {
		if fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		pk := pkgOf(fn)
		if pk == nil || pk.Path() != gradfnPath || fn.Blocks == nil {
			continue
		}
		f := fn
		if o := fn.Origin(); o != nil {
			f = o
		} else if fn.Signature.TypeParams().Len() > 0 {
			continue
		}
		if f.TypeParams().Len() > 0 && fn.Origin() == nil {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || fn.Signature.Results().Len() != 1 {
			continue
		}
		// instances at the interface type only
		ok := true
		for _, ta := range fn.TypeArgs() {
			if _, isI := ta.Underlying().(*types.Interface); !isI {
				ok = false
			}
			if _, isTP := types.Unalias(ta).(*types.TypeParam); isTP {
				ok = false
			}
			if nameOfType(ta) != "Tensor" {
				ok = false
			}
		}
		if !ok {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		if !isFunctionType(P, rt) {
			continue
		}
		n := f.Name()
		if seen[n] {
			continue
		}
		seen[n] = true
		out = append(out, &opUnit{name: n, ctor: fn, res: rt})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func isFunctionType(P *Program, t types.Type) bool {
	ms := P.SSA.MethodSets.MethodSet(t)
	for _, m := range []string{"Operands", "Forward", "Backward"} {
		if ms.Lookup(nil, m) == nil {
			return false
		}
	}
	return true
}

// opPath is the outcome of one abstract path through
// construct → Operands → Forward → Backward.
type opPath struct {
	p        *Path
	end      *endPath
	stage    string // construct, operands, forward, backward, done
	operands []Value
	inputs   []*Operand
	y        Value
	yDims    [2]*Poly
	gy       Value
	bwErr    Value
	yAlias   string
	unitY    *FloatV
	unitGy   Unit
	ctorArgs map[string]*FloatV
	dims     map[string][2]*Poly
}

type opConfig struct {
	width   string // 32 or 64
	listLen int
	forward bool // stop behind the forward pass
}

func (I *Interp) driver(name string) *ssa.Function {
	pk := I.P.ssaPkg(matPath)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// reach visits every storage object reachable from v.
func (p *Path) reach(v Value, loc func(*Loc), arr func(*Arr)) {
	seen := map[interface{}]bool{}
	var walk func(v Value)
	var walkLoc func(l *Loc)
	walkArr := func(a *Arr) {
		if a == nil || seen[a] {
			return
		}
		seen[a] = true
		arr(a)
		for _, l := range a.locs {
			walkLoc(l)
		}
	}
	walkLoc = func(l *Loc) {
		if l == nil || seen[l] {
			return
		}
		seen[l] = true
		loc(l)
		for _, k := range l.kids {
			walkLoc(k)
		}
		walk(l.v)
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case *Iface:
			walk(x.V)
		case *Loc:
			walkLoc(x)
		case Slice:
			walkArr(x.A)
		case *StructV:
			for _, f := range x.F {
				walk(f)
			}
		case *ArrayV:
			for _, f := range x.F {
				walk(f)
			}
		case *FloatElem:
			walkArr(x.A)
		case Tuple:
			for _, f := range x {
				walk(f)
			}
		case *Closure:
			for _, f := range x.Bind {
				walk(f)
			}
		}
	}
	walk(v)
}

// own gives all storage reachable from v to an owner.
func (p *Path) setOwner(v Value, o *Owner) {
	p.reach(v, func(l *Loc) {
		if l.parent == nil && l.arr == nil {
			l.own = o
		}
	}, func(a *Arr) { a.own = o })
}

// newMatrix builds a symbolic matrix through the library's own constructor.
func (p *Path) newMatrix(width string, rows, cols *Poly, o *Owner, unit Unit) Value {
	fn := p.I.driver("spagoverifDense" + width)
	if fn == nil {
		p.unsupported("no matrix constructor")
	}
	v := p.call(fn, []Value{rows, cols}, nil)
	p.setOwner(v, o)
	p.reach(v, func(*Loc) {}, func(a *Arr) {
		if a.isFloat {
			a.set = true
			a.u = unit
			a.dep = depOf(o.name)
			if p.I.terms {
				a.e = eEl(o.name)
			}
		}
	})
	if p.I.terms {
		if p.T.shapes == nil {
			p.T.shapes = map[string][2]*Poly{}
		}
		p.T.shapes[o.name] = [2]*Poly{rows, cols}
	}
	return v
}

func (p *Path) newOperand(width, name string) *Operand {
	o := &Operand{name: name}
	d0 := pAtom(name + ".rows")
	d1 := pAtom(name + ".cols")
	own := &Owner{kind: "operand", name: name}
	// tensors are not empty
	p.F.addGE(pSub(d0, pConst(1)))
	p.F.addGE(pSub(d1, pConst(1)))
	o.val = p.newMatrix(width, d0, d1, own, p.U.fresh("["+name+"]", true))
	return o
}

// dimsOf asks a tensor for its shape.
func (p *Path) dimsOf(v Value) ([2]*Poly, bool) {
	var r [2]*Poly
	sv := p.callNamed(v, "Shape")
	s, ok := sv.(Slice)
	if !ok || s.A == nil {
		return r, false
	}
	if n, c := p.F.norm(s.Len).isConst(); !c || n != 2 {
		return r, false
	}
	for i := 0; i < 2; i++ {
		d, ok := p.loadElem(s, pConst(int64(i))).(*Poly)
		if !ok {
			return r, false
		}
		r[i] = p.F.norm(d)
	}
	return r, true
}

func (p *Path) sizeOf(v Value) (*Poly, bool) {
	d, ok := p.callNamed(v, "Size").(*Poly)
	if !ok {
		return nil, false
	}
	return p.F.norm(d), true
}

// callNamed calls a method by name on an interface value.
func (p *Path) callNamed(v Value, name string, args ...Value) Value {
	switch x := v.(type) {
	case *Iface:
		fn := p.I.methodNamed(x.T, pkgOfType(x.T), name)
		if fn == nil {
			p.unsupported("no method %s on %s", name, x.T)
		}
		return p.call(fn, append([]Value{x.V}, args...), nil)
	case *Operand:
		return p.callNamed(x.val, name, args...)
	case NilV:
		p.end("panic", "nil tensor")
	}
	p.unsupported("call %s on %T", name, v)
	return nil
}

func pkgOfType(t types.Type) *types.Package {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// floatArrOf returns the element summary of a matrix.
func (p *Path) floatOf(v Value) *FloatV {
	if i, ok := v.(*Iface); ok && p.I.methodNamed(i.T, pkgOfType(i.T), "Data") == nil {
		f, _ := p.callNamed(v, "F64").(*FloatV)
		return f
	}
	// data reachable through Data()
	dv := p.callNamed(v, "Data")
	var r *FloatV
	p.reach(dv, func(*Loc) {}, func(a *Arr) {
		if a.isFloat && r == nil {
			r = p.loadPtr(&FloatElem{a, pConst(0)}).(*FloatV)
		}
	})
	if r == nil {
		return &FloatV{poly: true}
	}
	return r
}

func isTensorT(t types.Type) bool {
	n := nameOfType(t)
	return n == "Tensor" || n == "Matrix"
}

// runOp interprets one constructor end to end. The interpretation is a
// sequence of calls a graph makes: construct, Operands, Forward, Backward with
// a gradient shaped like the result.
func (I *Interp) runOp(u *opUnit, cfg opConfig, reset func(), visit func(*opPath)) (int, bool) {
	var cur *opPath
	paths := map[*Path]*opPath{}
	body := func(p *Path) *endPath {
		op := &opPath{p: p, stage: "construct", ctorArgs: map[string]*FloatV{}}
		cur = op
		paths[p] = op
		p.phase = "construct"
		sig := u.ctor.Signature
		var args []Value
		for i := 0; i < sig.Params().Len(); i++ {
			pv := sig.Params().At(i)
			name := pv.Name()
			t := pv.Type()
			switch {
			case isTensorT(t):
				o := p.newOperand(cfg.width, name)
				op.inputs = append(op.inputs, o)
				args = append(args, o)
			case isFloatT(t):
				f := &FloatV{u: p.U.fresh("["+name+"]", true), dep: depOf(name)}
				if I.terms {
					f.e = eSc(name)
				}
				op.ctorArgs[name] = f
				args = append(args, f)
			case isIntT(t):
				a := name
				args = append(args, pAtom(a))
			default:
				if s, ok := t.Underlying().(*types.Slice); ok {
					n := int64(cfg.listLen)
					a := p.newArr(s.Elem(), pConst(n), name, &Owner{kind: "arg", name: name})
					for j := int64(0); j < n; j++ {
						nm := fmt.Sprintf("%s[%d]", name, j)
						l := p.elemLoc(a, pConst(j))
						if isTensorT(s.Elem()) {
							o := p.newOperand(cfg.width, nm)
							op.inputs = append(op.inputs, o)
							l.v = o
						} else if isIntT(s.Elem()) {
							l.v = pAtom(nm)
						} else {
							l.v = p.fresh(s.Elem(), nm)
						}
					}
					if n == 0 {
						args = append(args, Slice{nil, pConst(0), pConst(0), pConst(0)})
					} else {
						args = append(args, Slice{a, pConst(0), pConst(n), pConst(n)})
					}
					continue
				}
				args = append(args, p.fresh(t, name))
			}
		}
		f := p.call(u.ctor, args, nil)
		recv := &Iface{T: u.res, V: f}
		op.stage = "operands"
		p.phase = "operands"
		ops, ok := p.callNamed(recv, "Operands").(Slice)
		if !ok {
			p.unsupported("Operands() result")
		}
		n, c := p.F.norm(ops.Len).isConst()
		if !c {
			p.unsupported("Operands() has symbolic length %s", ops.Len.key())
		}
		for i := int64(0); i < n; i++ {
			op.operands = append(op.operands, p.loadElem(ops, pConst(i)))
		}
		op.stage = "forward"
		p.phase = "forward"
		r, ok := p.callNamed(recv, "Forward").(Tuple)
		if !ok || len(r) != 2 {
			p.unsupported("Forward() result")
		}
		if isn, known := p.isNil(r[1]); !known || !isn {
			if !known {
				if !p.decide(p.eqVals(r[1], NilV{})) {
					return &endPath{"error", "forward error", ""}
				}
			} else {
				return &endPath{"error", "forward error", ""}
			}
		}
		op.y = r[0]
		p.phase = "post"
		p.protect = true
		op.stage = "result"
		d, ok := p.dimsOf(op.y)
		if !ok {
			p.unsupported("shape of the result")
		}
		op.yDims = d
		op.unitY = p.floatOf(op.y)
		// does the result share storage with an operand?
		owners := map[string]bool{}
		p.reach(op.y, func(l *Loc) {
			if o := l.owner(); o.kind == "operand" {
				owners[o.name] = true
			}
		}, func(a *Arr) {
			if a.own != nil && a.own.kind == "operand" {
				owners[a.own.name] = true
			}
		})
		for o := range owners {
			op.yAlias += o + " "
		}
		p.setOwner(op.y, &Owner{kind: "result", name: "y"})
		if cfg.forward {
			return nil
		}
		op.unitGy = p.U.fresh("[gy]", true)
		gy := p.newMatrix(cfg.width, d[0], d[1], &Owner{kind: "grad", name: "gy"}, op.unitGy)
		op.gy = gy
		p.protect = false
		op.stage = "backward"
		p.phase = "backward"
		// the interface wrapping of a gradient is the concrete matrix
		op.bwErr = p.callNamed(recv, "Backward", gy)
		isn, known := p.isNil(op.bwErr)
		if !known {
			isn = p.decide(p.eqVals(op.bwErr, NilV{}))
		}
		if !isn {
			return &endPath{"error", "backward error", ""}
		}
		op.stage = "done"
		// shapes of the delivered gradients and of the operands
		p.phase = "post"
		p.protect = true
		return nil
	}
	n, complete := I.explore(fmt.Sprintf("%s/%s/%d", u.name, cfg.width, cfg.listLen), func() {
		paths = map[*Path]*opPath{}
		if reset != nil {
			reset()
		}
	}, body, func(p *Path, e *endPath) {
		op := paths[p]
		op.end = e
		delete(paths, p)
		visit(op)
	})
	_ = cur
	return n, complete
}

// accShape computes the shapes of a delivered gradient and of its target.
func (op *opPath) accShape(e Event) (g, t [2]*Poly, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(endPath); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	p := op.p
	p.stack = nil
	p.protect = true
	g, ok = p.dimsOf(e.Val)
	if !ok {
		return
	}
	for _, o := range op.inputs {
		if o.name == e.Name {
			t, ok = p.dimsOf(o.val)
			return
		}
	}
	return g, t, false
}

func hasList(u *opUnit) (bool, bool) {
	sig := u.ctor.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok {
			return true, sig.Variadic()
		}
	}
	return false, false
}

func (u *opUnit) configs(maxList int) []opConfig {
	lens := []int{0}
	if l, _ := hasList(u); l {
		lens = nil
		for i := 0; i <= maxList; i++ {
			lens = append(lens, i)
		}
	}
	var out []opConfig
	for _, w := range []string{"32", "64"} {
		for _, l := range lens {
			out = append(out, opConfig{w, l, false})
		}
	}
	return out
}

func stackShort(s string) string {
	parts := strings.Split(s, " > ")
	if len(parts) > 4 {
		parts = parts[len(parts)-4:]
	}
	return strings.Join(parts, " > ")
}
