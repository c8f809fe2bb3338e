package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) str(v Value) string {
	switch x := v.(type) {
	case *StrV:
		if x.c != nil {
			return *x.c
		}
		return "<string>"
	case *Iface:
		return p.str(x.V)
	case *Poly:
		return x.key()
	}
	return fmt.Sprintf("%T", v)
}

func (p *Path) boolVal(v Value) *BoolV {
	if b, ok := v.(*BoolV); ok {
		return b
	}
	return &BoolV{kind: bOpaque, key: fmt.Sprintf("b?%d", p.nid())}
}

func (p *Path) intVal(v Value) *Poly {
	if x, ok := v.(*Poly); ok {
		return x
	}
	return p.freshAtom("int", true)
}

func (p *Path) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return p.zero(t)
	}
	switch {
	case isFloatT(t):
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return floatConst(f)
	case isIntT(t):
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return pConst(i)
		}
		return pAtom("const " + c.Value.ExactString())
	case isBoolT(t):
		return vBool(constant.BoolVal(c.Value))
	case isStringT(t):
		s := constant.StringVal(c.Value)
		return &StrV{c: &s}
	}
	return p.fresh(t, "const")
}

func floatConst(f float64) *FloatV {
	a := math.Abs(f)
	v := &FloatV{poly: f == 0 || f != f || a < 1e-3 || a > 1e30, c: &f}
	if f == f && !math.IsInf(f, 0) {
		v.e = eConst(f)
	}
	return v
}

func (p *Path) val(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return p.constVal(x)
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Builtin:
		return &BuiltinV{x.Name()}
	case *ssa.Global:
		return p.global(x)
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return p.fresh(v.Type(), v.Name())
}

func (p *Path) global(g *ssa.Global) Value {
	if l, ok := p.globals[g]; ok {
		return l
	}
	pt := g.Type().Underlying().(*types.Pointer)
	l := p.newLoc(pt.Elem(), "global "+g.RelString(nil), &Owner{kind: "global", name: g.RelString(nil)})
	p.globals[g] = l
	if isAgg(pt.Elem()) {
		l.v = &Opaque{id: p.nid(), T: pt.Elem(), name: g.Name()}
		return l
	}
	if v := p.I.globalInit(g); v != nil {
		switch x := v.(type) {
		case *ssa.Function:
			l.v = &Closure{Fn: x}
		case *ssa.Const:
			l.v = p.constVal(x)
		case *ssa.Call:
			var args []Value
			for _, a := range x.Call.Args {
				args = append(args, p.constVal(a.(*ssa.Const)))
			}
			l.v = p.call(x.Call.StaticCallee(), args, nil)
		}
		return l
	}
	if es, ok := p.I.globalMap(g); ok {
		m := &MapV{id: p.nid(), T: pt.Elem(), Own: localOwner, elems: map[string]Value{}}
		for _, e := range es {
			k := p.val(nil, e[0])
			m.keys = append(m.keys, k)
			m.elems[p.mapKey(k)] = p.val(nil, e[1])
		}
		l.v = m
		return l
	}
	if fs := p.I.globalFuncs(g); len(fs) > 1 {
		l.v = &Closure{Fn: fs[p.choose("global "+g.Name(), len(fs))]}
		return l
	}
	if _, isI := pt.Elem().Underlying().(*types.Interface); isI {
		l.v = &Opaque{id: p.nid(), T: pt.Elem(), name: g.Name(), nonnil: true}
		return l
	}
	l.v = p.fresh(pt.Elem(), g.Name())
	return l
}

// globalFuncs lists the functions a function variable is ever set to, when
// these are all its values.
func (I *Interp) globalFuncs(g *ssa.Global) []*ssa.Function {
	if g.Pkg == nil {
		return nil
	}
	if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); !ok {
		return nil
	}
	var out []*ssa.Function
	for fn := range I.P.All() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
					f, ok := s.Val.(*ssa.Function)
					if !ok {
						return nil
					}
					out = append(out, f)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// globalMap lists the entries of a map of constants and functions that is
// filled where it is declared and never changed.
func (I *Interp) globalMap(g *ssa.Global) ([][2]ssa.Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map); !ok {
		return nil, false
	}
	var made *ssa.MakeMap
	stores := 0
	var entries [][2]ssa.Value
	changed := false
	for fn := range I.P.All() {
		if pk := pkgOf(fn); pk == nil || !inModule(pk) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if x.Addr == g {
						stores++
						made, _ = x.Val.(*ssa.MakeMap)
					}
				case *ssa.UnOp:
					if x.X != g {
						continue
					}
					for _, r := range *x.Referrers() {
						switch r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						default:
							changed = true
						}
					}
				}
			}
		}
	}
	if stores != 1 || made == nil || changed {
		return nil, false
	}
	for _, r := range *made.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			_, kc := x.Key.(*ssa.Const)
			_, vc := x.Value.(*ssa.Const)
			_, vf := x.Value.(*ssa.Function)
			if !kc || !vc && !vf {
				return nil, false
			}
			entries = append(entries, [2]ssa.Value{x.Key, x.Value})
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return entries, true
}

// globalInit finds the only value ever stored in a global (constant or
// function).
func (I *Interp) globalInit(g *ssa.Global) ssa.Value {
	vs := I.P.globalStores()[g]
	if g.Pkg == nil || len(vs) != 1 {
		return nil
	}
	switch x := vs[0].(type) {
	case *ssa.Function, *ssa.Const:
		return x
	case *ssa.Call:
		// math.Sqrt(2) and the like
		if fn := x.Call.StaticCallee(); fn != nil && pkgOf(fn) != nil && pkgOf(fn).Path() == "math" {
			for _, a := range x.Call.Args {
				if _, ok := a.(*ssa.Const); !ok {
					return nil
				}
			}
			return x
		}
	}
	return nil
}

// globalStores lists the values ever stored in each global.
func (P *Program) globalStores() map[*ssa.Global][]ssa.Value {
	P.globalsOnce.Do(func() {
		P.globalVals = map[*ssa.Global][]ssa.Value{}
		for fn := range P.All() {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							P.globalVals[g] = append(P.globalVals[g], s.Val)
						}
					}
				}
			}
		}
	})
	return P.globalVals
}

func (p *Path) exec(fr *frame, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = p.newLoc(t, x.Comment+"@"+p.I.P.pos(x.Pos()), localOwner)
	case *ssa.BinOp:
		fr.env[x] = p.binop(x, p.val(fr, x.X), p.val(fr, x.Y))
	case *ssa.UnOp:
		fr.env[x] = p.unop(fr, x)
	case *ssa.Call:
		fr.env[x] = p.doCall(fr, &x.Call, x.Type())
	case *ssa.Go:
		p.event(Event{Kind: "go"})
		p.doCall(fr, &x.Call, nil)
	case *ssa.Defer:
		cc := x.Call
		// evaluate operands now
		var fnv Value
		if !cc.IsInvoke() {
			fnv = p.val(fr, cc.Value)
		} else {
			fnv = p.val(fr, cc.Value)
		}
		var args []Value
		for _, a := range cc.Args {
			args = append(args, p.val(fr, a))
		}
		fr.defers = append(fr.defers, func() {
			if cc.IsInvoke() {
				p.invoke(fnv, cc.Method, args, nil)
			} else {
				p.callValue(fnv, args, cc.Args, nil)
			}
		})
	case *ssa.RunDefers:
		p.runDefers(fr)
	case *ssa.ChangeInterface:
		fr.env[x] = p.val(fr, x.X)
	case *ssa.ChangeType:
		fr.env[x] = p.val(fr, x.X)
	case *ssa.MultiConvert:
		fr.env[x] = p.convert(p.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Convert:
		fr.env[x] = p.convert(p.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := p.val(fr, x.Tuple)
		if tp, ok := t.(Tuple); ok && x.Index < len(tp) {
			fr.env[x] = tp[x.Index]
		} else {
			fr.env[x] = p.fresh(x.Type(), x.Name())
		}
	case *ssa.Field:
		s := p.val(fr, x.X)
		if sv, ok := s.(*StructV); ok {
			fr.env[x] = sv.F[x.Field]
		} else {
			fr.env[x] = p.fresh(x.Type(), "field")
		}
	case *ssa.FieldAddr:
		b := p.val(fr, x.X)
		switch l := b.(type) {
		case *Loc:
			fr.env[x] = p.kid(l, x.Field)
		case NilV:
			p.end("panic", "nil pointer dereference")
		case *Opaque:
			pt := l.T.Underlying().(*types.Pointer)
			nl := p.newLoc(pt.Elem(), l.name, &Owner{kind: "unknown", name: l.name})
			nl.v = &Opaque{id: p.nid(), T: pt.Elem(), name: l.name}
			// remember the object behind this opaque pointer
			key := fmt.Sprintf("opq%d", l.id)
			if m, ok := p.memo[key]; ok {
				nl = m.(*Loc)
			} else {
				p.memo[key] = nl
			}
			fr.env[x] = p.kid(nl, x.Field)
		default:
			p.unsupported("field address of %T", b)
		}
	case *ssa.IndexAddr:
		fr.env[x] = p.indexAddr(p.val(fr, x.X), p.intVal(p.val(fr, x.Index)))
	case *ssa.Index:
		b := p.val(fr, x.X)
		if a, ok := b.(*ArrayV); ok {
			if c, isc := p.F.norm(p.intVal(p.val(fr, x.Index))).isConst(); isc {
				if v, ok := a.F[int(c)]; ok {
					fr.env[x] = v
					return
				}
				fr.env[x] = p.zero(x.Type())
				return
			}
		}
		fr.env[x] = p.fresh(x.Type(), "index")
	case *ssa.Lookup:
		fr.env[x] = p.lookup(fr, x)
	case *ssa.MakeChan:
		c := &ChanV{id: p.nid(), T: x.Type(), size: p.intVal(p.val(fr, x.Size))}
		p.chans = append(p.chans, c)
		fr.env[x] = c
	case *ssa.MakeClosure:
		c := &Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Bind = append(c.Bind, p.val(fr, b))
		}
		fr.env[x] = c
	case *ssa.MakeInterface:
		v := p.val(fr, x.X)
		fr.env[x] = &Iface{T: x.X.Type(), V: v}
	case *ssa.MakeMap:
		fr.env[x] = &MapV{id: p.nid(), T: x.Type(), Own: localOwner, elems: map[string]Value{}}
	case *ssa.MakeSlice:
		n := p.F.norm(p.intVal(p.val(fr, x.Len)))
		c := p.F.norm(p.intVal(p.val(fr, x.Cap)))
		if !p.decide(&BoolV{kind: bGE, p: n}) {
			p.end("panic", "makeslice: len out of range")
		}
		a := p.newArr(x.Type().Underlying().(*types.Slice).Elem(), c, p.site(), localOwner)
		a.e = p.zeroTerm(a)
		fr.env[x] = Slice{a, pConst(0), n, c}
	case *ssa.MapUpdate:
		m := p.val(fr, x.Map)
		if mv, ok := m.(*MapV); ok {
			k := p.mapKey(p.val(fr, x.Key))
			if _, has := mv.elems[k]; !has {
				mv.keys = append(mv.keys, p.val(fr, x.Key))
			}
			mv.elems[k] = p.val(fr, x.Value)
			p.noteWrite(mv.Own, "map")
		} else if _, isNil := m.(NilV); isNil {
			p.end("panic", "assignment to entry in nil map")
		} else if o, ok := m.(*Opaque); ok {
			p.event(Event{Kind: "write", Name: "unknown:" + o.name, Extra: "map"})
		}
	case *ssa.Range:
		if mv, ok := p.val(fr, x.X).(*MapV); ok {
			fr.env[x] = &IterV{m: mv, keys: mv.keys}
		} else {
			fr.env[x] = &IterV{t: x.X.Type()}
		}
	case *ssa.Next:
		it, _ := p.val(fr, x.Iter).(*IterV)
		if it != nil && it.m != nil {
			for it.n < len(it.keys) {
				if _, has := it.m.elems[p.mapKey(it.keys[it.n])]; has {
					break
				}
				it.n++ // deleted meanwhile
			}
			if it.n < len(it.keys) {
				k := it.keys[it.n]
				it.n++
				fr.env[x] = Tuple{vBool(true), k, it.m.elems[p.mapKey(k)]}
			} else {
				tt := x.Type().(*types.Tuple)
				fr.env[x] = Tuple{vBool(false), p.zeroOrNil(tt.At(1).Type()), p.zeroOrNil(tt.At(2).Type())}
			}
			return
		}
		tt := x.Type().(*types.Tuple)
		tp := Tuple{&BoolV{kind: bOpaque, key: fmt.Sprintf("next?%d", p.nid())}}
		for i := 1; i < tt.Len(); i++ {
			if tt.At(i).Type() == types.Typ[types.Invalid] {
				tp = append(tp, NilV{})
			} else {
				tp = append(tp, p.fresh(tt.At(i).Type(), "rng"))
			}
		}
		fr.env[x] = tp
	case *ssa.Select:
		i := p.choose("select", len(x.States)+map[bool]int{true: 0, false: 1}[x.Blocking])
		tp := Tuple{pConst(int64(i)), &BoolV{kind: bOpaque, key: fmt.Sprintf("recvok?%d", p.nid())}}
		if i >= len(x.States) {
			tp[0] = pConst(-1)
			if p.I.chans {
				for _, st := range x.States {
					c, ok := p.val(fr, st.Chan).(*ChanV)
					if ok && st.Dir == types.RecvOnly && (c.sure > 0 || c.closed && len(c.buf) == 0) {
						p.end("infeasible", "there is an element to receive")
					}
					if ok && st.Dir == types.SendOnly {
						if n, isc := p.F.norm(c.size).isConst(); isc && int64(len(c.buf)) < n {
							p.end("infeasible", "there is room")
						}
					}
				}
			}
		}
		tt := x.Type().(*types.Tuple)
		for j := 2; j < tt.Len(); j++ {
			tp = append(tp, p.fresh(tt.At(j).Type(), "recv"))
		}
		if i < len(x.States) {
			st := x.States[i]
			c, ok := p.val(fr, st.Chan).(*ChanV)
			if _, none := p.val(fr, st.Chan).(NilV); none {
				p.end("infeasible", "a nil channel is never ready")
			}
			switch {
			case ok && st.Dir == types.SendOnly:
				c.buf = append(c.buf, p.val(fr, st.Send))
			case ok && p.I.chans:
				e, more, known := p.recv(c)
				if !known {
					p.end("infeasible", "nothing to receive")
				}
				tp[1] = vBool(more)
				j := 2
				for _, s := range x.States[:i] {
					if s.Dir == types.RecvOnly {
						j++
					}
				}
				tp[j] = e
			}
		}
		fr.env[x] = tp
	case *ssa.Send:
		if c, ok := p.val(fr, x.Chan).(*ChanV); ok {
			c.buf = append(c.buf, p.val(fr, x.X))
		}
	case *ssa.Slice:
		fr.env[x] = p.slice(fr, x)
	case *ssa.Store:
		p.storePtr(p.val(fr, x.Addr), p.val(fr, x.Val))
	case *ssa.TypeAssert:
		fr.env[x] = p.typeAssert(p.val(fr, x.X), x)
	case *ssa.SliceToArrayPointer:
		fr.env[x] = p.fresh(x.Type(), "arrptr")
	default:
		p.unsupported("instruction %T", ins)
	}
}

func (p *Path) zeroOrNil(t types.Type) Value {
	if t == nil || t == types.Typ[types.Invalid] {
		return NilV{}
	}
	return p.zero(t)
}

func (p *Path) mapKey(v Value) string {
	switch x := v.(type) {
	case *Poly:
		return p.F.norm(x).key()
	case *StrV:
		if x.c != nil {
			return "s:" + *x.c
		}
	case *Iface:
		return p.mapKey(x.V)
	case *Loc:
		return fmt.Sprintf("loc%d", x.id)
	case *Opaque:
		return fmt.Sprintf("opq%d", x.id)
	case *Operand:
		return "op:" + x.name
	}
	return fmt.Sprintf("?%d", p.nid())
}

func (p *Path) lookup(fr *frame, x *ssa.Lookup) Value {
	m := p.val(fr, x.X)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return p.fresh(x.Type(), "char")
	}
	if mv, ok := m.(*MapV); ok {
		if v, has := mv.elems[p.mapKey(p.val(fr, x.Index))]; has {
			if x.CommaOk {
				return Tuple{v, vBool(true)}
			}
			return v
		}
		if mv.Own == localOwner {
			if x.CommaOk {
				return Tuple{p.zero(mt.Elem()), vBool(false)}
			}
			return p.zero(mt.Elem())
		}
	}
	v := p.fresh(mt.Elem(), "mapval")
	if x.CommaOk {
		return Tuple{v, &BoolV{kind: bOpaque, key: fmt.Sprintf("has?%d", p.nid())}}
	}
	return v
}

func (p *Path) indexAddr(b Value, i *Poly) Value {
	switch s := b.(type) {
	case Slice:
		if s.A == nil {
			p.end("panic", "index out of range (nil slice)")
		}
		// bounds: Go panics outside [0,len)
		in := &BoolV{kind: bGE, p: i}
		if v, ok := p.static(in); ok && !v {
			p.end("panic", "index out of range")
		}
		hi := &BoolV{kind: bGE, p: pSub(pSub(s.Len, i), pConst(1))}
		if v, ok := p.static(hi); ok && !v {
			p.end("panic", "index out of range")
		} else if !ok {
			if _, c := i.isConst(); c {
				// a constant index that may be out of range: the run-time
				// check makes the bound a fact afterwards
				p.assume(hi, true)
			}
		}
		if n, c := p.F.norm(s.Len).isConst(); c && n > 0 && n <= 8 && !s.A.isFloat && !s.A.symW && p.merging == 0 {
			if _, ic := p.F.norm(i).isConst(); !ic {
				// a computed position in a list of known length
				for j := int64(0); j < n; j++ {
					eq := &BoolV{kind: bEQ, p: pSub(i, pConst(j))}
					if j == n-1 {
						p.assume(eq, true)
						i = pConst(j)
					} else if p.decide(eq) {
						i = pConst(j)
						break
					}
				}
			}
		}
		abs := pAdd(s.Off, i)
		if s.A.isFloat {
			p.bounds(s, i)
			return &FloatElem{s.A, abs}
		}
		return p.elemLoc(s.A, abs)
	case *Loc: // pointer to array
		if at, ok := s.T.Underlying().(*types.Array); ok {
			if c, isc := p.F.norm(i).isConst(); isc {
				return p.kid(s, int(c))
			}
			l := p.newLoc(at.Elem(), s.site+"[?]", s.owner())
			l.v = p.fresh(at.Elem(), "arr[?]")
			return l
		}
	case NilV:
		p.end("panic", "nil dereference")
	case *Opaque:
		return &Opaque{id: p.nid(), T: types.NewPointer(elemOf(s.T)), name: s.name + "[]"}
	}
	p.unsupported("index address of %T", b)
	return nil
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return types.Typ[types.Int]
}

func (p *Path) slice(fr *frame, x *ssa.Slice) Value {
	b := p.val(fr, x.X)
	get := func(v ssa.Value, d *Poly) *Poly {
		if v == nil {
			return d
		}
		return p.F.norm(p.intVal(p.val(fr, v)))
	}
	switch s := b.(type) {
	case Slice:
		lo := get(x.Low, pConst(0))
		hi := get(x.High, s.Len)
		mx := get(x.Max, s.Cap)
		if s.A == nil {
			return s
		}
		for _, q := range []*Poly{lo, pSub(hi, lo), pSub(s.Cap, hi)} {
			c := &BoolV{kind: bGE, p: q}
			if v, ok := p.static(c); ok && !v {
				p.end("panic", "slice bounds out of range")
			} else if !ok {
				p.assume(c, true) // enforced by the run-time check
			}
		}
		if s.A.isFloat && s.A.own != nil && s.A.own.kind != "local" && !pEq(p.F.norm(s.Cap), p.F.norm(s.Len)) {
			p.beyond(s, hi)
		}
		return Slice{s.A, pAdd(s.Off, lo), p.F.norm(pSub(hi, lo)), p.F.norm(pSub(mx, lo))}
	case *Loc: // *[N]T
		if at, ok := s.T.Underlying().(*types.Array); ok {
			n := pConst(at.Len())
			lo := get(x.Low, pConst(0))
			hi := get(x.High, n)
			key := fmt.Sprintf("arrview%d", s.id)
			var a *Arr
			if m, ok := p.memo[key]; ok {
				a = m.(*Arr)
			} else {
				a = p.newArr(at.Elem(), n, s.site, s.owner())
				p.memo[key] = a
			}
			if a.isFloat {
				a.e = eConst(0)
				for i, k := range s.kids {
					f := p.toFloat(p.loadLoc(k))
					e := a.e
					p.arrPut(a, f)
					if a.e = e; p.I.terms {
						a.lvl = p.loopers
						p.applyStore(a, pConst(int64(i)), f.e)
					}
				}
			} else {
				for i, k := range s.kids {
					key := fmt.Sprint(i)
					k.arr = nil
					a.locs[key], a.idx[key] = k, pConst(int64(i))
				}
			}
			return Slice{a, lo, p.F.norm(pSub(hi, lo)), p.F.norm(pSub(n, lo))}
		}
	case *StrV:
		return &StrV{}
	}
	return p.fresh(x.Type(), "slice")
}

// beyond notes a slice expression that reaches behind the length of somebody's
// elements, into spare capacity.
func (p *Path) beyond(s Slice, hi *Poly) {
	q := pSub(s.Len, hi)
	if p.F.geZero(p.F.norm(q)) {
		p.event(Event{Kind: "within", Name: s.A.own.name})
		return
	}
	old := p.F
	p.F = p.F.clone()
	p.F.addGE(pSub(pScale(q, -1), pConst(1)))
	w, found, unk := p.witness(q)
	p.F = old
	if found && !unk {
		p.event(Event{Kind: "beyond", Name: s.A.own.name, Extra: "for example with " + witnessText(w)})
	} else {
		p.event(Event{Kind: "beyond?", Name: s.A.own.name})
	}
}

// bounds notes whether an index into float elements is provably within the
// slice, provably outside for some input, or neither.
func (p *Path) bounds(s Slice, i *Poly) {
	if p.protect || p.merging > 0 {
		return
	}
	for _, q := range []*Poly{i, pSub(pSub(s.Len, i), pConst(1))} {
		q = p.F.norm(q)
		if p.F.geZero(q) {
			p.event(Event{Kind: "bounds", Extra: "ok"})
			continue
		}
		old := p.F
		p.F = p.F.clone()
		p.F.addGE(pSub(pScale(q, -1), pConst(1)))
		w, found, unk := p.witness(q)
		p.F = old
		if found && !unk {
			p.event(Event{Kind: "bounds", Extra: "fail", Name: i.key() + " for a length of " + s.Len.key() + ", for example with " + witnessText(w)})
		} else {
			p.event(Event{Kind: "bounds", Extra: "unknown", Name: i.key() + " for a length of " + s.Len.key()})
		}
	}
}

func (p *Path) convert(v Value, from, to types.Type) Value {
	switch {
	case isFloatT(to):
		f := p.toFloat(v)
		return f
	case isIntT(to):
		switch x := v.(type) {
		case *Poly:
			return x
		case *FloatV:
			if x.c != nil && *x.c == math.Trunc(*x.c) && math.Abs(*x.c) < 1e15 {
				return pConst(int64(*x.c))
			}
			if x.e != nil {
				if c, ok := x.e.isConst(); ok && math.Abs(c) < 1e15 {
					return pConst(int64(c))
				}
			}
			return p.freshAtom("int(f)", true)
		}
		return p.freshAtom("int", true)
	case isStringT(to):
		return &StrV{}
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(Slice); ok {
			return s
		}
	}
	return p.fresh(to, "conv")
}

func (p *Path) isNil(v Value) (bool, bool) {
	switch x := v.(type) {
	case NilV:
		return true, true
	case *Iface, *Loc, *Closure, *FloatElem, *MapV, *ChanV, *Operand, *BoundOp, *BuiltinV, *NativeV, *NativeObj:
		return false, true
	case Slice:
		return x.A == nil, true
	case *Opaque:
		if x.nonnil {
			return false, true
		}
		k := fmt.Sprintf("nil:%s#%d", x.name, x.id)
		if b, ok := p.bools[k]; ok {
			return b, true
		}
		return false, false
	}
	return false, false
}

func (p *Path) eqVals(x, y Value) *BoolV {
	if _, ok := y.(NilV); !ok {
		if s, oks := y.(Slice); !oks || s.A != nil {
			if _, okx := x.(NilV); okx {
				x, y = y, x
			} else if s, oks := x.(Slice); oks && s.A == nil {
				x, y = y, x
			}
		}
	}
	yNil := false
	if _, ok := y.(NilV); ok {
		yNil = true
	}
	if s, ok := y.(Slice); ok && s.A == nil {
		yNil = true
	}
	if yNil {
		if n, ok := p.isNil(x); ok {
			return vBool(n)
		}
		if o, ok := x.(*Opaque); ok {
			return &BoolV{kind: bOpaque, key: fmt.Sprintf("nil:%s#%d", o.name, o.id)}
		}
	}
	switch a := x.(type) {
	case *Iface:
		if b, ok := y.(*Iface); ok {
			if !types.Identical(a.T, b.T) {
				return vBool(false)
			}
			return p.eqVals(a.V, b.V)
		}
	case *Loc:
		if b, ok := y.(*Loc); ok {
			return vBool(a == b)
		}
	case *Operand:
		if b, ok := y.(*Operand); ok {
			if a == b {
				return vBool(true)
			}
			// two parameters of the function may be given the same tensor
			if p.phase == "backward" || p.phase == "operands" || p.phase == "forward" || p.phase == "construct" {
				n1, n2 := a.name, b.name
				if n1 > n2 {
					n1, n2 = n2, n1
				}
				return &BoolV{kind: bOpaque, key: "alias:" + n1 + "=" + n2}
			}
			return vBool(false)
		}
		if _, ok := y.(*Iface); ok {
			return vBool(false)
		}
	case *Poly:
		if b, ok := y.(*Poly); ok {
			return &BoolV{kind: bEQ, p: p.F.norm(pSub(a, b))}
		}
	case *StrV:
		if b, ok := y.(*StrV); ok && a.c != nil && b.c != nil {
			return vBool(*a.c == *b.c)
		}
	case *BoolV:
		if b, ok := y.(*BoolV); ok {
			if a.kind == bConst {
				if a.b {
					return b
				}
				return b.not()
			}
			if b.kind == bConst {
				if b.b {
					return a
				}
				return a.not()
			}
		}
	case *Opaque:
		if b, ok := y.(*Opaque); ok && a.id == b.id {
			return vBool(true)
		}
	}
	return &BoolV{kind: bOpaque, key: fmt.Sprintf("eq?%d", p.nid())}
}

func (p *Path) binop(x *ssa.BinOp, a, b Value) Value {
	switch x.Op {
	case token.EQL, token.NEQ:
		var c *BoolV
		fa, oka := a.(*FloatV)
		fb, okb := b.(*FloatV)
		if oka && okb {
			c = p.floatCmp(x.Op, fa, fb)
			return c
		}
		c = p.eqVals(a, b)
		if x.Op == token.NEQ {
			c = c.not()
		}
		return c
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if pa, ok := a.(*Poly); ok {
			pb := p.intVal(b)
			var q *Poly
			switch x.Op {
			case token.LSS:
				q = pSub(pSub(pb, pa), pConst(1))
			case token.LEQ:
				q = pSub(pb, pa)
			case token.GTR:
				q = pSub(pSub(pa, pb), pConst(1))
			case token.GEQ:
				q = pSub(pa, pb)
			}
			return &BoolV{kind: bGE, p: p.F.norm(q)}
		}
		if fa, ok := a.(*FloatV); ok {
			return p.floatCmp(x.Op, fa, p.toFloat(b))
		}
		return &BoolV{kind: bOpaque, key: fmt.Sprintf("cmp?%d", p.nid())}
	}
	if isFloatT(x.Type()) {
		return p.floatOp(x.Op, p.toFloat(a), p.toFloat(b))
	}
	if isIntT(x.Type()) {
		return p.intOp(x, p.intVal(a), p.intVal(b))
	}
	if isStringT(x.Type()) {
		sa, ok1 := a.(*StrV)
		sb, ok2 := b.(*StrV)
		if ok1 && ok2 && sa.c != nil && sb.c != nil {
			s := *sa.c + *sb.c
			return &StrV{c: &s}
		}
		return &StrV{}
	}
	if isBoolT(x.Type()) {
		return &BoolV{kind: bOpaque, key: fmt.Sprintf("bop?%d", p.nid())}
	}
	return p.fresh(x.Type(), "binop")
}

func (p *Path) floatCmp(op token.Token, a, b *FloatV) *BoolV {
	if a.c != nil && b.c != nil {
		x, y := *a.c, *b.c
		switch op {
		case token.EQL:
			return vBool(x == y)
		case token.NEQ:
			return vBool(x != y)
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
	}
	if p.phase != "backward" && !a.poly && !b.poly {
		p.equate(a.u, b.u, "comparison")
	}
	if c := p.cmpTerm(op, a.e, b.e); c != nil {
		return c
	}
	// values are finite: they lie between the infinities
	if x, y := infinity(a), infinity(b); p.I.terms && (x != 0 && b.e != nil || y != 0 && a.e != nil) {
		switch x -= y; op {
		case token.EQL, token.NEQ:
			return vBool(op == token.NEQ)
		case token.LSS, token.LEQ:
			return vBool(x < 0)
		default:
			return vBool(x > 0)
		}
	}
	return &BoolV{kind: bOpaque, key: fmt.Sprintf("fcmp?%d", p.nid())}
}

func (p *Path) floatOp(op token.Token, a, b *FloatV) Value {
	r := p.floatOpU(op, a, b)
	if f, ok := r.(*FloatV); ok && p.I.terms && f.c == nil {
		n := *f
		n.e = opTerm(op, a.e, b.e)
		return &n
	}
	return r
}

func (p *Path) floatOpU(op token.Token, a, b *FloatV) Value {
	dep := depJoin(a.dep, b.dep)
	var c *float64
	if a.c != nil && b.c != nil {
		var r float64
		switch op {
		case token.ADD:
			r = *a.c + *b.c
		case token.SUB:
			r = *a.c - *b.c
		case token.MUL:
			r = *a.c * *b.c
		case token.QUO:
			r = *a.c / *b.c
		}
		c = &r
	}
	switch op {
	case token.ADD, token.SUB:
		if c != nil {
			f := floatConst(*c)
			f.dep = dep
			return f
		}
		if a.poly {
			return &FloatV{u: b.u, poly: b.poly, dep: dep}
		}
		if b.poly {
			return &FloatV{u: a.u, dep: dep}
		}
		p.equate(a.u, b.u, "sum")
		return &FloatV{u: a.u, dep: dep}
	case token.MUL:
		if c != nil {
			return floatConst(*c)
		}
		if a.poly && a.c != nil && *a.c == 0 || b.poly && b.c != nil && *b.c == 0 {
			return &FloatV{poly: true, dep: dep}
		}
		if (a.poly && a.c == nil) || (b.poly && b.c == nil) {
			return &FloatV{poly: true, dep: dep}
		}
		return &FloatV{u: uAdd(a.u, b.u, 1), dep: dep}
	case token.QUO:
		if c != nil {
			return floatConst(*c)
		}
		if a.poly && (a.c == nil || *a.c == 0) {
			return &FloatV{poly: true, dep: dep}
		}
		return &FloatV{u: uAdd(a.u, b.u, -1), dep: dep}
	}
	return &FloatV{u: p.U.fresh("fop", false), dep: dep}
}

func (p *Path) intOp(x *ssa.BinOp, a, b *Poly) Value {
	a, b = p.F.norm(a), p.F.norm(b)
	ca, ka := a.isConst()
	cb, kb := b.isConst()
	switch x.Op {
	case token.ADD:
		return pAdd(a, b)
	case token.SUB:
		return pSub(a, b)
	case token.MUL:
		return pMul(a, b)
	case token.QUO:
		if kb && cb != 0 && ka {
			return pConst(ca / cb)
		}
		if kb && cb == 1 {
			return a
		}
		if ka && ca == 0 {
			return a
		}
		if q := exactDiv(a, b); q != nil {
			return q
		}
		// (a - a mod b)/b when the remainder is known
		rem := p.remAtom(a, b)
		if r, ok := p.F.norm(rem).isConst(); ok && r == 0 {
			q := p.defAtom("("+a.key()+")/("+b.key()+")", '/', a, b)
			p.F.addEQ(pSub(pMul(q, b), a))
			return q
		}
		if kb && cb > 0 && p.F.geZero(a) {
			q := p.defAtom(fmt.Sprintf("⌊(%s)/%d⌋", a.key(), cb), '/', a, b)
			p.F.addGE(pSub(a, pScale(q, cb)))
			p.F.addGE(pSub(pAdd(pScale(q, cb), pConst(cb-1)), a))
			return q
		}
		q := "(" + a.key() + ")/(" + b.key() + ")"
		if !(p.F.geZero(a) && p.F.geZero(b)) {
			p.F.neg[q] = true
		}
		return p.defAtom(q, '/', a, b)
	case token.REM:
		if ka && kb && cb != 0 {
			return pConst(ca % cb)
		}
		if kb && cb == 1 {
			return pConst(0)
		}
		if exactDiv(a, b) != nil {
			return pConst(0)
		}
		return p.remAtom(a, b)
	case token.SHL:
		if kb && cb >= 0 && cb < 40 {
			return pScale(a, int64(1)<<uint(cb))
		}
	case token.SHR:
		if kb && ka && cb >= 0 && cb < 63 {
			return pConst(ca >> uint(cb))
		}
	case token.AND:
		if ka && kb {
			return pConst(ca & cb)
		}
	case token.OR:
		if ka && kb {
			return pConst(ca | cb)
		}
	case token.XOR:
		if ka && kb {
			return pConst(ca ^ cb)
		}
	}
	at := "(" + a.key() + " " + x.Op.String() + " " + b.key() + ")"
	if !isUnsignedT(x.Type()) {
		p.F.neg[at] = true
	}
	return pAtom(at)
}

func (p *Path) remAtom(a, b *Poly) *Poly {
	at := "(" + a.key() + ")%(" + b.key() + ")"
	if !p.F.geZero(a) {
		p.F.neg[at] = true
	}
	return p.defAtom(at, '%', a, b)
}

// defAtom names an integer operation the polynomial domain cannot express and
// remembers its definition.
func (p *Path) defAtom(name string, op byte, a, b *Poly) *Poly {
	if p.defs == nil {
		p.defs = map[string]atomDef{}
	}
	p.defs[name] = atomDef{op, a, b}
	return pAtom(name)
}

type atomDef struct {
	op   byte // '/', '%', 'k' (counter below a)
	a, b *Poly
}

// exactDiv divides a by b when b is a single monomial dividing every term.
func exactDiv(a, b *Poly) *Poly {
	if len(b.t) != 1 {
		if pEq(a, b) {
			return pConst(1)
		}
		return nil
	}
	for m, c := range b.t {
		r := map[string]int64{}
		for am, ac := range a.t {
			q, ok := monoDiv(am, m)
			if !ok || ac%c != 0 {
				return nil
			}
			r[q] = ac / c
		}
		return &Poly{r}
	}
	return nil
}

func (p *Path) unop(fr *frame, x *ssa.UnOp) Value {
	v := p.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		if rs := x.Referrers(); rs != nil && len(*rs) == 0 && p.kspan {
			p.kspan = false // a bounds check hint
			defer func() { p.kspan = true }()
		}
		return p.loadPtr(v)
	case token.NOT:
		return p.boolVal(v).not()
	case token.SUB:
		if f, ok := v.(*FloatV); ok {
			n := *f
			if f.c != nil {
				c := -*f.c
				n.c = &c
			}
			n.e = eScale(f.e, -1)
			return &n
		}
		return pScale(p.intVal(v), -1)
	case token.ARROW:
		if c, ok := v.(*ChanV); ok {
			if e, more, known := p.recv(c); known {
				if x.CommaOk {
					return Tuple{e, vBool(more)}
				}
				return e
			}
		}
		return p.fresh(x.Type(), "recv")
	case token.XOR:
		return p.freshAtom("xor", true)
	}
	return p.fresh(x.Type(), "unop")
}

// recv takes the next element of a channel.
func (p *Path) recv(c *ChanV) (e Value, more, known bool) {
	switch {
	case len(c.buf) > 0:
		e = c.buf[0]
		c.buf = c.buf[1:]
		c.sure = max(c.sure-1, 0)
		return e, true, true
	case c.closed:
		return p.zero(c.T.Underlying().(*types.Chan).Elem()), false, true
	}
	return nil, false, false
}

func (p *Path) typeAssert(v Value, x *ssa.TypeAssert) Value {
	want := x.AssertedType
	res := func(v Value, ok bool) Value {
		if x.CommaOk {
			if !ok {
				v = p.zero(want)
			}
			return Tuple{v, vBool(ok)}
		}
		if !ok {
			p.end("panic", "interface conversion to "+want.String())
		}
		return v
	}
	switch i := v.(type) {
	case NilV:
		return res(nil, false)
	case *Iface:
		if _, isI := want.Underlying().(*types.Interface); isI {
			ok := types.Implements(i.T, want.Underlying().(*types.Interface))
			return res(i, ok)
		}
		if types.Identical(i.T, want) {
			return res(i.V, true)
		}
		return res(nil, false)
	case *Operand:
		if _, isI := want.Underlying().(*types.Interface); isI {
			c := p.boolVal(&BoolV{kind: bOpaque, key: "operand " + i.name + " is " + want.String()})
			if nameOfType(want) == "Tensor" || isAny(want) {
				return res(i, true)
			}
			ok := p.decide(c)
			return res(i, ok)
		}
		// concrete type: a graph node need not be of any concrete type
		return res(nil, false)
	case *Opaque:
		ok := true
		if x.CommaOk {
			ok = p.decide(&BoolV{kind: bOpaque, key: fmt.Sprintf("is %s #%d", want, i.id)})
		}
		if _, isI := want.Underlying().(*types.Interface); isI {
			return res(i, ok)
		}
		key := fmt.Sprintf("assert%d:%s", i.id, want)
		if m, has := p.memo[key]; has {
			return res(m, ok)
		}
		nv := p.fresh(want, i.name)
		p.memo[key] = nv
		return res(nv, ok)
	}
	p.unsupported("type assertion on %T", v)
	return nil
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func nameOfType(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// ---- calls ---------------------------------------------------------------

func (p *Path) doCall(fr *frame, cc *ssa.CallCommon, rt types.Type) Value {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, p.val(fr, a))
	}
	if cc.IsInvoke() {
		return p.invoke(p.val(fr, cc.Value), cc.Method, args, rt)
	}
	return p.callValue(p.val(fr, cc.Value), args, cc.Args, rt)
}

func (p *Path) callValue(f Value, args []Value, ssaArgs []ssa.Value, rt types.Type) Value {
	switch x := f.(type) {
	case *Closure:
		return p.call(x.Fn, args, x.Bind)
	case *BoundOp:
		return p.invoke(x.recv, x.m, args, rt)
	case *BuiltinV:
		return p.builtin(x.name, args, ssaArgs, rt)
	case *NativeV:
		return x.f(args)
	case NilV:
		p.end("panic", "call of nil function")
	case *Opaque:
		p.event(Event{Kind: "opaquecall", Name: x.name})
		if sig, ok := x.T.Underlying().(*types.Signature); ok {
			r := p.freshResult(sig, x.name+"()")
			if f, ok := r.(*FloatV); ok && p.I.terms {
				f.e = p.callTerm(fmt.Sprintf("%s#%d", x.name, x.id), args)
			}
			return r
		}
		if rt != nil {
			return p.fresh(rt, x.name+"()")
		}
		return nil
	}
	p.unsupported("call of %T", f)
	return nil
}

func (p *Path) freshResult(sig *types.Signature, name string) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return p.fresh(r.At(0).Type(), name)
	}
	var t Tuple
	for i := 0; i < r.Len(); i++ {
		t = append(t, p.fresh(r.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
	}
	return t
}

func (p *Path) invoke(recv Value, m *types.Func, args []Value, rt types.Type) Value {
	switch x := recv.(type) {
	case *Iface:
		fn := p.I.method(x.T, m)
		if fn == nil {
			p.unsupported("no method %s on %s", m.Name(), x.T)
		}
		return p.call(fn, append([]Value{x.V}, args...), nil)
	case *Operand:
		return p.operandCall(x, m, args)
	case *NativeObj:
		return x.call(m, args)
	case NilV:
		p.end("panic", "method call on nil interface")
	case *Opaque:
		p.event(Event{Kind: "opaqueinvoke", Name: x.name + "." + m.Name()})
		return p.freshResult(m.Type().(*types.Signature), x.name+"."+m.Name()+"()")
	}
	p.unsupported("invoke %s on %T", m.Name(), recv)
	return nil
}

func (I *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	ms := I.P.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return I.P.SSA.MethodValue(sel)
}

func (I *Interp) methodNamed(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := I.P.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return I.P.SSA.MethodValue(sel)
}

func (p *Path) operandCall(o *Operand, m *types.Func, args []Value) Value {
	switch m.Name() {
	case "Value":
		p.event(Event{Kind: "value", Name: o.name})
		return o.val
	case "RequiresGrad":
		p.event(Event{Kind: "asks", Name: o.name})
		return &BoolV{kind: bOpaque, key: "rg:" + o.name}
	case "AccGrad":
		p.event(Event{Kind: "acc", Name: o.name, Val: args[0]})
		return nil
	case "Grad", "HasGrad", "ZeroGrad", "SetAt":
		p.event(Event{Kind: "nodecall", Name: o.name + "." + m.Name()})
		return p.freshResult(m.Type().(*types.Signature), o.name+"."+m.Name())
	}
	p.event(Event{Kind: "value", Name: o.name})
	return p.invoke(o.val, m, args, nil)
}

func (p *Path) builtin(name string, args []Value, ssaArgs []ssa.Value, rt types.Type) Value {
	switch name {
	case "len":
		switch s := args[0].(type) {
		case Slice:
			return p.F.norm(s.Len)
		case *StrV:
			if s.c != nil {
				return pConst(int64(len(*s.c)))
			}
			return p.freshAtom("strlen", false)
		case *MapV:
			if s.Own == localOwner {
				return pConst(int64(len(s.keys)))
			}
		case *ArrayV:
			return pConst(s.T.Underlying().(*types.Array).Len())
		}
		return p.freshAtom("len", false)
	case "cap":
		if s, ok := args[0].(Slice); ok {
			return p.F.norm(s.Cap)
		}
		return p.freshAtom("cap", false)
	case "append":
		return p.doAppend(args[0], args[1])
	case "copy":
		d, ok := args[0].(Slice)
		s, ok2 := args[1].(Slice)
		if !ok || !ok2 {
			return p.freshAtom("copied", false)
		}
		if d.A == nil || s.A == nil {
			return pConst(0)
		}
		p.noteWrite(d.A.own, "copy into element data")
		p.doCopy(d, s)
		if pEq(p.F.norm(d.Len), p.F.norm(s.Len)) {
			return d.Len
		}
		return p.freshAtom("copied", false)
	case "panic":
		p.end("panic", p.str(args[0]))
	case "close":
		if c, ok := args[0].(*ChanV); ok {
			if c.closed {
				p.end("panic", "close of closed channel")
			}
			c.closed = true
		}
		return nil
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			k := p.mapKey(args[1])
			if _, has := m.elems[k]; has {
				delete(m.elems, k)
				var keys []Value
				for _, x := range m.keys {
					if p.mapKey(x) != k {
						keys = append(keys, x)
					}
				}
				m.keys = keys
			}
		}
		return nil
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			m.elems, m.keys = map[string]Value{}, nil
		}
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		if isFloatT(rt) {
			r := p.toFloat(args[0])
			for _, a := range args[1:] {
				f := p.toFloat(a)
				e := minMaxTerm(name == "max", r.e, f.e)
				if r.poly {
					r = &FloatV{u: f.u, poly: f.poly, dep: depJoin(r.dep, f.dep), e: e}
					continue
				}
				if !f.poly {
					p.equate(r.u, f.u, "min/max")
				}
				r = &FloatV{u: r.u, dep: depJoin(r.dep, f.dep), e: e}
			}
			return r
		}
		r := p.intVal(args[0])
		for _, a := range args[1:] {
			q := p.intVal(a)
			// r >= q ?
			ge := p.decide(&BoolV{kind: bGE, p: pSub(r, q)})
			if ge != (name == "max") {
				r = q
			}
		}
		return r
	case "recover":
		return NilV{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	p.unsupported("builtin %s", name)
	return nil
}

func (p *Path) doCopy(d, s Slice) {
	if p.kspan && d.A != nil && s.A != nil {
		n := s.Len
		if !p.F.geZero(pSub(d.Len, s.Len)) {
			n = d.Len
		}
		p.span("read", "copy", s.A, s.Off, pAdd(s.Off, n))
		p.span("wrote", "copy", d.A, d.Off, pAdd(d.Off, n))
	}
	if d.A.isFloat {
		e := d.A.e
		p.copyFloats(d.A, s.A)
		d.A.e = e
		p.copyTerm(d, s)
		return
	}
	n, c := p.F.norm(s.Len).isConst()
	dl, c2 := p.F.norm(d.Len).isConst()
	if c && c2 {
		if dl < n {
			n = dl
		}
		for i := int64(0); i < n; i++ {
			p.storeLoc(p.elemLoc(d.A, pAdd(d.Off, pConst(i))), p.loadElem(s, pConst(i)))
		}
		return
	}
	d.A.bulk = append(d.A.bulk, bulkCopy{d.Off, s.Len, s})
}

func (p *Path) doAppend(a, b Value) Value {
	s, ok := a.(Slice)
	if !ok {
		if _, isNil := a.(NilV); !isNil {
			p.unsupported("append to %T", a)
		}
	}
	t, ok := b.(Slice)
	if !ok {
		if _, isStr := b.(*StrV); isStr {
			t = p.fresh(types.NewSlice(types.Typ[types.Byte]), "str").(Slice)
		} else {
			return s
		}
	}
	if t.A == nil {
		return s
	}
	nl := p.F.norm(pAdd(s.Len, t.Len))
	inPlace := false
	if s.A != nil {
		room := &BoolV{kind: bGE, p: p.F.norm(pSub(s.Cap, nl))}
		if v, ok := p.static(room); ok {
			inPlace = v
		} else if p.loopers > 0 {
			// inside a generic iteration capacity is not tracked: stay with
			// the larger aliasing assumption when there was spare room before
			inPlace = !pEq(p.F.norm(s.Cap), p.F.norm(s.Len))
		} else {
			inPlace = p.decide(room)
		}
	}
	if inPlace {
		p.noteWrite(s.A.own, "append within capacity")
		dst := Slice{s.A, pAdd(s.Off, s.Len), t.Len, t.Len}
		p.doCopy(dst, t)
		return Slice{s.A, s.Off, nl, s.Cap}
	}
	na := p.newArr(t.A.elem, nl, p.site(), localOwner)
	r := Slice{na, pConst(0), nl, nl}
	if s.A != nil {
		p.doCopy(Slice{na, pConst(0), s.Len, s.Len}, s)
	}
	p.doCopy(Slice{na, s.Len, t.Len, t.Len}, t)
	return r
}

var _ = big.NewRat

func infinity(f *FloatV) int {
	switch {
	case f.c == nil || f.e != nil:
	case math.IsInf(*f.c, 1):
		return 1
	case math.IsInf(*f.c, -1):
		return -1
	}
	return 0
}
