package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Parameter traversal: the functions of nn that visit the parameters and parts
// of a model are run on every model of the library, and on one that holds
// parameters in all supported ways; what they visit is compared with what the
// model holds.

// NativeV is a function value of the analysis.
type NativeV struct{ f func(args []Value) Value }

// NativeObj is an interface value whose methods the analysis provides.
type NativeObj struct {
	T    types.Type
	call func(m *types.Func, args []Value) Value
}

// reflV is a reflect.Value: a value of static type T.
type reflV struct {
	T     types.Type // nil: the zero reflect.Value
	v     Value
	hides bool // obtained through an unexported field
}

type mapIterV struct {
	m *reflV
	i int
}

func (p *Path) refl(v Value) *reflV {
	switch x := v.(type) {
	case *reflV:
		return x
	case *StructV:
		return &reflV{}
	}
	p.unsupported("a reflect.Value is a %T", v)
	return nil
}

func reflKind(t types.Type) int64 {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8, types.Int16, types.Int32, types.Int64:
			return 3 + int64(u.Kind()-types.Int8)
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return 7 + int64(u.Kind()-types.Uint)
		case types.Float32, types.Float64, types.Complex64, types.Complex128:
			return 13 + int64(u.Kind()-types.Float32)
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// reflType is a reflect.Type.
func (p *Path) reflType(t types.Type) Value {
	return &NativeObj{T: t, call: func(m *types.Func, args []Value) Value {
		switch m.Name() {
		case "Kind":
			return pConst(reflKind(t))
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return p.reflType(u.Elem())
			case *types.Slice:
				return p.reflType(u.Elem())
			case *types.Array:
				return p.reflType(u.Elem())
			case *types.Map:
				return p.reflType(u.Elem())
			}
		case "NumField":
			if u, ok := t.Underlying().(*types.Struct); ok {
				return pConst(int64(u.NumFields()))
			}
		case "Name":
			s := nameOfType(t)
			return &StrV{c: &s}
		case "Field":
			u, ok := t.Underlying().(*types.Struct)
			i, known := p.intVal(args[0]).isConst()
			if !ok || !known || i < 0 || int(i) >= u.NumFields() {
				break
			}
			sf := p.zero(m.Type().(*types.Signature).Results().At(0).Type()).(*StructV)
			st := sf.T.Underlying().(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				switch st.Field(j).Name() {
				case "Name":
					n := u.Field(int(i)).Name()
					sf.F[j] = &StrV{c: &n}
				case "PkgPath":
					n := ""
					if !u.Field(int(i)).Exported() {
						n = u.Field(int(i)).Pkg().Path()
					}
					sf.F[j] = &StrV{c: &n}
				case "Type":
					sf.F[j] = p.reflType(u.Field(int(i)).Type())
				case "Anonymous":
					sf.F[j] = vBool(u.Field(int(i)).Embedded())
				}
			}
			return sf
		case "IsExported":
		}
		p.unsupported("reflect.Type.%s of %s", m.Name(), t)
		return nil
	}}
}

func (p *Path) reflOf(v Value) *reflV {
	switch x := v.(type) {
	case *Iface:
		return &reflV{T: x.T, v: x.V}
	case NilV, nil:
		return &reflV{}
	}
	p.unsupported("reflection on %T", v)
	return nil
}

// reflExternals models reflection on values of known types.
var reflExternals map[string]extFn

func init() {
	reflExternals = map[string]extFn{
		"reflect.ValueOf": func(p *Path, fn *ssa.Function, args []Value) Value { return p.reflOf(args[0]) },
		"reflect.TypeOf": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.reflOf(args[0])
			if r.T == nil {
				return NilV{}
			}
			return p.reflType(r.T)
		},
		"reflect.Indirect": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			if r.T != nil {
				if _, is := r.T.Underlying().(*types.Pointer); is {
					return p.reflElem(r)
				}
			}
			return r
		},
		"(reflect.Value).Kind":    func(p *Path, fn *ssa.Function, args []Value) Value { return pConst(reflKind(p.refl(args[0]).T)) },
		"(reflect.Value).Type":    func(p *Path, fn *ssa.Function, args []Value) Value { return p.reflType(p.refl(args[0]).T) },
		"(reflect.Value).IsValid": func(p *Path, fn *ssa.Function, args []Value) Value { return vBool(p.refl(args[0]).T != nil) },
		"(reflect.Value).Elem":    func(p *Path, fn *ssa.Function, args []Value) Value { return p.reflElem(p.refl(args[0])) },
		"(reflect.Value).IsNil": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			switch reflKind(r.T) {
			case 18, 19, 20, 21, 22, 23, 26:
			default:
				p.end("panic", "reflect.Value.IsNil of what cannot be nil")
			}
			if s, ok := r.v.(Slice); ok {
				return vBool(s.A == nil)
			}
			n, ok := p.isNil(r.v)
			if !ok {
				p.unsupported("IsNil of %T", r.v)
			}
			return vBool(n)
		},
		"(reflect.Value).IsZero": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			if n, ok := p.isNil(r.v); ok {
				return vBool(n)
			}
			p.unsupported("IsZero of %T", r.v)
			return nil
		},
		"(reflect.Value).CanInterface": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			if r.T == nil {
				p.end("panic", "reflect.Value.CanInterface of the zero Value")
			}
			return vBool(!r.hides)
		},
		"(reflect.Value).Interface": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			if r.T == nil || r.hides {
				p.end("panic", "reflect.Value.Interface")
			}
			if _, is := r.T.Underlying().(*types.Interface); is {
				return r.v
			}
			return &Iface{T: r.T, V: r.v}
		},
		"(reflect.Value).NumField": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			st, ok := r.structType()
			if !ok {
				p.end("panic", "reflect.Value.NumField of no struct")
			}
			return pConst(int64(st.NumFields()))
		},
		"(reflect.Value).Field": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			st, ok := r.structType()
			i, known := p.intVal(args[1]).isConst()
			if !ok || known && (i < 0 || int(i) >= st.NumFields()) {
				p.end("panic", "reflect.Value.Field")
			}
			s, is := r.v.(*StructV)
			if !known || !is {
				p.unsupported("reflect.Value.Field of %T", r.v)
			}
			f := st.Field(int(i))
			return &reflV{T: f.Type(), v: s.F[i], hides: r.hides || !f.Exported()}
		},
		"(reflect.Value).Len": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			switch x := r.v.(type) {
			case Slice:
				return x.Len
			case *ArrayV:
				return pConst(x.T.Underlying().(*types.Array).Len())
			case *MapV:
				return pConst(int64(len(x.keys)))
			}
			if reflKind(r.T) == 21 {
				return pConst(0)
			}
			p.unsupported("reflect.Value.Len of %T", r.v)
			return nil
		},
		"(reflect.Value).Index": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			i := p.intVal(args[1])
			switch x := r.v.(type) {
			case Slice:
				p.bounds(x, i)
				return &reflV{T: r.T.Underlying().(*types.Slice).Elem(), v: p.loadElem(x, i), hides: r.hides}
			case *ArrayV:
				at := r.T.Underlying().(*types.Array)
				n, known := i.isConst()
				if !known {
					break
				}
				if n < 0 || n >= at.Len() {
					p.end("panic", "reflect.Value.Index")
				}
				v := x.F[int(n)]
				if v == nil {
					v = p.zero(at.Elem())
				}
				return &reflV{T: at.Elem(), v: v, hides: r.hides}
			}
			p.unsupported("reflect.Value.Index of %T", r.v)
			return nil
		},
		"(reflect.Value).MapRange": func(p *Path, fn *ssa.Function, args []Value) Value {
			return &mapIterV{m: p.refl(args[0]), i: -1}
		},
		"(reflect.Value).MapKeys": func(p *Path, fn *ssa.Function, args []Value) Value {
			r := p.refl(args[0])
			et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			var l []Value
			if m, ok := r.v.(*MapV); ok {
				for _, k := range m.keys {
					l = append(l, &reflV{T: r.T.Underlying().(*types.Map).Key(), v: k, hides: r.hides})
				}
			}
			return (&comp{p: p}).sliceOf(et, l...)
		},
		"(reflect.Value).MapIndex": func(p *Path, fn *ssa.Function, args []Value) Value {
			r, k := p.refl(args[0]), p.refl(args[1])
			if m, ok := r.v.(*MapV); ok {
				if v, has := m.elems[p.mapKey(k.v)]; has {
					return &reflV{T: r.T.Underlying().(*types.Map).Elem(), v: v, hides: r.hides}
				}
			}
			return &reflV{}
		},
		"(*reflect.MapIter).Next": func(p *Path, fn *ssa.Function, args []Value) Value {
			it, ok := args[0].(*mapIterV)
			if !ok {
				p.unsupported("a map iterator is a %T", args[0])
			}
			it.i++
			m, ok := it.m.v.(*MapV)
			return vBool(ok && it.i < len(m.keys))
		},
		"(*reflect.MapIter).Key": func(p *Path, fn *ssa.Function, args []Value) Value {
			it := args[0].(*mapIterV)
			return &reflV{T: it.m.T.Underlying().(*types.Map).Key(), v: it.m.v.(*MapV).keys[it.i], hides: it.m.hides}
		},
		"(*reflect.MapIter).Value": func(p *Path, fn *ssa.Function, args []Value) Value {
			it := args[0].(*mapIterV)
			m := it.m.v.(*MapV)
			return &reflV{T: it.m.T.Underlying().(*types.Map).Elem(), v: m.elems[p.mapKey(m.keys[it.i])], hides: it.m.hides}
		},
		"(*sync.Map).Store": func(p *Path, fn *ssa.Function, args []Value) Value {
			l, ok := args[0].(*Loc)
			if !ok {
				p.unsupported("a sync.Map is a %T", args[0])
			}
			if p.syncMaps == nil {
				p.syncMaps = map[*Loc][][2]Value{}
			}
			p.syncMaps[l] = append(p.syncMaps[l], [2]Value{args[1], args[2]})
			return nil
		},
		"(*sync.Map).Range": func(p *Path, fn *ssa.Function, args []Value) Value {
			l, ok := args[0].(*Loc)
			if !ok {
				p.unsupported("a sync.Map is a %T", args[0])
			}
			for _, kv := range p.syncMaps[l] {
				if !p.decide(p.boolVal(p.callValue(args[1], []Value{kv[0], kv[1]}, nil, nil))) {
					break
				}
			}
			return nil
		},
		"sort.Ints": func(p *Path, fn *ssa.Function, args []Value) Value {
			s, ok := args[0].(Slice)
			n, known := p.F.norm(s.Len).isConst()
			var l []int
			for i := int64(0); ok && known && i < n; i++ {
				v, isc := p.intVal(p.loadElem(s, pConst(i))).isConst()
				if !isc {
					p.unsupported("order of unknown integers")
				}
				l = append(l, int(v))
			}
			sort.Ints(l)
			for i, v := range l {
				p.storeLoc(p.elemLoc(s.A, pConst(int64(i))), pConst(int64(v)))
			}
			return nil
		},
		"fmt.Sprintf": func(p *Path, fn *ssa.Function, args []Value) Value { return &StrV{} },
		"(context.Context).Done": func(p *Path, fn *ssa.Function, args []Value) Value {
			return NilV{}
		},
	}
}

func (r *reflV) structType() (*types.Struct, bool) {
	if r.T == nil {
		return nil, false
	}
	st, ok := r.T.Underlying().(*types.Struct)
	return st, ok
}

func (p *Path) reflElem(r *reflV) Value {
	switch reflKind(r.T) {
	case 20:
		return p.reflOf(r.v)
	case 22:
		l, ok := r.v.(*Loc)
		if !ok {
			return &reflV{}
		}
		return &reflV{T: l.T, v: p.loadLoc(l), hides: r.hides}
	}
	p.end("panic", "reflect.Value.Elem")
	return nil
}

// ---- what a model holds ---------------------------------------------------

type holding struct {
	params map[*Loc]string // all parameters, by where they are held
	own    map[*Loc]string // those not held by a part
	parts  map[*Loc]string // parts that are models, by pointer
	copies map[string]int  // parts held by value, by type
	hidden map[string]bool // paths that pass through an unexported field
}

func isModelType(t types.Type, model *types.Interface) bool { return types.Implements(t, model) }

// holds collects the parameters and the parts of a model.
func (p *Path) holds(m Value) *holding {
	h := &holding{params: map[*Loc]string{}, own: map[*Loc]string{}, parts: map[*Loc]string{}, copies: map[string]int{}, hidden: map[string]bool{}}
	nn := p.I.P.ssaPkg(nnPath)
	model := nn.Type("Model").Type().Underlying().(*types.Interface)
	trav := nn.Type("ParamsTraverser").Type().Underlying().(*types.Interface)
	at := func(t types.Type, name string) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == nnPath && n.Obj().Name() == name
	}
	seen := map[*Loc]bool{}
	var walk func(path string, t types.Type, v Value, top, own bool)
	fields := func(path string, t types.Type, f func(i int) Value, own bool) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			if !st.Field(i).Exported() {
				h.hidden[path+"."+n] = true
			}
			walk(path+"."+n, st.Field(i).Type(), f(i), false, own)
		}
	}
	walk = func(path string, t types.Type, v Value, top, own bool) {
		switch x := v.(type) {
		case *Iface:
			walk(path, x.T, x.V, top, own)
		case *Loc:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			_, isS := x.T.Underlying().(*types.Struct)
			switch {
			case at(x.T, "Param"):
				h.params[x] = path
				if own {
					h.own[x] = path
				}
				return
			case at(x.T, "Module") || at(x.T, "Buffer") || !isS:
				return
			case pkgOfType(x.T) != nil && !inModule(pkgOfType(x.T)):
				if nameOfType(x.T) == "Map" {
					for _, kv := range p.syncMaps[x] {
						walk(path+"[]", nil, kv[1], false, own)
					}
				}
				return
			}
			if !top && types.Implements(types.NewPointer(x.T), model) {
				h.parts[x] = path
				own = false
			}
			if types.Implements(types.NewPointer(x.T), trav) {
				// those with a gradient are to be visited
				st := x.T.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					s, ok := p.loadLoc(p.kid(x, i)).(Slice)
					if !ok || nameOfType(deref(s.elem())) != "Param" {
						continue
					}
					n, _ := p.F.norm(s.Len).isConst()
					for j := int64(0); j < n; j++ {
						l, ok := p.loadElem(s, pConst(j)).(*Loc)
						if !ok {
							continue
						}
						b, ok := p.static(p.boolVal(p.callNamed(&Iface{T: types.NewPointer(l.T), V: l}, "HasGrad")))
						if !ok {
							p.unsupported("HasGrad is not known")
						}
						if b {
							h.params[l] = fmt.Sprintf("%s.%s[%d]", path, st.Field(i).Name(), j)
							if own || top {
								h.own[l] = h.params[l]
							}
						}
					}
				}
				return
			}
			fields(path, x.T, func(i int) Value {
				k := p.kid(x, i)
				switch k.T.Underlying().(type) {
				case *types.Struct:
					if types.Implements(k.T, model) && !at(k.T, "Module") || pkgOfType(k.T) != nil && !inModule(pkgOfType(k.T)) {
						if nameOfType(k.T) != "Map" {
							return p.loadLoc(k)
						}
					}
					return k
				}
				return p.loadLoc(k)
			}, own)
		case *StructV:
			if at(x.T, "Module") || pkgOfType(x.T) != nil && !inModule(pkgOfType(x.T)) {
				return
			}
			if types.Implements(x.T, model) {
				h.copies[x.T.String()]++
				own = false
			}
			fields(path, x.T, func(i int) Value { return x.F[i] }, own)
		case Slice:
			n, isc := p.F.norm(x.Len).isConst()
			if !isc && x.A != nil && !x.A.isFloat {
				if b, ok := x.A.elem.Underlying().(*types.Basic); !ok || b == nil {
					p.unsupported("list of unknown length in a model")
				}
			}
			if isc && x.A != nil && !x.A.isFloat {
				for j := int64(0); j < n; j++ {
					walk(path+"[]", x.A.elem, p.loadElem(x, pConst(j)), false, own)
				}
			}
		case *ArrayV:
			var is []int
			for i := range x.F {
				is = append(is, i)
			}
			sort.Ints(is)
			for _, i := range is {
				walk(path+"[]", nil, x.F[i], false, own)
			}
		case *MapV:
			for _, k := range x.keys {
				walk(path+"[]", nil, x.elems[p.mapKey(k)], false, own)
			}
		}
	}
	walk("", nil, m, true, true)
	return h
}

// judgeVisits compares what is visited with what is held.
func (r *opResult) judgeVisits(p *Path, m Value) {
	const prop = "C23"
	c := &comp{p: p, width: "64"}
	h := p.holds(m)
	ptr := func(v Value) *Loc {
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		l, _ := v.(*Loc)
		return l
	}
	count := func(rule, by string, want map[*Loc]string, got map[*Loc]int) {
		for l, path := range want {
			switch n := got[l]; {
			case n == 1:
				r.add("ok", prop, rule, path, "", "")
			case n == 0:
				why := ""
				if h.hidden[path] {
					why = " (the field is not exported)"
				}
				r.add("fail", prop, rule, path, "-", "%s does not visit %s%s", by, path, why)
			default:
				r.add("fail", prop, rule, path, "-", "%s visits %s %d times", by, path, n)
			}
		}
		for l, n := range got {
			if _, ok := want[l]; !ok && n > 0 {
				name := h.params[l]
				if name == "" {
					name = h.parts[l]
				}
				if name == "" {
					name = "something that is not its own"
				}
				r.add("fail", prop, rule, name, "-", "%s visits %s", by, name)
			}
		}
	}
	visit := func(fn string, model bool) (map[*Loc]int, map[string]int, []Value) {
		got, copies := map[*Loc]int{}, map[string]int{}
		var order []Value
		c.call("nn", fn, m, &NativeV{func(args []Value) Value {
			order = append(order, args[0])
			if l := ptr(args[0]); l != nil {
				got[l]++
			} else if i, ok := args[0].(*Iface); ok {
				copies[i.T.String()]++
			} else {
				copies["nil"]++
			}
			return nil
		}})
		return got, copies, order
	}
	got, other, _ := visit("ForEachParam", false)
	count("every parameter visited once", "nn.ForEachParam", h.params, got)
	if len(other) > 0 {
		r.add("fail", prop, "every parameter visited once", "", "-", "nn.ForEachParam visits what is no parameter")
	}
	got, _, _ = visit("ForEachParamStrict", false)
	count("own parameters visited once", "nn.ForEachParamStrict", h.own, got)

	got, copies, order := visit("Apply", true)
	top := ptr(m)
	if len(order) == 0 || ptr(order[0]) != top {
		r.add("fail", prop, "every part visited once", "", "-", "nn.Apply does not start with the model itself")
	} else {
		r.add("ok", prop, "every part visited once", "", "", "")
	}
	parts := map[*Loc]string{top: "the model itself"}
	for l, s := range h.parts {
		parts[l] = s
	}
	count("every part visited once", "nn.Apply", parts, got)
	for _, t := range unionKeys(h.copies, copies) {
		if h.copies[t] != copies[t] {
			r.add("fail", prop, "every part visited once", t, "-", "nn.Apply visits %d parts of type %s where there are %d", copies[t], t, h.copies[t])
		} else {
			r.add("ok", prop, "every part visited once", t, "", "")
		}
	}

	// the channel of parameters carries all of them, and ends
	ctx := &NativeObj{call: func(m *types.Func, args []Value) Value {
		switch m.Name() {
		case "Done", "Err":
			return NilV{}
		}
		p.unsupported("context.%s", m.Name())
		return nil
	}}
	if ch, ok := c.apply(c.call("nn", "Parameters", m), ctx).(*ChanV); ok {
		got := map[*Loc]int{}
		for _, v := range ch.buf {
			if l := ptr(v); l != nil {
				got[l]++
			}
		}
		count("every parameter sent once", "nn.Parameters", h.params, got)
		if !ch.closed {
			r.add("fail", prop, "every parameter sent once", "", "-", "the channel is not closed")
		}
	}

	// ZeroGrad reaches all of them
	pt := types.NewPointer(p.I.P.ssaPkg(nnPath).Type("Param").Type())
	var frozen []*Loc
	for l := range h.params {
		param := &Iface{T: pt, V: l}
		if b, ok := p.static(p.boolVal(p.callNamed(param, "RequiresGrad"))); !ok || !b {
			frozen = append(frozen, l)
			continue
		}
		d, ok := p.dimsOf(param)
		if !ok {
			p.unsupported("the shape of a parameter is not known")
		}
		w := "64"
		if inner, ok := p.loadLoc(p.kid(l, 0)).(*Iface); ok && isFloat32Of(inner.T) {
			w = "32"
		}
		if b, ok := p.static(p.boolVal(p.callNamed(param, "HasGrad"))); ok && b {
			continue
		}
		g := p.newMatrix(w, d[0], d[1], &Owner{kind: "operand", name: "gradient"}, p.U.fresh("[g]", true))
		p.callNamed(param, "AccGrad", g)
		if b, ok := p.static(p.boolVal(p.callNamed(param, "HasGrad"))); !ok || !b {
			p.unsupported("no gradient after AccGrad")
		}
	}
	c.call("nn", "ZeroGrad", m)
	for l, path := range h.params {
		b, ok := p.static(p.boolVal(p.callNamed(&Iface{T: pt, V: l}, "HasGrad")))
		switch {
		case !ok:
			r.add("unknown", prop, "gradients zeroed", path, "-", "HasGrad is not known")
		case b:
			r.add("fail", prop, "gradients zeroed", path, "-", "%s has a gradient after nn.ZeroGrad", path)
		default:
			r.add("ok", prop, "gradients zeroed", path, "", "")
		}
	}
	_ = frozen
}

func unionKeys(a, b map[string]int) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func runVisits(P *Program) *matSuite {
	S := &matSuite{}
	type job struct {
		t *compTarget
		k int
	}
	var jobs []job
	all := append([]*compTarget{}, compTargets...)
	all = append(all, &compTarget{name: "nn/every way to hold parameters", cfgs: []int{0}, run: func(c *comp) []compWant {
		c.models(&Iface{T: c.p.I.P.ssaPkg(nnPath).Func("spagoverifHolder").Signature.Results().At(0).Type(), V: c.call("nn", "spagoverifHolder")})
		return nil
	}})
	all = append(all, &compTarget{name: "nn/embedding", cfgs: []int{0}, run: func(c *comp) []compWant {
		c.models(c.create("nn/embedding", "New", pConst(4), pConst(2)))
		return nil
	}}, &compTarget{name: "nn/embedding with gradients", cfgs: []int{0}, run: func(c *comp) []compWant {
		m := c.create("nn/embedding", "New", pConst(4), pConst(2))
		xs := c.list(c.p.callNamed(m, "Encode", c.ints(3, 1, 3)).(Tuple)[0])
		for i, x := range xs {
			c.p.callNamed(x, "AccGrad", c.mat(fmt.Sprintf("g%d", i), pConst(2), pConst(1)))
		}
		c.models(m)
		return nil
	}}, &compTarget{name: "nn/embedding after ZeroGrad", cfgs: []int{0}, run: func(c *comp) []compWant {
		m := c.create("nn/embedding", "New", pConst(4), pConst(2))
		xs := c.list(c.p.callNamed(m, "Encode", c.ints(2, 0)).(Tuple)[0])
		for i, x := range xs {
			c.p.callNamed(x, "AccGrad", c.mat(fmt.Sprintf("g%d", i), pConst(2), pConst(1)))
		}
		c.p.callNamed(xs[0], "ZeroGrad")
		c.models(m)
		return nil
	}})
	for _, t := range all {
		if !strings.HasPrefix(t.name, "nn/") || !strings.Contains(t.name, os.Getenv("SPAGOVERIF_ONLY")) {
			continue
		}
		S.units = append(S.units, t.name)
		jobs = append(jobs, job{t, t.cfgs[len(t.cfgs)-1]})
	}
	S.results = parallel(len(jobs), func(i int) (r *opResult) {
		j := jobs[i]
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("SPAGOVERIF_DEBUG") != "" {
					panic(e)
				}
				r = &opResult{unit: j.t.name, stages: map[string]int{"internal": 1}}
				r.facts = append(r.facts, opFact{"unknown", "*", "analysis", j.t.name, "-", fmt.Sprint(e)})
			}
		}()
		reset := func() { r = &opResult{unit: j.t.name, stages: map[string]int{}} }
		reset()
		I := NewInterp(P)
		I.terms, I.zeros, I.closed, I.chans, I.reflect = true, true, true, true, true
		found := 0
		body := func(p *Path) *endPath {
			c := &comp{p: p, width: "64", k: j.k}
			c.models = func(m Value) {
				found++
				r.facts = nil // an earlier path got stuck
				r.judgeVisits(p, m)
				p.end("done", "")
			}
			j.t.run(c)
			return nil
		}
		n, complete := I.explore(j.t.name, reset, body, func(p *Path, e *endPath) {
			if os.Getenv("SPAGOVERIF_DEBUG") != "" {
				fmt.Println("PATH", e, p.condText(), p.labels)
			}
			if e == nil {
				return
			}
			switch e.kind {
			case "done":
				r.done++
			case "unsupported", "limit":
				r.add("unknown", "C23", "construct", "", e.pos, "%s", e.msg)
			case "panic":
				if found > 0 {
					r.add("fail", "C23", "visits return", "", e.pos, "visiting the model panics: %s", e.msg)
				}
			}
		})
		r.paths, r.complete = n, complete
		return r
	})
	return S
}

func init() {
	checks["C23"] = func(C *Context, r *Report) {
		S := runVisits(C.prog(loadOpts{instance: true}))
		visited := 0
		for _, x := range S.results {
			r.Count("abstract paths", x.paths)
			x.tell(r, "C23")
			if x.done > 0 {
				visited++
			}
		}
		r.Count("models built", len(S.units))
		r.Require("models visited", visited, 30)
	}
}

func (s Slice) elem() types.Type {
	if s.A == nil {
		return types.Typ[types.Invalid]
	}
	return s.A.elem
}

// ints makes a list of integers.
func (c *comp) ints(ns ...int64) Value {
	var l []Value
	for _, n := range ns {
		l = append(l, pConst(n))
	}
	return c.sliceOf(types.Typ[types.Int], l...)
}

func isReflValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

// isFloat32Of tells whether the type argument of a type is float32.
func isFloat32Of(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.TypeArgs().Len() != 1 {
		return false
	}
	b, ok := n.TypeArgs().At(0).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}
