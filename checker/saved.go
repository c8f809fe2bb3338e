package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Serialization: what gob keeps of a model is computed on the model as built
// (unexported fields, functions and channels are lost, empty lists and maps
// become nil, values behind interfaces need a registered type), and the model
// that is left has to compute what the original computes.

// registered lists the types that package initializers register with gob.
func registered(P *Program) (out typeList) {
	for fn := range P.All() {
		if !inModule(pkgOf(fn)) || fn.Blocks == nil {
			continue
		}
		if n := fn.Name(); n != "init" && !strings.HasPrefix(n, "init#") {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var scan func(fn *ssa.Function)
		scan = func(fn *ssa.Function) {
			if seen[fn] || fn.Blocks == nil || !inModule(pkgOf(fn)) {
				return
			}
			seen[fn] = true
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(*ssa.Call)
					if !ok {
						continue
					}
					callee := c.Call.StaticCallee()
					if callee == nil {
						continue
					}
					switch extName(callee) {
					case "encoding/gob.Register", "encoding/gob.RegisterName":
						if mi, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.MakeInterface); ok {
							out = append(out, mi.X.Type())
						}
					default:
						if inModule(pkgOf(callee)) && !strings.HasPrefix(callee.Name(), "init") {
							scan(callee)
						}
					}
				}
			}
		}
		scan(fn)
	}
	return out
}

func (I *Interp) isRegistered(t types.Type) bool {
	if I.gobTypes == nil {
		I.gobTypes = registered(I.P)
	}
	return I.gobTypes.has(t)
}

type typeList []types.Type

// has tells whether a type is in the list; gob tells a pointer type from its
// base type only by the name.
func (l typeList) has(t types.Type) bool {
	for _, x := range l {
		if types.Identical(x, t) || types.Identical(deref(x), deref(t)) {
			return true
		}
	}
	return false
}

func hasMethod(t types.Type, pkg *types.Package, names ...string) bool {
	for _, n := range names {
		for _, u := range []types.Type{t, types.NewPointer(t)} {
			if _, isI := t.Underlying().(*types.Interface); isI && u != t {
				continue
			}
			if s := types.NewMethodSet(u).Lookup(pkg, n); s != nil {
				return true
			}
		}
	}
	return false
}

// save leaves of a value what encoding and decoding it leaves. It returns
// what cannot be encoded.
func (p *Path) save(v Value) (problems []string) {
	seen := map[*Loc]bool{}
	bad := func(path, f string, a ...interface{}) {
		if path == "" {
			path = "the model"
		}
		problems = append(problems, path+" "+fmt.Sprintf(f, a...))
	}
	var keep func(path string, t types.Type, v Value, elem bool) Value
	fields := func(path string, l *Loc) {
		st := l.T.Underlying().(*types.Struct)
		kept := 0
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			k := p.kid(l, i)
			switch f.Type().Underlying().(type) {
			case *types.Signature, *types.Chan:
				p.storeLoc(k, p.zero(f.Type()))
				continue
			}
			if !f.Exported() {
				p.storeLoc(k, p.zero(f.Type()))
				continue
			}
			kept++
			if _, isS := f.Type().Underlying().(*types.Struct); isS {
				keep(path+"."+f.Name(), k.T, k, false)
				continue
			}
			p.storeLoc(k, keep(path+"."+f.Name(), f.Type(), p.loadLoc(k), false))
		}
		if kept == 0 && st.NumFields() > 0 {
			bad(path, "has no exported fields (%s)", l.T)
		}
	}
	keep = func(path string, t types.Type, v Value, elem bool) Value {
		switch x := v.(type) {
		case *Iface:
			if _, isI := t.Underlying().(*types.Interface); isI && !p.I.isRegistered(x.T) {
				bad(path, "holds a %s, which is not registered with gob", x.T)
			}
			return &Iface{T: x.T, V: keep(path, x.T, x.V, false)}
		case NilV:
			if elem {
				bad(path, "is nil in a list")
			}
			return v
		case *Loc:
			if seen[x] {
				return v
			}
			seen[x] = true
			if pk := pkgOfType(x.T); pk != nil && pk.Path() == matPath && nameOfType(x.T) == "Dense" {
				return v // its encoding is checked by itself
			}
			if hasMethod(x.T, nil, "GobEncode", "MarshalBinary", "MarshalText") {
				p.unsupported("%s encodes itself", x.T)
			}
			if pk := pkgOfType(x.T); pk != nil && !inModule(pk) {
				if _, isS := x.T.Underlying().(*types.Struct); isS {
					p.storeLoc(x, p.zero(x.T))
				}
				return v
			}
			if _, isS := x.T.Underlying().(*types.Struct); isS {
				fields(path, x)
			} else {
				p.storeLoc(x, keep(path, x.T, p.loadLoc(x), false))
			}
			return v
		case Slice:
			n, isc := p.F.norm(x.Len).isConst()
			if isc && n == 0 {
				return Slice{nil, pConst(0), pConst(0), pConst(0)}
			}
			if x.A == nil || x.A.isFloat {
				return v
			}
			if !isc {
				if _, basic := x.A.elem.Underlying().(*types.Basic); basic {
					return v
				}
				p.unsupported("list of unknown length")
			}
			for j := int64(0); j < n; j++ {
				l := p.elemLoc(x.A, pAdd(x.Off, pConst(j)))
				p.storeLoc(l, keep(path+"[]", x.A.elem, p.loadLoc(l), true))
			}
			return v
		case *ArrayV:
			t := x.T.Underlying().(*types.Array)
			for i := range x.F {
				x.F[i] = keep(path+"[]", t.Elem(), x.F[i], true)
			}
			return v
		case *MapV:
			if len(x.keys) == 0 {
				return NilV{}
			}
			for _, k := range x.keys {
				key := p.mapKey(k)
				x.elems[key] = keep(path+"[]", x.T.Underlying().(*types.Map).Elem(), x.elems[key], true)
			}
			return v
		}
		return v
	}
	switch x := v.(type) {
	case *Iface:
		keep("", x.T, x.V, false)
	default:
		keep("", types.Typ[types.Invalid], v, false)
	}
	sort.Strings(problems)
	return problems
}

// runSaved runs the models as they are after a save and a load.
func runSaved(P *Program, deep bool) *matSuite {
	S := &matSuite{}
	type job struct {
		t *compTarget
		k int
	}
	var jobs []job
	for _, t := range compTargets {
		if !strings.HasPrefix(t.name, "nn/") || !strings.Contains(t.name, os.Getenv("SPAGOVERIF_ONLY")) {
			continue
		}
		S.units = append(S.units, t.name)
		ks := t.cfgs[len(t.cfgs)-1:]
		if len(t.cfgs) > 2 {
			ks = t.cfgs[2:3]
		}
		if deep {
			ks = t.cfgs
		}
		for _, k := range ks {
			jobs = append(jobs, job{t, k})
		}
	}
	S.results = parallel(len(jobs), func(i int) (r *opResult) {
		j := jobs[i]
		const prop = "C24"
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("SPAGOVERIF_DEBUG") != "" {
					panic(e)
				}
				r = &opResult{unit: j.t.name, stages: map[string]int{"internal": 1}}
				r.facts = append(r.facts, opFact{"unknown", "*", "analysis", j.t.name, "-", fmt.Sprint(e)})
			}
		}()
		reset := func() { r = &opResult{unit: j.t.name, stages: map[string]int{}} }
		reset()
		I := NewInterp(P)
		I.terms, I.zeros, I.closed = true, true, true
		saved := false
		I.saved = func(p *Path, m Value) {
			l := p.save(m)
			saved = true
			if len(l) == 0 {
				r.add("ok", prop, "can be saved", "", "", "")
			}
			for _, x := range l {
				r.add("fail", prop, "can be saved", strings.TrimPrefix(strings.SplitN(x, " ", 2)[0], "."), "-", "%s", x)
			}
		}
		n, complete := I.runComp(j.t, "64", j.k, reset, func(c *comp) {
			if saved && c.end != nil && c.end.kind == "panic" && len(c.wants) == 0 {
				r.add("fail", prop, "loaded model works", "", c.end.pos, "the loaded model panics: %s [path: %s]", c.end.msg, c.p.condText())
				return
			}
			if saved {
				r.judgeComp(prop, j.t, c)
			}
		})
		r.paths, r.complete = n, complete
		return r
	})
	return S
}

func init() {
	checks["C24"] = func(C *Context, r *Report) {
		P := C.prog(loadOpts{instance: true})
		S := runSaved(P, C.tier == "thorough")
		saved := map[string]bool{}
		for _, x := range S.results {
			r.Count("configurations analysed", 1)
			r.Count("abstract paths", x.paths)
			x.tell(r, "C24")
			for _, f := range x.facts {
				if f.kind == "ok" && f.prop == "C24" && f.rule == "result as defined" {
					saved[x.unit] = true
				}
			}
		}
		r.Require("loaded models with a proved result", len(saved), 25)
		checkRegistered(P, r)
	}
}

// checkRegistered: what constructors of models give, and what optimizers keep
// with a parameter, can be behind an interface when it is saved.
func checkRegistered(P *Program, r *Report) {
	reg := registered(P)
	is := reg.has
	nn := P.ssaPkg(nnPath)
	if nn == nil || nn.Type("Model") == nil || nn.Type("Param") == nil {
		r.Unknown("registered with gob", "nn", "-", "no nn.Model")
		return
	}
	model := nn.Type("Model").Type().Underlying().(*types.Interface)
	models, states := 0, 0
	stateAt := map[string]types.Type{}
	for fn := range P.All() {
		pk := pkgOf(fn)
		if !inModule(pk) || fn.Blocks == nil || strings.Contains(pk.Path(), "/examples/") || strings.HasPrefix(fn.Name(), "spagoverif") {
			continue
		}
		if strings.HasPrefix(pk.Path(), nnPath+"/") && fn.Parent() == nil && fn.Signature.Recv() == nil && ssaExported(fn) && fn.Signature.Results().Len() >= 1 {
			t := fn.Signature.Results().At(0).Type()
			if q, ok := t.(*types.Pointer); ok && pkgOfType(q.Elem()) == pk && types.Implements(t, model) && fn.TypeParams().Len() == len(fn.TypeArgs()) {
				models++
				name := shortType(t)
				if is(t) {
					r.OK("registered with gob", name)
				} else {
					r.Fail("registered with gob", name, P.pos(fn.Pos()), "%s makes a %s, which no package registers with gob: behind an interface it cannot be saved", fnName(fn), name)
				}
			}
		}
		// what is stored in Param.State
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(deref(fa.X.Type()), fa.Field) != "State" || nameOfType(deref(fa.X.Type())) != "Param" {
					continue
				}
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					stateAt[mi.X.Type().String()] = mi.X.Type()
				}
			}
		}
	}
	var names []string
	for n := range stateAt {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := stateAt[n]
		states++
		name := shortType(t)
		if !is(t) {
			r.Fail("registered with gob", name, "-", "a parameter keeps a %s as its State, which no package registers with gob: the parameter cannot be saved", name)
		} else {
			r.OK("registered with gob", name)
		}
		if hasMethod(deref(t), nil, "GobEncode", "MarshalBinary") {
			r.Unknown("state kept", name, "-", "%s encodes itself", name)
			continue
		}
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if pk := pkgOfType(deref(f.Type())); pk != nil && pk.Path() == "sync" {
				continue
			}
			if f.Exported() {
				r.OK("state kept", name+"."+f.Name())
			} else {
				r.Fail("state kept", name+"."+f.Name(), P.pos(f.Pos()), "%s.%s is not exported: it is lost when the optimizer's state is saved with the parameter", name, f.Name())
			}
		}
	}
	r.Require("model types", models, 25)
	r.Require("optimizer states", states, 5)
}

func ssaExported(fn *ssa.Function) bool {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	return f.Object() != nil && f.Object().Exported()
}

func shortType(t types.Type) string {
	return strings.ReplaceAll(t.String(), modPath+"/", "")
}
