package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What compositions of operators compute: losses, composed operators and
// models are run as written, operators included, and the elements of their
// results compared with a formula.

type compTarget struct {
	name string
	cfgs []int // variants, such as lengths of lists
	deep []int // more of them, for the thorough tier
	run  func(c *comp) []compWant
}

const givesResult = "a result where one is defined"

// total says that what the target is given always has a result; operators of
// ag are given operands of any shape, and take only some.
func (t *compTarget) total() bool { return !strings.HasPrefix(t.name, "ag.") }

type compWant struct {
	v      Value // a tensor
	r, c   *Poly
	pieces []valPiece
	sub    string
	bad    string
}

type comp struct {
	p               *Path
	width           string
	k               int
	end             *endPath
	wants           []compWant
	params          []compParam
	changed         map[string]*Expr
	n               int
	paths           map[*Loc]string  // parts of the model
	cuts            map[string]*Poly // parts that are not looked into, by the size of what they give
	ins             map[string][]Value
	models          func(m Value)    // what to do with a model instead of running it
	held            map[string]Value // matrices of the model
	used            map[string]bool  // draws that elements come from
	shuffle         func()
	drawn, shuffled []Value
	swaps           [][2]int64
}

// cut keeps the parts of a model opaque: what they are given is recorded, and
// what they give is named after them.
func (c *comp) cut(sizes map[string]*Poly) {
	c.cuts, c.ins = sizes, map[string][]Value{}
	c.p.T.cut = func(fn *ssa.Function, args []Value) (Value, bool) {
		if fn.Name() != "Forward" || len(args) != 2 {
			return nil, false
		}
		l, ok := args[0].(*Loc)
		if !ok {
			return nil, false
		}
		n, known := c.cuts[c.paths[l]]
		if !known {
			return nil, false
		}
		at := c.paths[l]
		var ys []Value
		for _, x := range c.list(args[1]) {
			ys = append(ys, c.vec(fmt.Sprintf("%s!%d", at, len(c.ins[at])), n))
			c.ins[at] = append(c.ins[at], c.value(x))
		}
		return c.slice(ys...), true
	}
}

// given compares what a part was given.
func (c *comp) given(at string, want []compWant) []compWant {
	if len(c.ins[at]) != len(want) {
		return c.wrong("%d inputs to %s where %d belong", len(c.ins[at]), at, len(want))
	}
	for i := range want {
		want[i].v = c.ins[at][i]
		want[i].sub = "input of " + at
	}
	return want
}

var compTargets []*compTarget

func composed(name string, f func(c *comp) []compWant) {
	compTargets = append(compTargets, &compTarget{name: name, cfgs: []int{0}, run: f})
}

func composedOver(name string, ks []int, f func(c *comp) []compWant) {
	compTargets = append(compTargets, &compTarget{name: name, cfgs: ks, run: f})
}

func composedDeep(name string, ks, deep []int, f func(c *comp) []compWant) {
	compTargets = append(compTargets, &compTarget{name: name, cfgs: ks, deep: deep, run: f})
}

// dim is a positive integer.
func (c *comp) dim(name string) *Poly {
	d := pAtom(name)
	c.p.F.addGE(pSub(d, pConst(1)))
	return d
}

func (c *comp) mat(name string, rows, cols *Poly) Value {
	return c.p.newMatrix(c.width, rows, cols, &Owner{kind: "operand", name: name}, c.p.U.fresh("["+name+"]", true))
}

func (c *comp) vec(name string, n *Poly) Value { return c.mat(name, n, pConst(1)) }

func (c *comp) num(name string) Value { return c.mat(name, pConst(1), pConst(1)) }

func (c *comp) float(name string) Value {
	return &FloatV{e: eSc(name), u: c.p.U.fresh("["+name+"]", true), dep: depOf(name)}
}

func (c *comp) bool(v bool) Value { return vBool(v) }

// pkgFunc calls a function of a package of the library.
func (c *comp) call(pkg, fn string, args ...Value) Value {
	sp := c.p.I.P.ssaPkg(modPath + "/" + pkg)
	if sp == nil || sp.Func(fn) == nil {
		c.p.unsupported("no function %s.%s", pkg, fn)
	}
	return c.p.call(sp.Func(fn), args, nil)
}

// create calls a constructor, at the width of the analysis if it is generic.
func (c *comp) create(pkg, fn string, args ...Value) Value {
	f := c.p.I.instanceOf(modPath+"/"+pkg, fn, c.width)
	if f == nil {
		c.p.unsupported("no function %s.%s", pkg, fn)
	}
	return &Iface{T: f.Signature.Results().At(0).Type(), V: c.p.call(f, args, nil)}
}

func (I *Interp) instanceOf(pkg, name, width string) (best *ssa.Function) {
	for fn := range I.P.All() {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Blocks == nil {
			continue
		}
		f := fn
		if o := fn.Origin(); o != nil {
			f = o
		}
		if f.Name() != name || pkgOf(fn) == nil || pkgOf(fn).Path() != pkg {
			continue
		}
		if f.TypeParams().Len() == 0 {
			return fn
		}
		if ta := fn.TypeArgs(); len(ta) == 1 {
			if b, ok := types.Unalias(ta[0]).(*types.Basic); ok && b.Name() == "float"+width && (best == nil || fn.String() > best.String()) {
				best = fn
			}
		}
	}
	return best
}

// config fills a configuration by the names of its fields; what is not named
// is zero.
func (c *comp) config(pkg, typ string, fields map[string]Value) Value {
	sp := c.p.I.P.ssaPkg(modPath + "/" + pkg)
	if sp == nil || sp.Type(typ) == nil {
		c.p.unsupported("no type %s.%s", pkg, typ)
	}
	t := sp.Type(typ).Type()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.p.unsupported("%s.%s is no struct", pkg, typ)
	}
	v := &StructV{T: t}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if x, ok := fields[st.Field(i).Name()]; ok {
			v.F = append(v.F, x)
			n++
			continue
		}
		v.F = append(v.F, c.p.zero(st.Field(i).Type()))
	}
	if n != len(fields) {
		c.p.unsupported("fields of %s.%s", pkg, typ)
	}
	return v
}

// name gives the elements of all parameters and buffers of a model arbitrary
// values, named after the fields they are in.
func (c *comp) name(model Value) {
	seen := map[interface{}]bool{}
	var walk func(path string, v Value)
	fill := func(path string, v Value) bool {
		i, ok := v.(*Iface)
		if !ok || c.p.I.methodNamed(i.T, pkgOfType(i.T), "Shape") == nil {
			return false
		}
		d, ok := c.p.dimsOf(v)
		a := c.p.floatArr(c.p.callNamed(v, "Data"))
		if !ok || a == nil {
			// a number
			return false
		}
		c.p.setArr(a, eEl(path))
		c.p.T.shapes[path] = d
		a.set = true
		c.p.setOwner(v, &Owner{kind: "param", name: path})
		c.params = append(c.params, compParam{path, a})
		if c.held != nil {
			c.held[path] = v
		}
		return true
	}
	join := func(a, b string) string {
		if a == "" {
			return b
		}
		return a + "." + b
	}
	walk = func(path string, v Value) {
		switch x := v.(type) {
		case *Iface:
			if !fill(path, x) {
				walk(path, x.V)
			}
		case *Loc:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			if c.paths == nil {
				c.paths = map[*Loc]string{}
			}
			c.paths[x] = path
			st, ok := x.T.Underlying().(*types.Struct)
			if !ok {
				walk(path, x.v)
				return
			}
			if n := nameOfType(x.T); (n == "Param" || n == "Buffer") && pkgOfType(x.T).Path() == nnPath {
				if fill(path, &Iface{T: types.NewPointer(x.T), V: x}) {
					return
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if n := nameOfType(f.Type()); n == "Module" || n == "Mutex" || n == "Config" {
					continue
				}
				w := path
				if !f.Embedded() || f.Type().String() == "" {
					w = join(path, f.Name())
				}
				l := c.p.kid(x, i)
				if _, isS := f.Type().Underlying().(*types.Struct); isS {
					walk(w, l)
				} else {
					walk(w, c.p.loadPtr(l))
				}
			}
		case Slice:
			if n, isc := c.p.F.norm(x.Len).isConst(); isc && x.A != nil && !x.A.isFloat {
				for j := int64(0); j < n; j++ {
					walk(fmt.Sprintf("%s[%d]", path, j), c.p.loadElem(x, pConst(j)))
				}
			}
		}
	}
	if c.p.T.shapes == nil {
		c.p.T.shapes = map[string][2]*Poly{}
	}
	if c.p.I.saved != nil {
		c.p.I.saved(c.p, model)
	}
	walk("", model)
	if c.models != nil {
		c.models(model)
	}
}

type compParam struct {
	name string
	a    *Arr
}

// forward runs a model.
func (c *comp) forward(m Value, xs ...Value) []Value {
	return c.list(c.p.callNamed(m, "Forward", c.slice(xs...)))
}

// apply calls a function value.
func (c *comp) apply(f Value, args ...Value) Value { return c.p.callValue(f, args, nil, nil) }

// none is the zero value of a type.
func (c *comp) none(pkg, typ string) Value {
	sp := c.p.I.P.ssaPkg(modPath + "/" + pkg)
	if sp == nil || sp.Type(typ) == nil {
		c.p.unsupported("no type %s.%s", pkg, typ)
	}
	return c.p.zero(sp.Type(typ).Type())
}

// array fills an array type.
func (c *comp) array(pkg, typ string, vs ...Value) Value {
	v, ok := c.none(pkg, typ).(*ArrayV)
	if !ok || v.T.Underlying().(*types.Array).Len() != int64(len(vs)) {
		c.p.unsupported("%s.%s is no array of %d", pkg, typ, len(vs))
	}
	v.F = map[int]Value{}
	for i, x := range vs {
		v.F[i] = x
	}
	return v
}

// items takes an array apart.
func (c *comp) items(v Value) []Value {
	a, ok := v.(*ArrayV)
	if !ok {
		c.p.unsupported("an array is a %T", v)
	}
	var l []Value
	for i := 0; i < int(a.T.Underlying().(*types.Array).Len()); i++ {
		l = append(l, a.F[i])
	}
	return l
}

// slice makes a Go slice of tensors.
func (c *comp) slice(vs ...Value) Value {
	sp := c.p.I.P.ssaPkg(matPath)
	return c.sliceOf(sp.Type("Tensor").Type(), vs...)
}

func (c *comp) sliceOf(t types.Type, vs ...Value) Value {
	if len(vs) == 0 {
		return Slice{nil, pConst(0), pConst(0), pConst(0)}
	}
	c.n++
	n := int64(len(vs))
	a := c.p.newArr(t, pConst(n), fmt.Sprintf("list%d", c.n), &Owner{kind: "arg", name: "list"})
	for i, v := range vs {
		if q, ok := v.(*Poly); ok {
			c.p.elemLoc(a, pConst(int64(i))).v = q
			continue
		}
		c.p.storeLoc(c.p.elemLoc(a, pConst(int64(i))), v)
	}
	return Slice{a, pConst(0), pConst(n), pConst(n)}
}

// list takes a Go slice of known length apart.
func (c *comp) list(v Value) []Value {
	s, ok := v.(Slice)
	if !ok {
		c.p.unsupported("a list is a %T", v)
	}
	n, isc := c.p.F.norm(s.Len).isConst()
	if !isc {
		c.p.unsupported("length of a list: %s", s.Len.key())
	}
	var out []Value
	for i := int64(0); i < n; i++ {
		out = append(out, c.p.loadElem(s, pConst(i)))
	}
	return out
}

// fn is a function of the library as a value.
func (c *comp) fn(pkg, name string) Value {
	sp := c.p.I.P.ssaPkg(modPath + "/" + pkg)
	if sp == nil || sp.Func(name) == nil {
		c.p.unsupported("no function %s.%s", pkg, name)
	}
	return &Closure{Fn: sp.Func(name)}
}

// wrong reports a result that has the wrong form altogether.
func (c *comp) wrong(f string, a ...interface{}) []compWant {
	return []compWant{{bad: fmt.Sprintf(f, a...)}}
}

// all pairs results with what belongs there.
func (c *comp) all(vs []Value, want []compWant) []compWant {
	if len(vs) != len(want) {
		return c.wrong("%d results where %d belong", len(vs), len(want))
	}
	for i := range want {
		want[i].v = vs[i]
	}
	return want
}

func scalarWant(v Value, e *Expr) compWant {
	return compWant{v: v, r: pConst(1), c: pConst(1), pieces: []valPiece{{idx: pConst(0), want: e}}}
}

func wholeWant(v Value, r, c *Poly, e *Expr) compWant {
	return compWant{v: v, r: r, c: c, pieces: whole(e)}
}

// value is the matrix a node holds.
func (c *comp) value(v Value) Value { return c.p.callNamed(v, "Value") }

// mentions reports whether an array with this prefix is read.
func mentions(e *Expr, prefix string) bool {
	r := false
	e.each(func(a *eAtom) {
		if r || a.kind != "ref" && a.kind != "tref" {
			return
		}
		if d := defOf(a.name); d != nil {
			r = mentions(d.base, prefix)
			for _, t := range d.ps {
				r = r || mentions(t.e, prefix)
			}
			return
		}
		r = strings.HasPrefix(a.name, prefix)
	})
	return r
}

// tensor is what a call returns, as an interface value.
func (r *opResult) judgeComp(prop string, t *compTarget, c *comp) {
	const rule = "result as defined"
	p := c.p
	p.stack = nil
	p.protect = true
	if c.end != nil {
		if os.Getenv("SPAGOVERIF_DEBUG") != "" {
			fmt.Println("ended", t.name, c.k, c.end.kind, c.end.msg, c.end.pos, p.condText())
		}
		switch c.end.kind {
		case "unsupported", "limit":
			r.add("unknown", prop, "construct", "", c.end.pos, "%s", c.end.msg)
		case "infeasible":
			r.skipped++
		case "panic", "fatal":
			if !t.total() {
				break
			}
			r.panics++
			r.panicked = fmt.Sprintf("%s: %s", c.end.pos, c.end.msg)
			if at, ok := p.reachable(); ok {
				r.add("fail", prop, givesResult, "", c.end.pos, "%s panics: %s [variant %d, sizes %v, path: %s]", t.name, c.end.msg, c.k, at, p.condText())
			} else {
				r.add("unknown", prop, givesResult, "", c.end.pos, "whether this panic is reached: %s", c.end.msg)
			}
		}
		return
	}
	if p.T.bad != "" {
		r.add("unknown", prop, rule, "", "-", "%s", p.T.bad)
		return
	}
	for at := range c.cuts {
		if len(c.ins[at]) > 0 {
			continue
		}
		for _, w := range c.wants {
			if w.bad != "" {
				continue
			}
			if a := p.floatArr(p.callNamed(w.v, "Data")); a != nil && mentions(p.content(a), at+".") {
				r.add("unknown", prop, rule, "", "-", "%s is not used as a part", at)
				return
			}
		}
	}
	r.done++
	defer func() {
		if e := recover(); e != nil {
			if ep, is := e.(endPath); is {
				r.add("unknown", prop, rule, "", ep.pos, "%s", ep.msg)
				return
			}
			panic(e)
		}
	}()
	for _, w := range c.wants {
		if w.bad != "" {
			r.add("fail", prop, "shape as defined", w.sub, "-", "%s gives %s [path: %s]", t.name, w.bad, p.condText())
			continue
		}
		if absent(w.v) {
			r.add("fail", prop, rule, w.sub, "-", "%s gives no tensor at all [path: %s]", t.name, p.condText())
			continue
		}
		d, ok := p.dimsOf(w.v)
		if !ok {
			r.add("unknown", prop, "shape as defined", w.sub, "-", "the shape is not known")
			continue
		}
		if w.r != nil {
			switch {
			case p.F.eqZero(pSub(d[0], w.r)) == 1 && p.F.eqZero(pSub(d[1], w.c)) == 1:
				r.add("ok", prop, "shape as defined", w.sub, "", "")
			case p.F.eqZero(pSub(d[0], w.r)) == -1 || p.F.eqZero(pSub(d[1], w.c)) == -1:
				r.add("fail", prop, "shape as defined", w.sub, "-", "%s gives %s×%s where %s×%s belongs", t.name, d[0].key(), d[1].key(), w.r.key(), w.c.key())
				continue
			default:
				r.add("unknown", prop, "shape as defined", w.sub, "-", "%s×%s against %s×%s not decided", d[0].key(), d[1].key(), w.r.key(), w.c.key())
				continue
			}
		}
		ya := p.floatArr(p.callNamed(w.v, "Data"))
		if ya == nil {
			r.add("unknown", prop, rule, w.sub, "-", "no elements in the result")
			continue
		}
		for _, pc := range w.pieces {
			pc := pc
			if pc.want == nil {
				continue
			}
			if w.sub != "" {
				pc.sub = strings.TrimSpace(w.sub + " " + pc.sub)
			}
			old := p.F
			p.F = p.F.clone()
			for _, b := range pc.bounds {
				p.F.addGE(b)
			}
			n := pConst(1)
			if pEq(pc.idx, pAtom(cur)) {
				n = p.F.norm(ya.length)
				p.F.addGE(below(pAtom(cur), n))
			}
			r.judgeElement(prop, rule, t.name, p, &pc, ya, nil, n, 0)
			p.F = old
		}
	}
	for _, x := range c.params {
		want, what := eEl(x.name), "parameters left alone"
		if e := c.changed[x.name]; e != nil {
			want, what = e, "parameters as defined"
		}
		n := p.F.norm(x.a.length)
		old := p.F
		p.F = p.F.clone()
		p.F.addGE(below(pAtom(cur), n))
		r.judgeElement(prop, what, t.name+" leaves in "+x.name, p, &valPiece{idx: pAtom(cur), want: want, sub: x.name}, x.a, nil, n, 0)
		p.F = old
	}
}

// absent says that a value is nil, or an interface around nil.
func absent(v Value) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case *Iface:
		_, is := x.V.(NilV)
		return is
	}
	return false
}

func (I *Interp) runComp(t *compTarget, width string, k int, reset func(), visit func(*comp)) (int, bool) {
	paths := map[*Path]*comp{}
	body := func(p *Path) *endPath {
		c := &comp{p: p, width: width, k: k}
		paths[p] = c
		p.phase = "forward"
		c.wants = t.run(c)
		for i := range c.wants {
			if c.wants[i].bad == "" {
				c.wants[i].v = c.value(c.wants[i].v)
			}
		}
		p.phase = "post"
		return nil
	}
	return I.explore(t.name, func() {
		paths = map[*Path]*comp{}
		reset()
	}, body, func(p *Path, e *endPath) {
		c := paths[p]
		c.end = e
		delete(paths, p)
		visit(c)
	})
}

func runComps(P *Program, prop string, deep bool, sel func(string) bool) *matSuite {
	S := &matSuite{}
	type job struct {
		t *compTarget
		w string
		k int
	}
	var jobs []job
	for _, t := range compTargets {
		if !sel(t.name) {
			continue
		}
		S.units = append(S.units, t.name)
		ks := t.cfgs
		if deep {
			ks = append(append([]int{}, ks...), t.deep...)
		}
		for _, k := range ks {
			for _, w := range []string{"32", "64"} {
				jobs = append(jobs, job{t, w, k})
			}
		}
	}
	S.results = parallel(len(jobs), func(i int) (r *opResult) {
		j := jobs[i]
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("SPAGOVERIF_DEBUG") != "" {
					panic(e)
				}
				r = &opResult{unit: j.t.name, stages: map[string]int{"internal": 1}}
				r.facts = append(r.facts, opFact{"unknown", "*", "analysis", j.t.name, "-", fmt.Sprint(e)})
			}
		}()
		reset := func() { r = &opResult{unit: j.t.name, stages: map[string]int{}} }
		reset()
		I := NewInterp(P)
		I.terms, I.zeros, I.closed = true, true, true
		I.reflect = strings.HasPrefix(j.t.name, "rand/")
		I.draws = I.reflect
		I.sorts = strings.HasPrefix(j.t.name, "grad/") || j.t.name == "nn/crf.Decode"
		I.maxPaths = 3000
		n, complete := I.runComp(j.t, j.w, j.k, reset, func(c *comp) { r.judgeComp(prop, j.t, c) })
		r.paths, r.complete = n, complete
		if r.panics > 0 && r.done == 0 && complete && r.panics+r.skipped == n {
			r.add("fail", prop, givesResult, "", "-", "%s panics whatever it is given: %s [variant %d]", j.t.name, r.panicked, j.k)
		}
		if r.panics == 0 && r.done > 0 && j.t.total() {
			r.add("ok", prop, givesResult, "", "", "")
		}
		if r.done == 0 && len(r.facts) == 0 {
			r.add("unknown", prop, "construct", "", "-", "no path returns")
		}
		return r
	})
	return S
}

func init() {
	checks["C21"] = func(C *Context, r *Report) {
		S := runComps(C.prog(loadOpts{instance: true}), "C21", C.tier == "thorough", func(n string) bool {
			return (strings.HasPrefix(n, "losses.") || strings.HasPrefix(n, "ag.")) && strings.Contains(n, os.Getenv("SPAGOVERIF_ONLY"))
		})
		tellComps(S, r, "C21", "losses and composed operators", 10)
	}
}

func init() {
	checks["C22"] = func(C *Context, r *Report) {
		S := runComps(C.prog(loadOpts{instance: true}), "C22", C.tier == "thorough", func(n string) bool {
			return strings.HasPrefix(n, "nn/") && strings.Contains(n, os.Getenv("SPAGOVERIF_ONLY"))
		})
		tellComps(S, r, "C22", "models", 30)
	}
}

func init() {
	checks["C25"] = func(C *Context, r *Report) {
		S := runComps(C.prog(loadOpts{instance: true}), "C25", C.tier == "thorough", func(n string) bool {
			return strings.HasPrefix(n, "rand/") && strings.Contains(n, os.Getenv("SPAGOVERIF_ONLY"))
		})
		tellComps(S, r, "C25", "uses of random numbers", 10)
	}
}

func init() {
	checks["C26"] = func(C *Context, r *Report) {
		S := runComps(C.prog(loadOpts{instance: true}), "C26", C.tier == "thorough", func(n string) bool {
			return strings.HasPrefix(n, "grad/") && strings.Contains(n, os.Getenv("SPAGOVERIF_ONLY"))
		})
		tellComps(S, r, "C26", "backward passes", 8)
	}
}

func tellComps(S *matSuite, r *Report, prop, what string, min int) {
	proved := map[string]bool{}
	for _, x := range S.results {
		r.Count("configurations analysed", 1)
		r.Count("abstract paths", x.paths)
		x.tell(r, prop)
		for _, f := range x.facts {
			if f.prop == prop && f.kind == "ok" && f.rule == "result as defined" {
				proved[x.unit] = true
			}
		}
	}
	r.Count(what+" with a defined result", len(S.units))
	r.Require(what+" with a proved result", len(proved), min)
}
