package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// matUnit is one operation of package mat under analysis.
type matUnit struct {
	name string // Dense.Add or Stack
	fn   func(I *Interp) (*ssa.Function, types.Type)
	sig  *types.Signature // without the receiver
	recv bool
	m    string
}

type matConfig struct {
	width   string
	listLen int
	mode    string // same, mixed (arguments of the other float width), self (argument is the receiver)
}

// matRun is the outcome of one abstract path through one operation.
type matRun struct {
	p       *Path
	end     *endPath
	recv    Value
	mats    []namedMat // receiver and arguments
	args    map[string]Value
	lists   map[string][]Value
	res     Value
	preDims map[string][2]*Poly
	post    bool
}

type namedMat struct {
	name string
	v    Value
}

// matUnits enumerates the operations: the methods of the interface Matrix (and
// of Tensor, embedded in it) implemented by Dense, and the exported functions
// of the package that take or return matrices.
func matUnits(P *Program) []*matUnit {
	pk := P.By[matPath]
	if pk == nil {
		return nil
	}
	obj := pk.Types.Scope().Lookup("Matrix")
	if obj == nil {
		return nil
	}
	it, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*matUnit
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		out = append(out, &matUnit{name: "Dense." + m.Name(), sig: m.Type().(*types.Signature), recv: true, m: m.Name()})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// configurations of one operation.
func (u *matUnit) configs(maxList int) []matConfig {
	lens := []int{0}
	mats := false
	for i := 0; i < u.sig.Params().Len(); i++ {
		t := u.sig.Params().At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			lens = nil
			for n := 0; n <= maxList; n++ {
				lens = append(lens, n)
			}
			t = s.Elem()
		}
		if isTensorT(t) {
			mats = true
		}
	}
	var out []matConfig
	for _, w := range []string{"32", "64"} {
		for _, l := range lens {
			out = append(out, matConfig{w, l, "same"})
			if mats {
				out = append(out, matConfig{w, l, "mixed"})
			}
		}
	}
	return out
}

func otherWidth(w string) string {
	if w == "32" {
		return "64"
	}
	return "32"
}

// symMatrix is a symbolic matrix, possibly empty, whose element slice may have spare
// capacity behind its length.
func (p *Path) symMatrix(width, name string) Value {
	d0, d1 := pAtom(name+".rows"), pAtom(name+".cols")
	v := p.newMatrix(width, d0, d1, &Owner{kind: "operand", name: name}, p.U.fresh("["+name+"]", true))
	// give the elements spare capacity: matrices share backing arrays given by
	// the user
	extra := pAtom(name + ".spare")
	p.reach(v, func(l *Loc) {
		if s, ok := l.v.(Slice); ok && s.A != nil && s.A.isFloat {
			s.Cap = pAdd(s.Cap, extra)
			l.v = s
		}
	}, func(*Arr) {})
	return v
}

func (I *Interp) runMat(u *matUnit, cfg matConfig, reset func(), visit func(*matRun)) (int, bool) {
	paths := map[*Path]*matRun{}
	body := func(p *Path) *endPath {
		mp := &matRun{p: p, args: map[string]Value{}, lists: map[string][]Value{}, preDims: map[string][2]*Poly{}}
		paths[p] = mp
		p.phase = "construct"
		p.protect = true
		mp.recv = p.symMatrix(cfg.width, "d")
		mp.mats = append(mp.mats, namedMat{"d", mp.recv})
		w := cfg.width
		if cfg.mode == "mixed" {
			w = otherWidth(w)
		}
		mk := func(t types.Type, name string) Value {
			switch {
			case isTensorT(t):
				v := p.symMatrix(w, name)
				mp.mats = append(mp.mats, namedMat{name, v})
				return v
			case nameOfType(t) == "Float":
				s := p.symMatrix(w, name)
				p.F.addEQ(pSub(pAtom(name+".rows"), pConst(1)))
				p.F.addEQ(pSub(pAtom(name+".cols"), pConst(1)))
				return p.callNamed(s, "Item")
			case nameOfType(t) == "Slice" && !isSliceT(t):
				s := p.symMatrix(w, name)
				mp.mats = append(mp.mats, namedMat{name, s})
				return p.callNamed(s, "Data")
			case isFloatT(t):
				f := &FloatV{u: p.U.fresh("["+name+"]", true), dep: depOf(name)}
				if I.terms {
					f.e = eSc(name)
				}
				return f
			case isIntT(t):
				p.F.neg[name] = true
				return pAtom(name)
			}
			return p.fresh(t, name)
		}
		var args []Value
		for i := 0; i < u.sig.Params().Len(); i++ {
			pv := u.sig.Params().At(i)
			name := pv.Name()
			if name == "" || name == "_" {
				name = fmt.Sprintf("arg%d", i)
			}
			if s, ok := pv.Type().Underlying().(*types.Slice); ok {
				n := int64(cfg.listLen)
				var vs []Value
				a := p.newArr(s.Elem(), pConst(n), name, &Owner{kind: "operand", name: name})
				for j := int64(0); j < n; j++ {
					v := mk(s.Elem(), fmt.Sprintf("%s[%d]", name, j))
					vs = append(vs, v)
					if a.isFloat {
						p.arrPut(a, p.toFloat(v))
					} else {
						p.elemLoc(a, pConst(j)).v = v
					}
				}
				mp.lists[name] = vs
				if n == 0 {
					args = append(args, Slice{nil, pConst(0), pConst(0), pConst(0)})
				} else {
					args = append(args, Slice{a, pConst(0), pConst(n), pConst(n)})
				}
				continue
			}
			v := mk(pv.Type(), name)
			mp.args[name] = v
			args = append(args, v)
		}
		for _, m := range mp.mats {
			d, ok := p.dimsOf(m.v)
			if !ok {
				p.unsupported("shape of %s", m.name)
			}
			mp.preDims[m.name] = d
		}
		p.protect = false
		mp.cases(u)
		p.phase = "run"
		mp.res = p.callNamed(mp.recv, u.m, args...)
		p.phase = "post"
		p.protect = true
		mp.post = true
		return nil
	}
	return I.explore(fmt.Sprintf("%s/%s/%d/%s", u.name, cfg.width, cfg.listLen, cfg.mode), func() {
		paths = map[*Path]*matRun{}
		reset()
	}, body, func(p *Path, e *endPath) {
		mp := paths[p]
		mp.end = e
		delete(paths, p)
		visit(mp)
	})
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

type matSuite struct {
	results []*opResult
	units   []string
}

func runMats(P *Program, maxList int) *matSuite {
	S := &matSuite{}
	type job struct {
		u   *matUnit
		cfg matConfig
		at  int
	}
	var jobs []job
	for _, u := range matUnits(P) {
		S.units = append(S.units, u.name)
		for _, cfg := range u.configs(maxList) {
			jobs = append(jobs, job{u, cfg, len(jobs)})
		}
	}
	S.results = make([]*opResult, len(jobs))
	ch := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				S.results[j.at] = safeMat(NewInterp(P), j.u, j.cfg)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return S
}

func safeMat(I *Interp, u *matUnit, cfg matConfig) (r *opResult) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("SPAGOVERIF_DEBUG") != "" {
				panic(e)
			}
			r = &opResult{unit: u.name, stages: map[string]int{"internal": 1}}
			r.facts = append(r.facts, opFact{"unknown", "*", "analysis", u.name, "-", fmt.Sprint(e)})
		}
	}()
	reset := func() { r = &opResult{unit: u.name, stages: map[string]int{}} }
	reset()
	n, complete := I.runMat(u, cfg, reset, func(mp *matRun) { r.judgeMat(u, cfg, mp) })
	r.paths, r.complete = n, complete
	if !complete {
		r.add("unknown", "*", "paths", "", "-", "more than %d paths", n)
	}
	return r
}

// inPlaceOps are the operations that change their receiver without a name that
// ends in InPlace; what they may change of it.
var inPlaceOps = map[string]string{
	"SetData": "data", "Zeros": "data", "SetAt": "data", "SetScalar": "data", "Copy": "data",
	"AccGrad": "grad", "ZeroGrad": "grad", "SetRequiresGrad": "flag",
}

// views give access to the matrix itself by definition.
var viewOps = map[string]bool{"Data": true, "Value": true, "Grad": true, "Shape": true}

func (mp *matRun) feasible() (string, bool) {
	p := mp.p
	w, found, unk := p.witness(nil)
	if !found || unk {
		return "", false
	}
	return witnessText(w), true
}

func (r *opResult) judgeMat(u *matUnit, cfg matConfig, mp *matRun) {
	p := mp.p
	p.stack = nil
	p.protect = true
	inPlace := strings.HasSuffix(u.m, "InPlace") || inPlaceOps[u.m] != ""
	for _, e := range p.events {
		switch {
		case e.Kind == "write" && e.Phase == "run":
			owner := e.Name[strings.Index(e.Name, ":")+1:]
			if owner == "d" && inPlace {
				continue
			}
			r.add("fail", "C12", "modifies nothing else", "writes "+plain(owner), e.Pos, "%s modifies %s (%s)", u.name, owner, e.Stack)
		case e.Kind == "kernel":
			if e.Extra == "ok" {
				r.add("ok", "C16", "kernel operands long enough", e.Name, e.Pos, "")
			} else if strings.HasPrefix(e.Extra, "violated") {
				r.add("fail", "C16", "kernel operands long enough", e.Name+" in "+e.Fn, e.Pos, "%s", e.Extra)
			} else {
				r.add("unknown", "C16", "kernel operands long enough", e.Name, e.Pos, "%s", e.Extra)
			}
		case e.Kind == "bounds":
			if e.Extra == "ok" {
				r.add("ok", "C16", "index in range", e.Fn, e.Pos, "")
			} else {
				r.add(e.Extra, "C16", "index in range", e.Fn, e.Pos, "%s", e.Name)
			}
		case e.Kind == "beyond":
			r.add("fail", "C16", "no element beyond the matrix", plain(e.Name), e.Pos, "%s reaches behind the last element of %s: %s", u.name, e.Name, e.Extra)
		}
	}
	if mp.end != nil {
		switch mp.end.kind {
		case "unsupported", "limit":
			r.add("unknown", "*", "construct", u.m, mp.end.pos, "%s", mp.end.msg)
		case "infeasible":
		default:
			r.rejected++
		}
		return
	}
	r.done++
	r.add("ok", "C12", "modifies nothing else", "", "", "")
	r.judgeSharing(u, mp, inPlace)
	r.judgeForm(u, mp, inPlace)
}

// judgeSharing: results own their storage; arguments are not kept.
func (r *opResult) judgeSharing(u *matUnit, mp *matRun, inPlace bool) {
	p := mp.p
	owners := func(v Value) map[string]bool {
		o := map[string]bool{}
		p.reach(v, func(l *Loc) {
			if x := l.owner(); x.kind == "operand" {
				o[x.name] = true
			}
		}, func(a *Arr) {
			if a.own != nil && a.own.kind == "operand" {
				o[a.own.name] = true
			}
		})
		return o
	}
	if !viewOps[u.m] {
		for o := range owners(mp.res) {
			if inPlace && o == "d" {
				continue
			}
			r.add("fail", "C12", "result owns its storage", "shares "+plain(o), "-", "the result of %s shares storage with %s", u.name, o)
		}
		r.add("ok", "C12", "result owns its storage", "", "", "")
	}
	for _, m := range mp.mats {
		for o := range owners(m.v) {
			if o != m.name {
				r.add("fail", "C12", "operands stay apart", plain(m.name)+" keeps "+plain(o), "-", "after %s, %s shares storage with %s", u.name, m.name, o)
			}
		}
		r.add("ok", "C12", "operands stay apart", plain(m.name), "", "")
	}
}

// matricesIn lists the matrices in a result.
func (p *Path) matricesIn(v Value) []Value {
	switch x := v.(type) {
	case *Iface:
		if pt, ok := types.Unalias(x.T).(*types.Pointer); ok && nameOfType(pt.Elem()) == "Dense" {
			return []Value{v}
		}
	case Slice:
		if x.A == nil || x.A.isFloat {
			return nil
		}
		n, c := p.F.norm(x.Len).isConst()
		if !c {
			return nil
		}
		var out []Value
		for i := int64(0); i < n; i++ {
			out = append(out, p.matricesIn(p.loadElem(x, pConst(i)))...)
		}
		return out
	}
	return nil
}

// judgeForm: every matrix has as many elements as its shape says.
func (r *opResult) judgeForm(u *matUnit, mp *matRun, inPlace bool) {
	p := mp.p
	defer func() {
		if e := recover(); e != nil {
			if ep, is := e.(endPath); is {
				r.add("unknown", "C13", "elements fit the shape", "", ep.pos, "%s", ep.msg)
				return
			}
			panic(e)
		}
	}()
	r.judgeFit(u, mp)
	form := func(v Value, what string) ([2]*Poly, bool) {
		d, ok := p.dimsOf(v)
		sz, ok2 := p.sizeOf(v)
		if !ok || !ok2 {
			r.add("unknown", "C13", "elements fit the shape", what, "-", "shape not computed")
			return d, false
		}
		r.same(mp, "C13", "elements fit the shape", what, sz, pMul(d[0], d[1]),
			"%s leaves %s with a shape of %s×%s and %s elements", u.name, what, d[0].key(), d[1].key(), sz.key())
		return d, true
	}
	if inPlace {
		if d, ok := form(mp.recv, "the receiver"); ok {
			r.judgeShape(u, mp, d, 0, "the receiver")
		}
		return
	}
	for i, v := range p.matricesIn(mp.res) {
		if viewOps[u.m] {
			break
		}
		if d, ok := form(v, "the result"); ok {
			r.judgeShape(u, mp, d, i, "the result")
		}
	}
}

// same requires two sizes to be equal on this path.
func (r *opResult) same(mp *matRun, prop, rule, sub string, a, b *Poly, f string, args ...interface{}) bool {
	p := mp.p
	d := pSub(a, b)
	if p.F.eqZero(d) == 1 {
		r.add("ok", prop, rule, sub, "", "")
		return true
	}
	w, found, unk := p.witness(d)
	if !found {
		r.add("unknown", prop, rule, sub, "-", "%s = %s not decided", a.key(), b.key())
		return false
	}
	if unk {
		r.add("unknown", prop, rule, sub, "-", "%s = %s not decided", a.key(), b.key())
		return false
	}
	r.add("fail", prop, rule, sub, "-", "%s; for example with %s", fmt.Sprintf(f, args...), witnessText(w))
	return false
}

// atLeastZero requires a size expression to be non-negative on this path.
func (r *opResult) atLeastZero(mp *matRun, prop, rule, sub string, q *Poly, f string, args ...interface{}) {
	p := mp.p
	if p.F.geZero(p.F.norm(q)) {
		r.add("ok", prop, rule, sub, "", "")
		return
	}
	old := p.F
	p.F = p.F.clone()
	p.F.addGE(pSub(pScale(q, -1), pConst(1)))
	w, found, unk := p.witness(q)
	p.F = old
	if !found || unk {
		r.add("unknown", prop, rule, sub, "-", "%s ≥ 0 not decided", q.key())
		return
	}
	r.add("fail", prop, rule, sub, "-", "%s; for example with %s", fmt.Sprintf(f, args...), witnessText(w))
}

// The shape of the result (or of the receiver of an in-place operation) as the
// operation defines it. d is the receiver, a the matrix argument, i.. the
// integer arguments in order, l the variadic list.
type shapeArgs struct {
	r, c   *Poly // receiver
	ar, ac *Poly // matrix argument
	i      []*Poly
	list   []Value
	at     int // which result
	dims   func(v Value) [2]*Poly
}

type shapeRule func(s *shapeArgs) [2]*Poly

func sh(a, b *Poly) [2]*Poly { return [2]*Poly{a, b} }

var shapeTable = map[string]shapeRule{}

// fitTable holds, per operation, what its operands must satisfy for it to
// complete: expressions that must be zero and expressions that must be ≥ 0.
type fitRule func(s *shapeArgs) (zero, nonneg []*Poly)

var fitTable = map[string]fitRule{}

func init() {
	one := pConst(1)
	same := func(s *shapeArgs) [2]*Poly { return sh(s.r, s.c) }
	scalar := func(s *shapeArgs) [2]*Poly { return sh(one, one) }
	column := func(s *shapeArgs) [2]*Poly { return sh(pMul(s.r, s.c), one) }
	for _, m := range strings.Fields("ZerosLike OnesLike Add AddScalar Sub SubScalar Prod ProdScalar Div Maximum Minimum Abs Pow Sqrt Log Exp Sigmoid Clone Apply ApplyWithAlpha Normalize2 AddInPlace AddScalarInPlace SubInPlace SubScalarInPlace ProdInPlace ProdScalarInPlace ProdMatrixScalarInPlace DivInPlace ClipInPlace SwapInPlace ApplyInPlace ApplyWithAlphaInPlace SetData Zeros SetAt SetScalar Copy AccGrad ZeroGrad SetRequiresGrad") {
		shapeTable[m] = same
	}
	for _, m := range strings.Fields("DotUnitary Sum Max Min Norm At NewScalar") {
		shapeTable[m] = scalar
	}
	for _, m := range strings.Fields("Softmax CumSum") {
		shapeTable[m] = column
	}
	flat := func(s *shapeArgs) [2]*Poly { return sh(one, pMul(s.r, s.c)) }
	shapeTable["Flatten"], shapeTable["FlattenInPlace"] = flat, flat
	tr := func(s *shapeArgs) [2]*Poly { return sh(s.c, s.r) }
	shapeTable["T"], shapeTable["TransposeInPlace"] = tr, tr
	shapeTable["ExtractRow"] = func(s *shapeArgs) [2]*Poly { return sh(one, s.c) }
	shapeTable["ExtractColumn"] = func(s *shapeArgs) [2]*Poly { return sh(s.r, one) }
	shapeTable["Slice"] = func(s *shapeArgs) [2]*Poly { return sh(pSub(s.i[2], s.i[0]), pSub(s.i[3], s.i[1])) }
	re := func(s *shapeArgs) [2]*Poly { return sh(s.list[0].(*Poly), s.list[1].(*Poly)) }
	shapeTable["Reshape"], shapeTable["ReshapeInPlace"] = re, re
	shapeTable["ResizeVector"] = func(s *shapeArgs) [2]*Poly { return sh(s.i[0], one) }
	shapeTable["Mul"] = func(s *shapeArgs) [2]*Poly { return sh(s.r, s.ac) }
	shapeTable["MulT"] = func(s *shapeArgs) [2]*Poly { return sh(s.c, s.ac) }
	shapeTable["Range"] = func(s *shapeArgs) [2]*Poly { return sh(pSub(s.i[1], s.i[0]), one) }
	shapeTable["SplitV"] = func(s *shapeArgs) [2]*Poly { return sh(s.list[s.at].(*Poly), one) }
	shapeTable["Augment"] = func(s *shapeArgs) [2]*Poly { return sh(s.r, pScale(s.c, 2)) }
	shapeTable["PadRows"] = func(s *shapeArgs) [2]*Poly { return sh(pAdd(s.r, s.i[0]), s.c) }
	shapeTable["PadColumns"] = func(s *shapeArgs) [2]*Poly { return sh(s.r, pAdd(s.c, s.i[0])) }
	shapeTable["AppendRows"] = func(s *shapeArgs) [2]*Poly { return sh(pAdd(s.r, pConst(int64(len(s.list)))), s.c) }
	shapeTable["NewConcatV"] = func(s *shapeArgs) [2]*Poly {
		n := pConst(0)
		for _, v := range s.list {
			d := s.dims(v)
			n = pAdd(n, pMul(d[0], d[1]))
		}
		return sh(n, one)
	}
	shapeTable["NewStack"] = func(s *shapeArgs) [2]*Poly {
		if len(s.list) == 0 {
			return sh(pConst(0), pConst(0))
		}
		d := s.dims(s.list[0])
		return sh(pConst(int64(len(s.list))), pMul(d[0], d[1]))
	}

	sameDims := func(s *shapeArgs) (z, n []*Poly) { return []*Poly{pSub(s.r, s.ar), pSub(s.c, s.ac)}, nil }
	sameSize := func(s *shapeArgs) (z, n []*Poly) { return []*Poly{pSub(pMul(s.r, s.c), pMul(s.ar, s.ac))}, nil }
	for _, m := range strings.Fields("Add AddInPlace Sub SubInPlace Prod ProdInPlace ProdMatrixScalarInPlace Div DivInPlace Maximum Minimum ApplyInPlace ApplyWithAlphaInPlace Copy") {
		fitTable[m] = sameDims
	}
	for _, m := range strings.Fields("DotUnitary SetData") {
		fitTable[m] = sameSize
	}
	fitTable["Mul"] = func(s *shapeArgs) (z, n []*Poly) { return []*Poly{pSub(s.c, s.ar)}, nil }
	fitTable["MulT"] = func(s *shapeArgs) (z, n []*Poly) { return []*Poly{pSub(s.r, s.ar)}, nil }
	index := func(i, n *Poly) []*Poly { return []*Poly{i, pSub(pSub(n, i), one)} }
	fitTable["ExtractRow"] = func(s *shapeArgs) (z, n []*Poly) { return nil, index(s.i[0], s.r) }
	fitTable["ExtractColumn"] = func(s *shapeArgs) (z, n []*Poly) { return nil, index(s.i[0], s.c) }
	fitTable["SwapInPlace"] = func(s *shapeArgs) (z, n []*Poly) {
		return nil, append(index(s.i[0], s.r), index(s.i[1], s.r)...)
	}
	elem := func(s *shapeArgs) (z, n []*Poly) {
		switch len(s.list) {
		case 1:
			return nil, index(s.list[0].(*Poly), pMul(s.r, s.c))
		case 2:
			return nil, append(index(s.list[0].(*Poly), s.r), index(s.list[1].(*Poly), s.c)...)
		}
		return nil, []*Poly{pConst(-1)}
	}
	for _, m := range strings.Fields("At ScalarAt SetAt SetScalar") {
		fitTable[m] = elem
	}
	fitTable["Slice"] = func(s *shapeArgs) (z, n []*Poly) {
		return nil, []*Poly{s.i[0], s.i[1], pSub(s.i[2], s.i[0]), pSub(s.i[3], s.i[1]), pSub(s.r, s.i[2]), pSub(s.c, s.i[3])}
	}
	fitTable["Range"] = func(s *shapeArgs) (z, n []*Poly) {
		return nil, []*Poly{s.i[0], pSub(s.i[1], s.i[0]), pSub(pMul(s.r, s.c), s.i[1])}
	}
	fitTable["SplitV"] = func(s *shapeArgs) (z, n []*Poly) {
		sum := pConst(0)
		for _, v := range s.list {
			n = append(n, v.(*Poly))
			sum = pAdd(sum, v.(*Poly))
		}
		return nil, append(n, pSub(pMul(s.r, s.c), sum))
	}
	resh := func(s *shapeArgs) (z, n []*Poly) {
		if len(s.list) != 2 {
			return nil, []*Poly{pConst(-1)}
		}
		a, b := s.list[0].(*Poly), s.list[1].(*Poly)
		return []*Poly{pSub(pMul(a, b), pMul(s.r, s.c))}, []*Poly{a, b}
	}
	fitTable["Reshape"], fitTable["ReshapeInPlace"] = resh, resh
	pos := func(s *shapeArgs) (z, n []*Poly) { return nil, []*Poly{s.i[0]} }
	fitTable["PadRows"], fitTable["PadColumns"], fitTable["ResizeVector"] = pos, pos, pos
	fitTable["Augment"] = func(s *shapeArgs) (z, n []*Poly) { return []*Poly{pSub(s.r, s.c)}, nil }
	fitTable["AppendRows"] = func(s *shapeArgs) (z, n []*Poly) {
		for _, v := range s.list {
			d := s.dims(v)
			z = append(z, pSub(pMul(d[0], d[1]), s.c))
		}
		return
	}
	fitTable["NewStack"] = func(s *shapeArgs) (z, n []*Poly) {
		for i := 1; i < len(s.list); i++ {
			d, e := s.dims(s.list[0]), s.dims(s.list[i])
			z = append(z, pSub(pMul(d[0], d[1]), pMul(e[0], e[1])))
		}
		return
	}
}

func (mp *matRun) shapeArgs(u *matUnit, at int) *shapeArgs {
	s := &shapeArgs{r: mp.preDims["d"][0], c: mp.preDims["d"][1], at: at}
	s.dims = func(v Value) [2]*Poly {
		d, ok := mp.p.dimsOf(v)
		if !ok {
			mp.p.unsupported("shape of an argument")
		}
		return d
	}
	for i := 0; i < u.sig.Params().Len(); i++ {
		pv := u.sig.Params().At(i)
		name := pv.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("arg%d", i)
		}
		if l, ok := mp.lists[name]; ok {
			s.list = l
			continue
		}
		if q, ok := mp.args[name].(*Poly); ok {
			s.i = append(s.i, q)
		}
		if d, ok := mp.preDims[name]; ok && s.ar == nil {
			s.ar, s.ac = d[0], d[1]
		}
	}
	return s
}

// judgeShape compares the shape of the result with the one the operation
// defines.
func (r *opResult) judgeShape(u *matUnit, mp *matRun, d [2]*Poly, at int, what string) {
	rule := shapeTable[u.m]
	if rule == nil {
		return
	}
	want := rule(mp.shapeArgs(u, at))
	_ = r.same(mp, "C13", "shape as defined", what, d[0], want[0], "%s gives %s the shape %s×%s instead of %s×%s", u.name, what, d[0].key(), d[1].key(), want[0].key(), want[1].key()) &&
		r.same(mp, "C13", "shape as defined", what, d[1], want[1], "%s gives %s the shape %s×%s instead of %s×%s", u.name, what, d[0].key(), d[1].key(), want[0].key(), want[1].key())
}

// judgeFit: an operation that completes was given operands that fit.
func (r *opResult) judgeFit(u *matUnit, mp *matRun) {
	rule := fitTable[u.m]
	if rule == nil {
		return
	}
	z, n := rule(mp.shapeArgs(u, 0))
	for _, q := range z {
		r.same(mp, "C13", "unfit operands rejected", "", q, pConst(0), "%s accepts operands whose shapes do not fit (%s ≠ 0)", u.name, q.key())
	}
	for _, q := range n {
		r.atLeastZero(mp, "C13", "unfit operands rejected", "", q, "%s accepts an index or size out of range (%s < 0)", u.name, q.key())
	}
}

func (s *matSuite) into(rep *Report, prop string) {
	paths, done, rejected := 0, 0, 0
	decided := map[string]bool{}
	for _, r := range s.results {
		paths += r.paths
		done += r.done
		rejected += r.rejected
		if r.done > 0 {
			decided[r.unit] = true
		}
		r.tell(rep, prop)
	}
	rep.Count("matrix operations found", len(s.units))
	rep.Count("matrix configurations analysed", len(s.results))
	rep.Count("abstract paths of matrix operations", paths)
	rep.Count("completed paths of matrix operations", done)
	rep.Count("rejecting paths of matrix operations", rejected)
	rep.Require("matrix operations decided", len(decided), 70)
}

// tell hands the facts about one property to the report.
func (r *opResult) tell(rep *Report, prop string) {
	for _, f := range r.facts {
		if f.prop == "*" {
			rep.Unknown(f.rule, f.key, f.where, "%s", f.detail)
			continue
		}
		if f.prop != prop {
			continue
		}
		switch f.kind {
		case "ok":
			rep.OK(f.rule, f.key)
		case "fail":
			rep.Fail(f.rule, f.key, f.where, "%s", f.detail)
		case "unknown":
			rep.Unknown(f.rule, f.key, f.where, "%s", f.detail)
		}
	}
}

func (C *Context) matSuite() *matSuite {
	if C.mats == nil {
		n := 2
		if C.tier == "thorough" {
			n = 4
		}
		C.mats = runMats(C.prog(loadOpts{instance: true}), n)
	}
	return C.mats
}

// kernels adds the facts about the vector functions of both builds.
func (C *Context) kernels(r *Report, prop string) {
	if C.kern == nil {
		C.kern = append(checkKernels(C.prog(loadOpts{instance: true}), "assembly"),
			checkKernels(C.prog(loadOpts{instance: true, tags: "noasm,purego"}), "pure Go")...)
	}
	done := 0
	for _, x := range C.kern {
		x.tell(r, prop)
		if x.done > 0 {
			done++
		}
	}
	r.Require("vector functions decided", done, 45)
}

func init() {
	checks["C17"] = func(C *Context, r *Report) {
		C.kernels(r, "C17")
		checkCPU(C.prog(loadOpts{instance: true}), r, 10, 10)
	}
	for _, id := range []string{"C12", "C13"} {
		id := id
		checks[id] = func(C *Context, r *Report) { C.matSuite().into(r, id) }
	}
	checks["C16"] = func(C *Context, r *Report) {
		C.matSuite().into(r, "C16")
		for _, x := range C.opSuite().results {
			x.tell(r, "C16")
		}
		C.kernels(r, "C16")
	}
}
