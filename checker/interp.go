package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is a heap-aware, path-sensitive abstract interpreter over SSA.
// Integers are polynomials over symbolic atoms, floats carry only a dimension
// vector, storage is modelled by objects with identity. Loops whose trip count
// is not a constant are summarised by one generic iteration.
type Interp struct {
	P     *Program
	know  map[string]*loopKnow
	loops map[*ssa.Function]*loopInfo
	unit  string
	// limits
	maxPaths int
	maxSteps int
	pure     map[*ssa.Function]int
	regions  map[*ssa.BasicBlock]*ssa.BasicBlock
	terms    bool // floats carry terms
	closed   bool // all references are known
	gobTypes typeList
	saved    func(p *Path, m Value) // what to do with a model before it runs
	sorts    bool                   // short lists are sorted, whichever way the comparisons go
	draws    bool                   // numbers drawn from [0,1) are names of their own
	reflect  bool                   // reflection on values of known types
	chans    bool                   // channels are those of the driver: a goroutine runs when it starts
	zeros    bool                   // joined values distinguish equal floats
	exactEq  bool                   // equalities of floats are not null sets
}

type loopKnow struct {
	delta *Poly
	upd   int
	havoc bool
	noLo  bool // the initial value is not a lower bound
	noHi  bool // the last iteration number is not an upper bound
}

func NewInterp(P *Program) *Interp {
	return &Interp{P: P, know: map[string]*loopKnow{}, loops: map[*ssa.Function]*loopInfo{}, maxPaths: 60000, maxSteps: 4000000}
}

// Event is something observable that happened on a path.
type Event struct {
	Kind  string // acc, write, kernel, grad, panic, index
	Name  string // operand name / kernel name / storage description
	Val   Value
	Args  []Value
	Pos   string
	Stack string
	Fn    string
	Extra string
	Phase string
}

// Path is one abstract path.
type Path struct {
	blind    bool           // a decision on something nothing is known of was taken
	calls    map[string]int // how often a chain of calls was run
	kassume  bool           // kernel contracts are assumed, not checked
	kouts    map[*Arr]bool
	kspan    bool // element accesses are recorded as index intervals
	I        *Interp
	prefix   []int
	taken    []int
	sizes    []int
	labels   []string
	F        *Facts
	inSum    []*Facts // outside of the sums around
	U        *Units
	bools    map[string]bool
	ids      int
	steps    int
	depth    int
	stack    []*frame
	loopers  int
	events   []Event
	phase    string
	inst     map[string]*Loc
	globals  map[*ssa.Global]*Loc
	strs     map[string]bool
	notes    []string
	memo     map[string]Value
	protect  bool
	merging  int
	defs     map[string]atomDef
	chans    []*ChanV
	syncMaps map[*Loc][][2]Value
	T        termState
}

type endPath struct {
	kind string // panic, fatal, infeasible, unsupported, limit
	msg  string
	pos  string
}
type restartAll struct{}

func (p *Path) end(kind, msg string) {
	pos := "-"
	if len(p.stack) > 0 {
		f := p.stack[len(p.stack)-1]
		pos = p.I.P.pos(f.at) + " (" + fnName(f.fn) + ")"
	}
	panic(endPath{kind, msg, pos})
}

func (p *Path) unsupported(f string, a ...interface{}) {
	p.end("unsupported", fmt.Sprintf(f, a...))
}

// explore runs body once per abstract path. It returns the number of paths and
// the outcome list through visit.
func (I *Interp) explore(unit string, reset func(), body func(p *Path) *endPath, visit func(p *Path, e *endPath)) (n int, complete bool) {
	I.unit = unit
	for attempt := 0; attempt < 200; attempt++ {
		n, complete = 0, true
		restarted := false
		if reset != nil {
			reset()
		}
		prefix := []int{}
		for {
			p := &Path{I: I, prefix: prefix, F: newFacts(), U: newUnits(), bools: map[string]bool{}, globals: map[*ssa.Global]*Loc{}, memo: map[string]Value{}}
			var e *endPath
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch x := r.(type) {
						case endPath:
							e = &x
						case restartAll:
							restarted = true
						default:
							panic(r)
						}
					}
				}()
				e = body(p)
			}()
			if restarted {
				break
			}
			n++
			visit(p, e)
			if n >= I.maxPaths {
				complete = false
				break
			}
			// next prefix
			i := len(p.taken) - 1
			for i >= 0 && p.taken[i]+1 >= p.sizes[i] {
				i--
			}
			if i < 0 {
				break
			}
			prefix = append(append([]int{}, p.taken[:i]...), p.taken[i]+1)
		}
		if restarted {
			continue
		}
		return n, complete
	}
	return n, false
}

func (p *Path) choose(label string, n int) int {
	i := len(p.taken)
	c := 0
	if i < len(p.prefix) {
		c = p.prefix[i]
	}
	p.taken = append(p.taken, c)
	p.sizes = append(p.sizes, n)
	p.labels = append(p.labels, fmt.Sprintf("%s#%d", label, c))
	return c
}

func (p *Path) nid() int { p.ids++; return p.ids }

func (p *Path) freshAtom(name string, neg bool) *Poly {
	a := fmt.Sprintf("%s?%d", name, p.nid())
	if neg {
		p.F.neg[a] = true
	}
	return pAtom(a)
}

func (p *Path) event(e Event) {
	if len(p.stack) > 0 {
		f := p.stack[len(p.stack)-1]
		if e.Pos == "" {
			e.Pos = p.I.P.pos(f.at)
		}
		if e.Fn == "" {
			e.Fn = fnName(f.fn)
		}
		var s []string
		for _, fr := range p.stack {
			s = append(s, fnName(fr.fn))
		}
		e.Stack = strings.Join(s, " > ")
	}
	e.Phase = p.phase
	p.events = append(p.events, e)
}

// ---- decisions -----------------------------------------------------------

func (p *Path) static(c *BoolV) (bool, bool) {
	var v, ok bool
	switch c.kind {
	case bConst:
		return c.b, true
	case bGE:
		if p.F.geZero(c.p) {
			v, ok = true, true
		} else if p.F.geZero(pSub(pScale(c.p, -1), pConst(1))) {
			v, ok = false, true
		}
	case bEQ:
		switch p.F.eqZero(c.p) {
		case 1:
			v, ok = true, true
		case -1:
			v, ok = false, true
		}
	case bOpaque:
		if b, has := p.bools[c.key]; has {
			v, ok = b, true
		}
	}
	if !ok {
		return false, false
	}
	return v != c.neg, true
}

func (p *Path) assume(c *BoolV, v bool) {
	want := v != c.neg
	switch c.kind {
	case bConst:
		if c.b != want {
			p.end("infeasible", "")
		}
	case bGE:
		if want {
			p.F.addGE(c.p)
		} else {
			p.F.addGE(pSub(pScale(c.p, -1), pConst(1)))
		}
	case bEQ:
		if want {
			p.zeroProduct(c.p)
			p.F.addEQ(c.p)
		} else {
			p.F.addNE(c.p)
		}
	case bOpaque:
		if b, has := p.bools[c.key]; has && b != want {
			p.end("infeasible", "")
		}
		p.bools[c.key] = want
		if want && strings.HasPrefix(c.key, "alias:") {
			n := strings.SplitN(c.key[6:], "=", 2)
			for _, d := range []string{".rows", ".cols"} {
				p.F.addEQ(pSub(pAtom(n[0]+d), pAtom(n[1]+d)))
			}
		}
	}
	if p.F.bad {
		p.end("infeasible", "")
	}
}

// zeroProduct forks a product==0 assumption on its factors.
func (p *Path) zeroProduct(q *Poly) {
	q = p.F.norm(q)
	if len(q.t) != 1 {
		return
	}
	for m := range q.t {
		as := monoAtoms(m)
		if len(as) > 1 {
			i := p.choose("zero factor of "+m, len(as))
			p.F.addEQ(pAtom(as[i]))
		}
	}
}

func (p *Path) decide(c *BoolV) bool {
	if v, ok := p.static(c); ok {
		return v
	}
	v := p.choose(c.String(), 2) == 0
	if c.kind == bOpaque && c.d == nil && !strings.HasPrefix(c.key, "valid ") {
		p.blind = true
		if os.Getenv("SPAGOVERIF_BLIND") != "" {
			fmt.Println("blind", p.I.unit, c.key)
		}
	}
	p.assume(c, v)
	p.termDecision(c, v)
	return v
}

// ---- fresh values --------------------------------------------------------

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsignedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var unknownOwner = &Owner{kind: "unknown", name: "unknown"}

func (p *Path) fresh(t types.Type, name string) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return p.freshAtom(name, u.Info()&types.IsUnsigned == 0)
		case u.Info()&types.IsFloat != 0:
			return &FloatV{u: p.U.fresh(name, false)}
		case u.Info()&types.IsBoolean != 0:
			return &BoolV{kind: bOpaque, key: fmt.Sprintf("%s?%d", name, p.nid())}
		case u.Info()&types.IsString != 0:
			return &StrV{}
		}
	case *types.Slice:
		n := p.freshAtom("len("+name+")", false)
		a := p.newArr(u.Elem(), n, name, unknownOwner)
		a.symW = true
		if a.isFloat {
			a.set = true
		}
		return Slice{a, pConst(0), n, n}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, p.fresh(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, p.fresh(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return tp
	}
	return &Opaque{id: p.nid(), T: t, name: name}
}

func (p *Path) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return pConst(0)
		case u.Info()&types.IsFloat != 0:
			z := 0.0
			return &FloatV{poly: true, c: &z, e: eConst(0)}
		case u.Info()&types.IsBoolean != 0:
			return vBool(false)
		case u.Info()&types.IsString != 0:
			s := ""
			return &StrV{c: &s}
		}
		return NilV{}
	case *types.Slice:
		return Slice{nil, pConst(0), pConst(0), pConst(0)}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, p.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &ArrayV{T: t}
	}
	return NilV{}
}

// ArrayV is a (lazily zero) fixed array value.
type ArrayV struct {
	T types.Type
	F map[int]Value
}

func (p *Path) site() string {
	if len(p.stack) == 0 {
		return "driver"
	}
	f := p.stack[len(p.stack)-1]
	return fnName(f.fn) + "@" + p.I.P.pos(f.at)
}

func (p *Path) newArr(elem types.Type, length *Poly, site string, own *Owner) *Arr {
	a := &Arr{id: p.nid(), elem: elem, site: site, own: own, length: length, locs: map[string]*Loc{}, idx: map[string]*Poly{}}
	a.isFloat = isFloatT(elem)
	a.lvl = p.loopers
	return a
}

func (p *Path) newLoc(t types.Type, site string, own *Owner) *Loc {
	return &Loc{id: p.nid(), T: t, site: site, own: own}
}

var localOwner = &Owner{kind: "local"}

func (l *Loc) owner() *Owner {
	for x := l; x != nil; x = x.parent {
		if x.own != nil {
			return x.own
		}
		if x.arr != nil {
			return x.arr.own
		}
	}
	return localOwner
}

func (p *Path) kid(l *Loc, i int) *Loc {
	if l.kids == nil {
		l.kids = map[int]*Loc{}
	}
	if k, ok := l.kids[i]; ok {
		return k
	}
	var t types.Type
	name := ""
	switch u := l.T.Underlying().(type) {
	case *types.Struct:
		t = u.Field(i).Type()
		name = u.Field(i).Name()
	case *types.Array:
		t = u.Elem()
		name = fmt.Sprint(i)
	default:
		p.unsupported("field of %s", l.T)
	}
	k := &Loc{id: p.nid(), T: t, site: l.site + "." + name, parent: l}
	if op, ok := l.v.(*Opaque); ok {
		k.v = p.fresh(t, op.name+"."+name)
	}
	l.kids[i] = k
	return k
}

func isAgg(t types.Type) bool {
	if isReflValue(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (p *Path) loadLoc(l *Loc) Value {
	if isReflValue(l.T) {
		if l.v == nil {
			l.v = p.zero(l.T)
		}
		return l.v
	}
	switch u := l.T.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: l.T}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, p.loadLoc(p.kid(l, i)))
		}
		return s
	case *types.Array:
		a := &ArrayV{T: l.T, F: map[int]Value{}}
		for i, k := range l.kids {
			a.F[i] = p.loadLoc(k)
		}
		return a
	}
	if l.v == nil {
		l.v = p.zero(l.T)
	}
	return l.v
}

func (p *Path) storeLoc(l *Loc, v Value) {
	if isReflValue(l.T) {
		l.v = v
		l.wrote = true
		return
	}
	switch u := l.T.Underlying().(type) {
	case *types.Struct:
		if s, ok := v.(*StructV); ok {
			for i := 0; i < u.NumFields(); i++ {
				p.storeLoc(p.kid(l, i), s.F[i])
			}
			return
		}
		l.kids = nil
		l.v = v
		return
	case *types.Array:
		l.kids = nil
		if a, ok := v.(*ArrayV); ok {
			for i, x := range a.F {
				p.storeLoc(p.kid(l, i), x)
			}
		}
		return
	}
	l.v = v
	l.wrote = true
}

// elemLoc gives the location of a non-float array element.
func (p *Path) elemLoc(a *Arr, idx *Poly) *Loc {
	idx = p.F.norm(idx)
	k := idx.key()
	if l, ok := a.locs[k]; ok {
		return l
	}
	// equality under refined facts
	for kk, pi := range a.idx {
		if pEq(p.F.norm(pi), idx) {
			l := a.locs[kk]
			a.locs[k], a.idx[k] = l, idx
			return l
		}
	}
	l := &Loc{id: p.nid(), T: a.elem, site: a.site + "[" + k + "]", arr: a}
	var init Value
	switch {
	case a.fillFn != nil:
		init = a.fillFn(idx)
	default:
		for i := len(a.bulk) - 1; i >= 0; i-- {
			b := a.bulk[i]
			d := pSub(idx, b.off)
			if p.F.geZero(d) && p.F.geZero(pSub(pSub(b.n, d), pConst(1))) {
				init = p.loadElem(b.src, d)
				break
			}
		}
		if init == nil && (a.symW || len(a.bulk) > 0) {
			init = p.fresh(a.elem, a.site+"[]")
		}
	}
	if init != nil {
		p.storeLoc(l, init)
		l.wrote = false
	}
	a.locs[k], a.idx[k] = l, idx
	if _, c := idx.isConst(); !c && a.fillFn == nil {
		a.symW = true
	}
	return l
}

func (p *Path) loadElem(s Slice, i *Poly) Value {
	if s.A == nil {
		p.end("panic", "index of nil slice")
	}
	if s.A.isFloat {
		return p.loadPtr(&FloatElem{s.A, pAdd(s.Off, i)})
	}
	return p.loadLoc(p.elemLoc(s.A, pAdd(s.Off, i)))
}

func (p *Path) loadPtr(v Value) Value {
	switch x := v.(type) {
	case *Loc:
		return p.loadLoc(x)
	case *FloatElem:
		p.span("read", "", x.A, x.Idx, pAdd(x.Idx, pConst(1)))
		if !x.A.set {
			return &FloatV{poly: true, dep: x.A.dep, e: p.loadTerm(x.A, x.Idx)}
		}
		if x.A.u == nil {
			x.A.u = Unit{}
		}
		return &FloatV{u: x.A.u, dep: x.A.dep, e: p.loadTerm(x.A, x.Idx)}
	case NilV:
		p.end("panic", "nil dereference")
	case *Opaque:
		if pt, ok := x.T.Underlying().(*types.Pointer); ok {
			return p.fresh(pt.Elem(), "*"+x.name)
		}
	}
	p.unsupported("load through %T", v)
	return nil
}

func (p *Path) noteWrite(own *Owner, what string) {
	if own == nil || own.kind == "local" || p.protect {
		return
	}
	p.event(Event{Kind: "write", Name: own.kind + ":" + own.name, Extra: what})
}

// span records that the elements lo..hi-1 are accessed.
func (p *Path) span(kind, by string, a *Arr, lo, hi *Poly) {
	if p.kspan && lo != nil {
		p.event(Event{Kind: kind, Name: by, Args: []Value{a, p.F.norm(lo), p.F.norm(hi)}})
	}
}

func (p *Path) storePtr(ptr, v Value) {
	switch x := ptr.(type) {
	case *Loc:
		p.noteWrite(x.owner(), x.site)
		p.storeLoc(x, v)
	case *FloatElem:
		p.noteWrite(x.A.own, "element data")
		p.span("wrote", "", x.A, x.Idx, pAdd(x.Idx, pConst(1)))
		old := x.A.e
		if p.sweeps(x.A, x.Idx) {
			p.arrReplace(x.A, p.toFloat(v))
		} else {
			p.arrPut(x.A, p.toFloat(v))
		}
		x.A.e = old
		p.storeTerm(x.A, x.Idx, p.toFloat(v).e)
	case NilV:
		p.end("panic", "nil dereference")
	case *Opaque:
		p.event(Event{Kind: "write", Name: "unknown:" + x.name})
	default:
		p.unsupported("store through %T", ptr)
	}
}

// sweeps reports whether a store at idx belongs to a summarised loop (or nest)
// that overwrites every element of a.
func (p *Path) sweeps(a *Arr, idx *Poly) bool {
	if idx == nil || p.loopers == 0 {
		return false
	}
	var ls []*loopState
	for _, fr := range p.stack {
		for _, st := range fr.loops {
			if st.mode == lmGeneric && st.n != nil {
				ls = append(ls, st)
			}
		}
	}
	idx = p.F.norm(idx)
	n := p.F.norm(a.length)
	for _, s := range ls {
		if pEq(p.F.norm(s.n), n) && (pEq(p.F.norm(s.k), idx) || pEq(p.F.norm(down(s)), idx)) {
			return true
		}
		for _, o := range ls {
			if o != s && pEq(p.F.norm(pAdd(pMul(o.k, s.n), s.k)), idx) && pEq(p.F.norm(pMul(o.n, s.n)), n) {
				return true
			}
		}
	}
	return false
}

// arrReplace is a strong update of all elements.
func (p *Path) arrReplace(a *Arr, f *FloatV) {
	a.written++
	a.e = nil
	a.dep = depJoin(a.dep, f.dep)
	if f.poly {
		return
	}
	a.set = true
	a.u = f.u
	if a.u == nil {
		a.u = Unit{}
	}
}

func (p *Path) arrPut(a *Arr, f *FloatV) {
	a.written++
	a.e = nil
	a.dep = depJoin(a.dep, f.dep)
	if f.poly {
		return
	}
	if !a.set {
		a.set = true
		if a.u == nil {
			a.u = f.u
			if a.u == nil {
				a.u = Unit{}
			}
			return
		}
	}
	p.equate(a.u, f.u, "store")
}

// equate imposes equal dimensions; constraints on rigid units are events.
func (p *Path) equate(a, b Unit, why string) {
	c, rigid := p.U.equate(a, b)
	if rigid {
		p.event(Event{Kind: "unit", Name: p.U.str(c), Extra: why})
	}
}

func (p *Path) toFloat(v Value) *FloatV {
	switch x := v.(type) {
	case *FloatV:
		return x
	case *Poly:
		if c, ok := x.isConst(); ok {
			f := float64(c)
			return &FloatV{poly: c == 0, c: &f, e: eConst(f)}
		}
		return &FloatV{e: p.eIntT(x)}
	}
	return &FloatV{u: p.U.fresh("?", false)}
}

// copyFloats models copy/append content flow between float slices.
func (p *Path) copyFloats(dst, src *Arr) {
	if src == nil || dst == nil {
		return
	}
	dst.dep = depJoin(dst.dep, src.dep)
	if !src.set {
		return
	}
	p.arrPut(dst, &FloatV{u: src.u, dep: src.dep})
}

// ---- frames and loops ----------------------------------------------------

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	at     token.Pos
	loops  map[*ssa.BasicBlock]*loopState
	defers []func()
	chain  string
	merged map[*ssa.Phi]Value
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	order   []*ssa.BasicBlock // outer before inner
}

func (I *Interp) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := I.loops[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := li.headers[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				li.headers[h] = body
				li.order = append(li.order, h)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	sort.Slice(li.order, func(i, j int) bool {
		return len(li.headers[li.order[i]]) > len(li.headers[li.order[j]])
	})
	I.loops[fn] = li
	return li
}

type loopMode int

const (
	lmConcrete loopMode = iota
	lmGeneric
	lmFinal
)

type loopState struct {
	header    *ssa.BasicBlock
	blocks    map[*ssa.BasicBlock]bool
	mode      loopMode
	iter      int
	undecided bool
	pass      int
	k         *Poly // iteration counter atom
	n         *Poly // trip count if known
	phis      []*ssa.Phi
	init      []Value
	gen       []Value
	key       string
	entered   bool // header test passed in generic mode
	down      bool
	seq       int // terms: when the generic iteration began
}

const unrollLimit = 24

// runGeneric etc. operate on the frame's loop.

func (p *Path) call(fn *ssa.Function, args []Value, bind []Value) Value {
	if len(p.stack) > 120 {
		p.end("limit", "call depth")
	}
	if p.I.reflect {
		if h, ok := reflExternals[extName(fn)]; ok {
			return h(p, fn, args)
		}
	}
	if h, ok := externals[extName(fn)]; ok {
		return h(p, fn, args)
	}
	if p.T.cut != nil {
		if v, ok := p.T.cut(fn, args); ok {
			return v
		}
	}
	if v, ok := p.special(fn, args); ok {
		return v
	}
	if fn.Blocks == nil {
		return p.external(fn, args)
	}
	if !inModule(pkgOf(fn)) && !allowExternalBody(fn) {
		return p.external(fn, args)
	}
	if v, ok := p.mergeCall(fn, args, bind); ok {
		return v
	}
	if t := p.transposition(fn, args); t != nil {
		v := p.callBody(fn, args, bind)
		t(v)
		return v
	}
	return p.callBody(fn, args, bind)
}

func (p *Path) callBody(fn *ssa.Function, args []Value, bind []Value) Value {
	fr := &frame{fn: fn, merged: map[*ssa.Phi]Value{}, env: make(map[ssa.Value]Value, 32), loops: map[*ssa.BasicBlock]*loopState{}}
	if len(p.stack) > 0 {
		c := p.stack[len(p.stack)-1]
		fr.chain = c.chain + "/" + fmt.Sprint(int(c.at)) + fn.Name()
		if p.calls == nil {
			p.calls = map[string]int{}
		}
		if n := p.calls[fr.chain]; n > 0 {
			p.calls[fr.chain]++
			fr.chain += fmt.Sprintf("·%d", n)
		} else {
			p.calls[fr.chain] = 1
		}
	} else {
		fr.chain = p.I.unit + ":" + fn.Name()
	}
	fr.at = fn.Pos()
	for i, a := range fn.Params {
		if i < len(args) {
			fr.env[a] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	p.stack = append(p.stack, fr)
	res := p.run(fr)
	p.stack = p.stack[:len(p.stack)-1]
	return res
}

func (p *Path) run(fr *frame) Value {
	li := p.I.loopInfo(fr.fn)
	var prev *ssa.BasicBlock
	b := fr.fn.Blocks[0]
	joined := false
	for {
		p.steps++
		// loops left by this transfer are finished
		for h, st := range fr.loops {
			if !st.blocks[b] {
				p.leaveLoop(st)
				delete(fr.loops, h)
			}
		}
		phis := blockPhis(b)
		if joined {
			joined = false
			if body, ok := li.headers[b]; ok {
				p.enterHeader(fr, b, prev, body, phis)
			} else {
				for _, ph := range phis {
					fr.env[ph] = fr.merged[ph]
				}
			}
		} else if body, ok := li.headers[b]; ok {
			p.enterHeader(fr, b, prev, body, phis)
		} else if len(phis) > 0 {
			vals := make([]Value, len(phis))
			pi := predIndex(b, prev)
			for i, ph := range phis {
				vals[i] = p.val(fr, ph.Edges[pi])
			}
			for i, ph := range phis {
				fr.env[ph] = vals[i]
			}
		}
	again:
		for _, ins := range b.Instrs[len(phis):] {
			p.steps++
			if p.steps > p.I.maxSteps {
				p.end("limit", "step limit")
			}
			if ins.Pos().IsValid() {
				fr.at = ins.Pos()
			}
			switch x := ins.(type) {
			case *ssa.Jump:
				prev, b = b, b.Succs[0]
				goto next
			case *ssa.If:
				c := p.boolVal(p.val(fr, x.Cond))
				if _, known := p.static(c); !known {
					if j := p.tryMerge(fr, b, c); j != nil {
						prev, b = b, j
						joined = true
						goto next
					}
				}
				nb, redo := p.branch(fr, b, c)
				if redo {
					goto again
				}
				prev, b = b, nb
				goto next
			case *ssa.Return:
				for _, st := range fr.loops {
					p.leaveLoop(st)
				}
				if fr.fn.Recover != nil || len(fr.defers) > 0 {
					p.runDefers(fr)
				}
				switch len(x.Results) {
				case 0:
					return nil
				case 1:
					return p.val(fr, x.Results[0])
				}
				var t Tuple
				for _, r := range x.Results {
					t = append(t, p.val(fr, r))
				}
				return t
			case *ssa.Panic:
				p.end("panic", p.str(p.val(fr, x.X)))
			default:
				p.exec(fr, ins)
			}
		}
		p.unsupported("block without terminator")
	next:
	}
}

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d()
	}
}

func blockPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, ph)
	}
	return r
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == prev {
			return i
		}
	}
	return 0
}

func (p *Path) leaveLoop(st *loopState) {
	if st.mode == lmGeneric || st.mode == lmFinal {
		if st.entered {
			p.loopers--
			st.entered = false
		}
	}
}

func (p *Path) enterHeader(fr *frame, b, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi) {
	st := fr.loops[b]
	inside := prev != nil && body[prev] && st != nil
	pi := 0
	if prev != nil {
		pi = predIndex(b, prev)
	}
	vals := make([]Value, len(phis))
	for i, ph := range phis {
		if m, ok := fr.merged[ph]; ok {
			vals[i] = m
			delete(fr.merged, ph)
			continue
		}
		vals[i] = p.val(fr, ph.Edges[pi])
	}
	if !inside {
		st = &loopState{header: b, blocks: body, phis: phis, key: fr.chain + "@" + fmt.Sprint(b.Index)}
		fr.loops[b] = st
		for i, ph := range phis {
			fr.env[ph] = vals[i]
		}
		return
	}
	switch st.mode {
	case lmConcrete:
		st.iter++
		if st.iter > unrollLimit {
			st.undecided = true
		}
		if !st.undecided {
			for i, ph := range phis {
				fr.env[ph] = vals[i]
			}
			return
		}
		st.init = vals
		p.startGeneric(fr, st)
	case lmGeneric:
		p.backEdge(fr, st, vals)
	case lmFinal:
		p.end("infeasible", "loop without reachable exit")
	}
}

// startGeneric replaces the loop-carried values by their generic iteration
// values.
func (p *Path) startGeneric(fr *frame, st *loopState) {
	st.mode = lmGeneric
	st.pass = 0
	st.k = p.freshAtom("it", false)
	p.genPhis(fr, st)
}

func phiDelta(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) (int64, bool) {
	// syntactic constant step on every back edge
	var d int64
	have := false
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		var c *ssa.Const
		if bo.X == ph {
			c, _ = bo.Y.(*ssa.Const)
		} else if bo.Y == ph && bo.Op == token.ADD {
			c, _ = bo.X.(*ssa.Const)
		}
		if c == nil || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		v, _ := constant.Int64Val(c.Value)
		if bo.Op == token.SUB {
			v = -v
		} else if bo.Op != token.ADD {
			return 0, false
		}
		if have && v != d {
			return 0, false
		}
		d, have = v, true
	}
	return d, have
}

func (st *loopState) phiKey(i int) string { return fmt.Sprintf("%s#%d", st.key, i) }

func (p *Path) partial(k *Poly, delta *Poly) *Poly {
	// Σ_{j<k} delta(j)
	ka := ""
	for m := range k.t {
		ka = m
	}
	if !delta.hasAtom(ka) {
		return pMul(k, delta)
	}
	body := p.F.norm(delta).substAtom(ka, pAtom("•"))
	return pAtom("Σ{" + k.key() + "}(" + body.key() + ")")
}

func (p *Path) genPhis(fr *frame, st *loopState) {
	st.gen = make([]Value, len(st.phis))
	for i, ph := range st.phis {
		init := st.init[i]
		var g Value
		switch {
		case isIntT(ph.Type()):
			ip, _ := init.(*Poly)
			if ip == nil {
				ip = p.freshAtom(ph.Comment, true)
			}
			kn := p.I.know[st.phiKey(i)]
			if d, ok := phiDelta(ph, st.blocks); ok && (kn == nil || !kn.havoc) {
				g = pAdd(ip, pScale(st.k, d))
			} else if kn == nil || kn.havoc || kn.delta == nil {
				gp := p.freshAtom(ph.Comment+"φ", true)
				p.phiBounds(st, kn, gp, ip)
				g = gp
			} else {
				g = pAdd(ip, p.partial(st.k, kn.delta))
			}
		case isFloatT(ph.Type()):
			f := p.toFloat(init)
			u := p.U.fresh("acc", false)
			if !f.poly {
				p.equate(u, f.u, "loop accumulator")
			}
			g = &FloatV{u: u, dep: f.dep, e: p.accTerm(st, i)}
		case isBoolT(ph.Type()):
			g = &BoolV{kind: bOpaque, key: fmt.Sprintf("%s?%d", ph.Comment, p.nid())}
		case isStringT(ph.Type()):
			g = &StrV{}
		default:
			if s, ok := init.(Slice); ok {
				kn := p.I.know[st.phiKey(i)]
				l := s.Len
				if kn == nil || kn.havoc || kn.delta == nil {
					l = p.freshAtom("len("+ph.Comment+")φ", false)
				} else {
					l = pAdd(s.Len, p.partial(st.k, kn.delta))
				}
				g = Slice{s.A, s.Off, l, s.Cap}
			} else {
				g = init
			}
		}
		st.gen[i] = g
	}
	for i, ph := range st.phis {
		fr.env[ph] = st.gen[i]
	}
}

// phiBounds assumes the inductive bounds of a loop-carried integer: not below
// its initial value and not above the last iteration number. backEdge checks
// that one more iteration preserves them.
func (p *Path) phiBounds(st *loopState, kn *loopKnow, g, init *Poly) {
	if kn == nil || !kn.havoc {
		return
	}
	if !kn.noLo {
		p.F.addGE(pSub(g, init))
	}
	if !kn.noHi && st.n != nil && p.F.geZero(pSub(pSub(st.n, init), pConst(1))) {
		p.F.addGE(pSub(pSub(st.n, g), pConst(1)))
	}
}

func (p *Path) learn(st *loopState, i int, got *Poly, gen, init *Poly) {
	key := st.phiKey(i)
	kn := p.I.know[key]
	if kn == nil {
		kn = &loopKnow{}
		p.I.know[key] = kn
	}
	if kn.havoc {
		return
	}
	d := p.F.norm(pSub(got, gen))
	if kn.delta != nil {
		// the generic value was init+Σδ; the step must be δ again
		if pEq(p.F.norm(kn.delta), d) {
			return
		}
	}
	kn.upd++
	for m := range d.t {
		for _, a := range monoAtoms(m) {
			if strings.Contains(a, "φ") || strings.Contains(a, "?") && !d.hasAtom("") {
				kn.havoc = true
			}
		}
	}
	if kn.upd > 4 {
		kn.havoc = true
	}
	if kn.havoc {
		kn.delta = nil
	} else {
		kn.delta = d
	}
	panic(restartAll{})
}

// backEdge ends the generic iteration and moves to the post-loop state.
func (p *Path) backEdge(fr *frame, st *loopState, vals []Value) {
	N := st.n
	if N == nil {
		N = p.freshAtom("trips", false)
		p.F.addGE(pSub(N, pConst(1)))
	}
	final := make([]Value, len(st.phis))
	for i, ph := range st.phis {
		switch {
		case isIntT(ph.Type()):
			got, _ := vals[i].(*Poly)
			gen := st.gen[i].(*Poly)
			ip, _ := st.init[i].(*Poly)
			if got == nil || ip == nil {
				final[i] = p.freshAtom(ph.Comment, true)
				continue
			}
			kn := p.I.know[st.phiKey(i)]
			if d, ok := phiDelta(ph, st.blocks); ok && (kn == nil || !kn.havoc) {
				final[i] = pAdd(ip, pScale(N, d))
				continue
			}
			p.learn(st, i, got, gen, ip)
			kn = p.I.know[st.phiKey(i)]
			if kn.havoc || kn.delta == nil {
				if !kn.noLo && !p.F.geZero(pSub(got, ip)) {
					kn.noLo = true
					panic(restartAll{})
				}
				if !kn.noHi && (st.n == nil || p.F.geZero(pSub(pSub(st.n, ip), pConst(1)))) && (st.n == nil || !p.F.geZero(pSub(pSub(st.n, got), pConst(1)))) {
					kn.noHi = true
					panic(restartAll{})
				}
				fp := p.freshAtom(ph.Comment+"φ", true)
				p.phiBounds(st, kn, fp, ip)
				final[i] = fp
			} else {
				final[i] = pAdd(ip, p.total(st, N, kn.delta))
			}
		case isFloatT(ph.Type()):
			got := p.toFloat(vals[i])
			g := st.gen[i].(*FloatV)
			if !got.poly {
				p.equate(g.u, got.u, "loop accumulator")
			}
			final[i] = &FloatV{u: g.u, dep: depJoin(g.dep, got.dep), e: p.foldTerm(st, i, N, got.e)}
		case isBoolT(ph.Type()):
			final[i] = &BoolV{kind: bOpaque, key: fmt.Sprintf("%s?%d", ph.Comment, p.nid())}
		case isStringT(ph.Type()):
			final[i] = &StrV{}
		default:
			s, ok := vals[i].(Slice)
			g, ok2 := st.gen[i].(Slice)
			if ok && ok2 {
				p.learn(st, i, s.Len, g.Len, st.init[i].(Slice).Len)
				kn := p.I.know[st.phiKey(i)]
				l := p.freshAtom("len("+ph.Comment+")φ", false)
				if !kn.havoc && kn.delta != nil {
					l = pAdd(st.init[i].(Slice).Len, p.total(st, N, kn.delta))
				}
				final[i] = Slice{s.A, s.Off, l, s.Cap}
			} else {
				final[i] = vals[i]
			}
		}
	}
	p.foundAt(st, vals, final)
	for i, ph := range st.phis {
		fr.env[ph] = final[i]
	}
	st.mode = lmFinal
}

func (p *Path) total(st *loopState, N, delta *Poly) *Poly {
	ka := ""
	for m := range st.k.t {
		ka = m
	}
	if !delta.hasAtom(ka) {
		return pMul(N, delta)
	}
	body := p.F.norm(delta).substAtom(ka, pAtom("•"))
	return pAtom("Σ{" + p.F.norm(N).key() + "}(" + body.key() + ")")
}

// branch decides an If; redo asks the caller to re-run the block's non-phi
// instructions with refreshed phi values.
func (p *Path) branch(fr *frame, b *ssa.BasicBlock, c *BoolV) (*ssa.BasicBlock, bool) {
	t, e := b.Succs[0], b.Succs[1]
	// innermost loop that this branch may leave
	var st *loopState
	exitOn := false
	for _, s := range fr.loops {
		if !s.blocks[b] {
			continue
		}
		if s.blocks[t] != s.blocks[e] {
			if st == nil || len(s.blocks) < len(st.blocks) {
				st = s
				exitOn = s.blocks[e] // exit when cond is true (then-branch leaves)
			}
		}
	}
	pick := func(v bool) *ssa.BasicBlock {
		if v {
			return t
		}
		return e
	}
	v, known := p.static(c)
	if st == nil {
		if known {
			return pick(v), false
		}
		return pick(p.decide(c)), false
	}
	stay := !exitOn // value of cond that stays in the loop
	switch st.mode {
	case lmConcrete:
		if known {
			sym := false
			if v == stay && b == st.header && (c.kind == bGE || c.kind == bEQ) {
				_, k := p.F.norm(c.p).isConst()
				sym = !k
			}
			if !sym {
				return pick(v), false
			}
			// a symbolic bound that certainly admits an iteration
			st.init = make([]Value, len(st.phis))
			for i, ph := range st.phis {
				st.init[i] = fr.env[ph]
			}
			p.startGeneric(fr, st)
			return nil, true
		}
		if p.I.draws {
			// how often numbers are drawn again is limited
			return pick(p.decide(c)), false
		}
		if b == st.header {
			if p.choose("loop "+c.String(), 2) == 0 {
				p.assume(c, exitOn)
				return pick(exitOn), false
			}
			st.init = make([]Value, len(st.phis))
			for i, ph := range st.phis {
				st.init[i] = fr.env[ph]
			}
			p.startGeneric(fr, st)
			return nil, true
		}
		r := p.decide(c)
		if r == stay && !headerExits(st) {
			st.undecided = true
		}
		return pick(r), false
	case lmGeneric:
		if b == st.header && st.pass == 0 {
			st.pass = 1
			if !st.entered {
				st.entered = true
				p.loopers++
				p.T.seq++
				st.seq = p.T.seq
			}
			p.solveTrip(st, c, stay)
			p.genPhis(fr, st)
			return nil, true
		}
		if b == st.header {
			if known {
				if v != stay {
					p.end("infeasible", "generic iteration impossible")
				}
				return pick(v), false
			}
			p.assume(c, stay)
			return pick(stay), false
		}
		if known {
			return pick(v), false
		}
		return pick(p.decide(c)), false
	default: // final
		if known {
			if v == stay && b == st.header {
				p.end("infeasible", "loop never ends")
			}
			return pick(v), false
		}
		if b == st.header || true {
			p.assume(c, exitOn)
			return pick(exitOn), false
		}
	}
	return nil, false
}

// headerExits reports whether the loop's own header can leave it, so that
// unrolling is bounded by the header condition.
func headerExits(st *loopState) bool {
	if _, ok := st.header.Instrs[len(st.header.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for _, s := range st.header.Succs {
		if !st.blocks[s] {
			return true
		}
	}
	return false
}

// solveTrip derives the trip count from the header condition and gives the
// iteration counter its canonical name.
func (p *Path) solveTrip(st *loopState, c *BoolV, stay bool) {
	var q *Poly // stay iff q >= 0
	kat := ""
	for m := range st.k.t {
		kat = m
	}
	positive := c.neg != stay // condition literal required true?
	switch c.kind {
	case bGE:
		if positive {
			q = c.p
		} else {
			q = pSub(pScale(c.p, -1), pConst(1))
		}
	case bEQ:
		if !positive {
			// stay iff p != 0; orient so that it decreases with k
			q = c.p
			if q.t[kat] > 0 {
				q = pScale(q, -1)
			}
			q = pSub(q, pConst(1))
		}
	}
	name := fmt.Sprintf("k%d", p.loopers)
	if q == nil {
		st.k = pAtom(name + "⟨" + fmt.Sprint(p.nid()) + "⟩")
		return
	}
	q = p.F.norm(q)
	co := q.t[kat]
	lin := co < 0
	for m := range q.t {
		if m != kat {
			for _, a := range monoAtoms(m) {
				if a == kat {
					lin = false
				}
			}
		}
	}
	if !lin {
		st.k = pAtom(name + "⟨" + fmt.Sprint(p.nid()) + "⟩")
		return
	}
	a := pLin(q, &Poly{map[string]int64{kat: 1}}, -co)
	step := -co
	num := p.F.norm(pAdd(a, pConst(step)))
	var N *Poly
	ok := true
	for _, x := range num.t {
		if x%step != 0 {
			ok = false
		}
	}
	if ok {
		N = pConst(0)
		for m, x := range num.t {
			N.t[m] = x / step
		}
		if len(N.t) > 1 {
			delete(N.t, "$")
		}
	} else {
		N = p.defAtom(fmt.Sprintf("⌊(%s)/%d⌋", num.key(), step), '/', num, pConst(step))
		p.F.addGE(pSub(num, pScale(N, step)))
		p.F.addGE(pSub(pAdd(pScale(N, step), pConst(step-1)), num))
	}
	st.n = N
	at := name + "⟨" + N.key() + "⟩"
	st.k = p.defAtom(at, 'k', N, nil)
	p.F.addGE(pSub(pSub(N, st.k), pConst(1)))
	if p.F.bad {
		p.end("infeasible", "")
	}
}

var ratHalf = big.NewRat(1, 2)

func ratOf(f float64) *big.Rat {
	r := new(big.Rat)
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return r
	}
	r.SetFloat64(f)
	return r
}
