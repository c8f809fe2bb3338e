package main

import (
	"fmt"
	"go/types"

	"strings"

	"golang.org/x/tools/go/ssa"
)

// Joining of paths. Branches that only compute scalars are evaluated on every
// arm and joined where they meet again, instead of multiplying paths.

// pureFn reports whether fn only computes: no stores (other than to its own
// fresh allocations), no channel or goroutine operation, no dynamic dispatch
// except on known-pure functions, and terminates without loops.
func (I *Interp) pureFn(fn *ssa.Function) bool {
	if I.pure == nil {
		I.pure = map[*ssa.Function]int{}
	}
	switch I.pure[fn] {
	case 1:
		return true
	case 2:
		return false
	}
	I.pure[fn] = 2
	if fn.Blocks == nil {
		return false
	}
	if len(I.loopInfo(fn).headers) > 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if !I.pureIns(ins, false) {
				switch ins.(type) {
				case *ssa.Return, *ssa.Panic, *ssa.If, *ssa.Jump, *ssa.Phi:
					continue
				}
				return false
			}
		}
	}
	I.pure[fn] = 1
	return true
}

func (I *Interp) pureIns(ins ssa.Instruction, allowFloatStore bool) bool {
	switch x := ins.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.MultiConvert, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeInterface:
		if u, ok := ins.(*ssa.UnOp); ok && u.Op.String() == "<-" {
			return false
		}
		return true
	case *ssa.Store:
		if allowFloatStore && isFloatT(x.Val.Type()) {
			if _, ok := x.Addr.(*ssa.IndexAddr); ok {
				return true
			}
		}
		return false
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return false
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max", "ssa:wrapnilchk":
				return true
			}
			return false
		}
		c := x.Call.StaticCallee()
		if c == nil {
			return false
		}
		if pk := pkgOf(c); pk != nil && pk.Path() == "math" {
			return true
		}
		return I.pureFn(c)
	}
	return false
}

// mergeCall evaluates a pure scalar function on all of its internal paths and
// joins the results.
func (p *Path) mergeCall(fn *ssa.Function, args, bind []Value) (Value, bool) {
	res := fn.Signature.Results()
	if res.Len() != 1 || !isFloatT(res.At(0).Type()) || len(fn.Blocks) < 2 {
		return nil, false
	}
	if !p.I.pureFn(fn) {
		return nil, false
	}
	var out []Value
	var tr [][]termLit
	ok, ended := p.locally(func() {
		out = append(out, p.callBody(fn, args, bind))
		tr = append(tr, p.T.trace)
	})
	if p.separates(tr) {
		return nil, false
	}
	if ended && !(p.I.terms && len(out) > 0) {
		// some argument is rejected: keep the paths apart
		return nil, false
	}
	if !ok || len(out) == 0 {
		p.end("panic", "every path of "+fnName(fn)+" panics")
	}
	r := p.join(out, res.At(0).Type())
	return p.joinTerm(r, out, tr), true
}

// separates reports whether arms differ by an equality of floats that has to be
// kept apart.
func (p *Path) separates(tr [][]termLit) bool {
	if !p.I.exactEq || p.loopers > 0 || p.merging > 0 {
		return false
	}
	for _, t := range tr {
		for _, l := range t {
			if l.c.eq {
				return true
			}
		}
	}
	return false
}

// locally explores all decision vectors of f without committing any of them.
// Paths that end inside f are dropped.
func (p *Path) locally(f func()) (bool, bool) {
	sF, sB := p.F, p.bools
	sPrefix, sTaken, sSizes, sLabels := p.prefix, p.taken, p.sizes, p.labels
	depth := len(p.stack)
	var prefix []int
	any, ended := false, false
	sTrace, sStores := p.T.trace, p.T.stores
	p.merging++
	defer func() { p.merging-- }()
	for n := 0; n < 4000; n++ {
		p.F = sF.clone()
		p.bools = map[string]bool{}
		for k, v := range sB {
			p.bools[k] = v
		}
		p.prefix, p.taken, p.sizes, p.labels = prefix, nil, nil, nil
		p.T.trace, p.T.stores = nil, nil
		loopers := p.loopers
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, is := r.(endPath); is {
						if e.kind == "unsupported" || e.kind == "limit" {
							panic(r)
						}
						if e.kind != "infeasible" {
							ended = true
						}
						p.stack = p.stack[:depth]
						p.loopers = loopers
						return
					}
					panic(r)
				}
			}()
			f()
			any = true
		}()
		i := len(p.taken) - 1
		for i >= 0 && p.taken[i]+1 >= p.sizes[i] {
			i--
		}
		if i < 0 {
			break
		}
		prefix = append(append([]int{}, p.taken[:i]...), p.taken[i]+1)
	}
	p.F, p.bools = sF, sB
	p.prefix, p.taken, p.sizes, p.labels = sPrefix, sTaken, sSizes, sLabels
	p.T.trace, p.T.stores = sTrace, sStores
	return any, ended
}

func (p *Path) join(vs []Value, t types.Type) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	switch {
	case isFloatT(t):
		var r *FloatV
		var d *depSet
		same := true
		for _, v := range vs {
			f := p.toFloat(v)
			d = depJoin(d, f.dep)
			if r == nil {
				r = f
				continue
			}
			if r.c == nil || f.c == nil || *r.c != *f.c {
				same = false
			}
			switch {
			case r.poly:
				r = f
			case f.poly:
			default:
				p.equate(r.u, f.u, "join of branches")
			}
		}
		if same && r.c != nil {
			return r
		}
		return &FloatV{u: r.u, poly: r.poly, dep: d}
	case isIntT(t):
		a := p.intVal(vs[0])
		for _, v := range vs[1:] {
			if !pEq(p.F.norm(a), p.F.norm(p.intVal(v))) {
				return p.joinInts(vs)
			}
		}
		return a
	case isBoolT(t):
		if !p.truthsDiffer(vs) {
			return vs[0]
		}
		return &BoolV{kind: bOpaque, key: fmt.Sprintf("join?%d", p.nid())}
	}
	return nil
}

// truthsDiffer reports whether booleans are not known to be the same.
func (p *Path) truthsDiffer(vs []Value) bool {
	var first bool
	for i, v := range vs {
		b, ok := v.(*BoolV)
		if !ok {
			return true
		}
		t, known := p.static(b)
		if !known || i > 0 && t != first {
			return true
		}
		first = t
	}
	return false
}

// region returns the join block of a scalar-only branch at the end of b, or
// nil when the branch cannot be joined.
func (I *Interp) region(b *ssa.BasicBlock) *ssa.BasicBlock {
	if I.regions == nil {
		I.regions = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	if r, ok := I.regions[b]; ok {
		return r
	}
	I.regions[b] = nil
	li := I.loopInfo(b.Parent())
	// candidate join: walk forward collecting pure blocks until a single
	// common block remains
	inside := map[*ssa.BasicBlock]bool{}
	frontier := map[*ssa.BasicBlock]bool{}
	for _, s := range b.Succs {
		frontier[s] = true
	}
	for iter := 0; iter < 64; iter++ {
		if len(frontier) == 1 {
			for j := range frontier {
				ok := true
				for _, ph := range blockPhis(j) {
					t := ph.Type()
					if !isFloatT(t) && !isIntT(t) && !isBoolT(t) {
						ok = false
					}
				}
				// every predecessor of inside blocks must be inside or b
				for x := range inside {
					for _, q := range x.Preds {
						if q != b && !inside[q] {
							ok = false
						}
					}
				}
				if j == b {
					ok = false
				}
				if ok {
					I.regions[b] = j
					return j
				}
				return nil
			}
		}
		// expand a frontier block all of whose predecessors are inside or b
		var pick *ssa.BasicBlock
		for x := range frontier {
			all := true
			for _, q := range x.Preds {
				if q != b && !inside[q] {
					all = false
				}
			}
			if all && (pick == nil || x.Index < pick.Index) {
				pick = x
			}
		}
		if pick == nil || li.headers[pick] != nil {
			return nil
		}
		for _, ins := range pick.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.If, *ssa.Jump:
				continue
			}
			if !I.pureIns(ins, true) {
				return nil
			}
		}
		delete(frontier, pick)
		inside[pick] = true
		if len(pick.Succs) == 0 {
			return nil
		}
		for _, s := range pick.Succs {
			if !inside[s] {
				frontier[s] = true
			}
		}
	}
	return nil
}

// tryMerge executes the region after b on all arms and returns the join block
// with its phis already bound.
func (p *Path) tryMerge(fr *frame, b *ssa.BasicBlock, c *BoolV) *ssa.BasicBlock {
	j := p.I.region(b)
	if j == nil {
		return nil
	}
	if c.kind != bOpaque && p.loopers == 0 {
		return nil
	}
	if c.kind == bOpaque && len(c.key) > 3 && (c.key[:3] == "rg:" || strings.HasPrefix(c.key, "alias:")) {
		return nil
	}
	phis := blockPhis(j)
	// an integer join outside any summarised loop would lose too much
	vals := make([][]Value, len(phis))
	var tr [][]termLit
	var sts [][]termStore
	env := fr.env
	ok, ended := p.locally(func() {
		fr.env = make(map[ssa.Value]Value, len(env)+8)
		for k, v := range env {
			fr.env[k] = v
		}
		prev := b
		var cur *ssa.BasicBlock
		if p.decide(c) {
			cur = b.Succs[0]
		} else {
			cur = b.Succs[1]
		}
		for cur != j {
			ps := blockPhis(cur)
			tmp := make([]Value, len(ps))
			pi := predIndex(cur, prev)
			for i, ph := range ps {
				tmp[i] = p.val(fr, ph.Edges[pi])
			}
			for i, ph := range ps {
				fr.env[ph] = tmp[i]
			}
			var nx *ssa.BasicBlock
			for _, ins := range cur.Instrs[len(ps):] {
				p.steps++
				if ins.Pos().IsValid() {
					fr.at = ins.Pos()
				}
				switch x := ins.(type) {
				case *ssa.Jump:
					nx = cur.Succs[0]
				case *ssa.If:
					if p.decide(p.boolVal(p.val(fr, x.Cond))) {
						nx = cur.Succs[0]
					} else {
						nx = cur.Succs[1]
					}
				default:
					p.exec(fr, ins)
				}
			}
			prev, cur = cur, nx
		}
		pi := predIndex(j, prev)
		for i, ph := range phis {
			vals[i] = append(vals[i], p.val(fr, ph.Edges[pi]))
		}
		tr = append(tr, p.T.trace)
		sts = append(sts, p.T.stores)
	})
	fr.env = env
	if p.separates(tr) {
		return nil
	}
	if ended && !(p.I.terms && len(tr) > 0) {
		return nil
	}
	if p.I.terms && p.loopers == 0 && p.merging == 0 {
		for i, ph := range phis {
			if isIntT(ph.Type()) && p.integersDiffer(vals[i]) {
				return nil
			}
			if isBoolT(ph.Type()) && p.truthsDiffer(vals[i]) {
				return nil
			}
		}
	}
	if !ok {
		p.end("infeasible", "no arm of the branch is feasible")
	}
	for i, ph := range phis {
		fr.merged[ph] = p.joinTerm(p.join(vals[i], ph.Type()), vals[i], tr)
	}
	p.noteArms(phis, fr.merged, vals)
	p.joinStores(tr, sts)
	return j
}

// integersDiffer reports whether a joined integer would be a new one.
func (p *Path) integersDiffer(vs []Value) bool {
	for _, v := range vs[1:] {
		if !pEq(p.F.norm(p.intVal(vs[0])), p.F.norm(p.intVal(v))) {
			return true
		}
	}
	return false
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	for k, v := range f.neg {
		n.neg[k] = v
	}
	for k, v := range f.rules {
		n.rules[k] = v
	}
	for k := range f.pos {
		n.pos[k] = true
	}
	n.order = append([]string{}, f.order...)
	n.ges = append([]*Poly{}, f.ges...)
	n.nes = append([]*Poly{}, f.nes...)
	n.bad = f.bad
	return n
}

// joinInts returns a fresh integer bounded by every bound shared by the
// alternatives.
func (p *Path) joinInts(vs []Value) *Poly {
	j := p.freshAtom("join", true)
	var alts []*Poly
	for _, v := range vs {
		alts = append(alts, p.F.norm(p.intVal(v)))
	}
	var add []*Poly
	all := func(f func(a *Poly) bool) bool {
		for _, a := range alts {
			if !f(a) {
				return false
			}
		}
		return true
	}
	if all(func(a *Poly) bool { return p.F.geZero(a) }) {
		add = append(add, j)
	}
	for _, a0 := range alts {
		for _, g := range p.F.ges {
			u := p.F.norm(pAdd(g, a0))
			if len(u.t) > len(g.t) {
				continue
			}
			if all(func(a *Poly) bool { return p.F.geZero(pSub(u, a)) }) {
				add = append(add, pSub(u, j))
			}
		}
	}
	for _, g := range add {
		p.F.addGE(g)
	}
	return j
}
