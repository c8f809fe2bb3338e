package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interface contracts of the vector kernels are assumed where matrix
// operations call them. Here the Go bodies behind them are interpreted against
// these contracts, in the assembly build and in the pure Go build: given
// operands as long as the contract says, a body stays within them, calls the
// assembly only with operands that satisfy its contract in turn, writes only
// what it may write, and treats all elements.

type kernelRun struct {
	p    *Path
	end  *endPath
	args []Value
	outs map[*Arr]bool
}

func (I *Interp) runKernel(c *kernelContract, fn *ssa.Function, reset func(), visit func(*kernelRun)) (int, bool) {
	runs := map[*Path]*kernelRun{}
	return I.explore(c.name, func() { runs = map[*Path]*kernelRun{}; reset() }, func(p *Path) *endPath {
		k := &kernelRun{p: p}
		runs[p] = k
		p.phase = "construct"
		for _, prm := range fn.Params {
			t := prm.Type()
			if s, ok := t.Underlying().(*types.Slice); ok && isFloatT(s.Elem()) {
				n := pAtom(prm.Name() + ".len")
				a := p.newArr(s.Elem(), n, prm.Name(), &Owner{kind: "operand", name: prm.Name()})
				a.set, a.u, a.dep = true, p.U.fresh("["+prm.Name()+"]", false), depOf(prm.Name())
				k.args = append(k.args, Slice{a, pConst(0), n, n})
				continue
			}
			switch {
			case isFloatT(t):
				k.args = append(k.args, &FloatV{u: p.U.fresh("["+prm.Name()+"]", false), dep: depOf(prm.Name())})
			case isIntT(t):
				k.args = append(k.args, pAtom(prm.Name()))
			default:
				k.args = append(k.args, p.fresh(t, prm.Name()))
			}
		}
		p.kassume, p.kouts = true, map[*Arr]bool{}
		p.kspan = true
		c.apply(p, fn, k.args)
		p.kassume = false
		k.outs = p.kouts
		if p.F.bad {
			return &endPath{"infeasible", "", ""}
		}
		p.phase = "run"
		p.callBody(fn, k.args, nil)
		p.phase = "post"
		return nil
	}, func(p *Path, e *endPath) {
		k := runs[p]
		k.end = e
		delete(runs, p)
		visit(k)
	})
}

func checkKernels(P *Program, build string) []*opResult {
	byName := map[string]*ssa.Function{}
	for fn := range P.All() {
		if fn.Blocks != nil && fn.Origin() == nil && fn.Parent() == nil {
			byName[extName(fn)] = fn
		}
	}
	var names []string
	for n := range kernelContracts {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*opResult
	for _, n := range names {
		c := kernelContracts[n]
		fn := byName[n]
		if fn == nil {
			continue // assembly in this build
		}
		I := NewInterp(P)
		var r *opResult
		reset := func() { r = &opResult{unit: c.name + " (" + build + ")", stages: map[string]int{}} }
		reset()
		np, complete := I.runKernel(c, fn, reset, func(k *kernelRun) { r.judgeKernel(c, k) })
		r.paths, r.complete = np, complete
		if !complete {
			r.add("unknown", "*", "paths", "", "-", "more than %d paths", np)
		}
		out = append(out, r)
	}
	return out
}

func (r *opResult) judgeKernel(c *kernelContract, k *kernelRun) {
	p := k.p
	p.stack = nil
	p.protect = true
	outs := map[string]bool{}
	for a := range k.outs {
		outs[a.own.name] = true
	}
	for _, e := range p.events {
		switch {
		case e.Kind == "kernel" && e.Extra == "ok":
			r.add("ok", "C16", "kernel operands long enough", e.Name, e.Pos, "")
		case e.Kind == "kernel" && strings.HasPrefix(e.Extra, "violated"):
			r.add("fail", "C16", "kernel operands long enough", e.Name, e.Pos, "%s", e.Extra)
		case e.Kind == "kernel":
			r.add("unknown", "C16", "kernel operands long enough", e.Name, e.Pos, "%s", e.Extra)
		case e.Kind == "bounds" && e.Extra == "ok":
			r.add("ok", "C16", "index in range", e.Fn, e.Pos, "")
		case e.Kind == "bounds":
			r.add(e.Extra, "C16", "index in range", e.Fn, e.Pos, "%s", e.Name)
		case e.Kind == "beyond":
			r.add("fail", "C16", "no element beyond the matrix", e.Name, e.Pos, "%s", e.Extra)
		case e.Kind == "write" && e.Phase == "run":
			o := e.Name[strings.Index(e.Name, ":")+1:]
			if outs[o] {
				r.add("ok", "C16", "kernels write their output only", o, e.Pos, "")
			} else {
				r.add("fail", "C16", "kernels write their output only", o, e.Pos, "%s writes its input %s", c.name, o)
			}
		}
	}
	if k.end != nil {
		switch k.end.kind {
		case "unsupported", "limit":
			r.add("unknown", "*", "construct", "", k.end.pos, "%s", k.end.msg)
		case "panic":
			if w, found, unk := p.witness(nil); found && !unk {
				r.add("fail", "C16", "kernels complete", "", k.end.pos, "%s ends in a panic (%s) although its operands are as long as they must be, for example with %s", c.name, k.end.msg, witnessText(w))
			} else {
				r.add("unknown", "C16", "kernels complete", "", k.end.pos, "%s", k.end.msg)
			}
		}
		return
	}
	r.done++
	r.add("ok", "C16", "kernels complete", "", "", "")
	r.judgeSpans(c, k, outs)
}

// spanKind says what a vector function does with its operands: elementwise
// ones compute element i of the result from elements i of the operands,
// reductions use every element.
func spanKind(name string) string {
	if !strings.HasPrefix(name, "matfuncs.") {
		return ""
	}
	switch strings.TrimRight(strings.TrimPrefix(name, "matfuncs."), "0123456789") {
	case "Sum", "DotProd":
		return "reduction"
	}
	return "elementwise"
}

// judgeSpans: the accesses of a path cover all the elements, and what is done
// to the elements after the vector code treated them is done to all of them.
func (r *opResult) judgeSpans(c *kernelContract, k *kernelRun, outs map[string]bool) {
	kind := spanKind(c.name)
	if kind == "" {
		return
	}
	p := k.p
	type acc struct {
		e      Event
		lo, hi *Poly
	}
	wrote, read := map[*Arr][]acc{}, map[*Arr][]acc{}
	for _, e := range p.events {
		if e.Phase != "run" || len(e.Args) != 3 {
			continue
		}
		a, ok := e.Args[0].(*Arr)
		if !ok {
			continue
		}
		x := acc{e, e.Args[1].(*Poly), e.Args[2].(*Poly)}
		switch e.Kind {
		case "wrote":
			wrote[a] = append(wrote[a], x)
		case "read":
			read[a] = append(read[a], x)
		}
	}
	var total *Poly
	for _, v := range k.args {
		if a := kArr(v); a != nil && total == nil {
			total = a.length
		}
	}
	cover := func(what, where string, a *Arr, set []acc, must []acc, msg string) {
		// every element of must (of the whole array if nil) is in one of set
		m := &smallModels{p: p, hi: 24}
		m.extra = []*Poly{total}
		for _, x := range append(append([]acc{}, set...), must...) {
			for _, q := range []*Poly{x.lo, x.hi} {
				for _, at := range m.deepAtoms(q) {
					if d, ok := p.defs[at]; !ok || d.op != 'k' {
						m.extra = append(m.extra, pAtom(at))
					}
				}
			}
		}
		unk, models := false, 0
		missing := int64(-1)
		fill := func(t map[int64]bool, l []acc) {
			for _, x := range l {
				_, known := m.each([]*Poly{x.lo, x.hi}, func() bool {
					lo, _ := m.eval(x.lo)
					hi, _ := m.eval(x.hi)
					for ; lo < hi && lo < 200; lo++ {
						t[lo] = true
					}
					return true
				})
				if !known {
					// no iteration at all is fine, an unknown range is not
					if _, ok := m.eval(x.lo); !ok && !m.emptyLoop(x.lo) {
						unk = true
					}
				}
			}
		}
		bad := m.search(func() bool {
			models++
			n, ok := m.eval(total)
			if !ok {
				unk = true
				return true
			}
			have, need := map[int64]bool{}, map[int64]bool{}
			fill(have, set)
			if must == nil {
				for i := int64(0); i < n; i++ {
					need[i] = true
				}
			} else {
				fill(need, must)
			}
			if unk {
				return true
			}
			for i := int64(0); i < n; i++ {
				if need[i] && !have[i] {
					missing = i
					return true
				}
			}
			return false
		})
		switch {
		case unk || m.gaveUp:
			r.add("unknown", "C17", what, a.own.name, where, "the accesses to %s are not bounded by known counters", a.own.name)
		case bad:
			r.add("fail", "C17", what, a.own.name, where, "%s %s, for example element %d with %s", c.name, msg, missing, witnessText(m.val))
		case models == 0:
			r.add("unknown", "C17", what, a.own.name, where, "no small instance of this path")
		default:
			r.add("ok", "C17", what, a.own.name, where, "")
		}
	}
	for _, v := range k.args {
		a := kArr(v)
		if a == nil {
			continue
		}
		if outs[a.own.name] {
			cover("every element computed", "", a, wrote[a], nil, "leaves elements of "+a.own.name+" uncomputed")
			var vec []acc
			bySite := map[string][]acc{}
			for _, x := range wrote[a] {
				if x.e.Name != "" && x.e.Name != "copy" {
					vec = append(vec, x)
				} else {
					bySite[x.e.Pos] = append(bySite[x.e.Pos], x)
				}
			}
			var sites []string
			for s := range bySite {
				sites = append(sites, s)
			}
			sort.Strings(sites)
			for _, s := range sites {
				if len(vec) == 0 || disjointSpans(p, a, bySite[s][0].lo, vec[0].lo, vec[0].hi) {
					continue
				}
				cover("corrections reach every element", s, a, bySite[s], vec, "corrects only some of the elements of "+a.own.name+" that the vector code computed")
			}
		} else {
			cover("every element used", "", a, read[a], nil, "does not use all the elements of "+a.own.name)
		}
	}
	if kind != "elementwise" {
		return
	}
	// element i of the result comes from elements i of the operands
	for _, v := range k.args {
		a := kArr(v)
		if a == nil || outs[a.own.name] {
			continue
		}
		for _, x := range read[a] {
			ok := false
			for _, o := range k.args {
				b := kArr(o)
				if b == nil || !outs[b.own.name] {
					continue
				}
				for _, w := range wrote[b] {
					if p.F.eqZero(pSub(w.lo, x.lo)) == 1 {
						ok = true
					}
				}
			}
			if ok {
				r.add("ok", "C17", "elements aligned", a.own.name, x.e.Pos, "")
				continue
			}
			// a test of an element that leads to no store here is none of our business
			if x.e.Name == "" {
				hit := false
				for _, o := range k.args {
					if b := kArr(o); b != nil && outs[b.own.name] {
						for _, w := range wrote[b] {
							if w.e.Name == "" && w.e.Fn == x.e.Fn {
								hit = true
							}
						}
					}
				}
				if !hit {
					continue
				}
			}
			r.add("fail", "C17", "elements aligned", a.own.name, x.e.Pos, "%s reads element %s of %s and stores no result element of that index", c.name, x.lo.key(), a.own.name)
		}
	}
}

// emptyLoop reports whether an index depends on a counter whose loop has no
// iteration under the current valuation.
func (m *smallModels) emptyLoop(q *Poly) bool {
	for _, a := range m.deepAtoms(q) {
		if d, ok := m.p.defs[a]; ok && d.op == 'k' {
			if n, ok := m.eval(d.a); ok && n <= 0 {
				return true
			}
		}
	}
	return false
}

func disjointSpans(p *Path, a *Arr, x, lo, hi *Poly) bool {
	m := &smallModels{p: p, hi: 24, counters: true}
	m.extra = []*Poly{x, lo, hi}
	return !m.search(func() bool {
		i, ok1 := m.eval(x)
		l, ok2 := m.eval(lo)
		h, ok3 := m.eval(hi)
		return ok1 && ok2 && ok3 && l <= i && i < h
	})
}

func debugKernels(P *Program, build string) {
	for _, r := range checkKernels(P, build) {
		fmt.Printf("%s paths=%d done=%d\n", r.unit, r.paths, r.done)
		seen := map[string]bool{}
		for _, f := range r.facts {
			if f.kind == "ok" {
				continue
			}
			s := fmt.Sprintf("   %s %s %s | %s | %s %s", f.kind, f.prop, f.rule, f.key, f.where, f.detail)
			if !seen[s] {
				fmt.Println(s)
			}
			seen[s] = true
		}
	}
}
