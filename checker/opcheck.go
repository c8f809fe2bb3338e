package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
)

// opFact is the condensed verdict of one path of one constructor.
type opFact struct {
	kind   string // ok, fail, unknown
	prop   string
	rule   string
	key    string
	where  string
	detail string
}

// opResult is everything the checks need to know about one constructor at one
// configuration.
type opResult struct {
	unit     string
	cfg      opConfig
	paths    int
	complete bool
	done     int
	rejected int
	panics   int    // paths that end in a panic
	skipped  int    // paths that cannot be taken
	panicked string // where and with what
	stages   map[string]int
	facts    []opFact
}

type opSuite struct {
	results []*opResult
	units   []string
	terms   bool
}

// runOps interprets every differentiable function in every configuration.
func runOps(P *Program, maxList int, terms bool) *opSuite {
	S := &opSuite{terms: terms}
	type job struct {
		u   *opUnit
		cfg opConfig
		at  int
	}
	var jobs []job
	for _, u := range findOps(P) {
		S.units = append(S.units, u.name)
		for _, cfg := range u.configs(maxList) {
			jobs = append(jobs, job{u, cfg, len(jobs)})
		}
	}
	S.results = make([]*opResult, len(jobs))
	// longest first
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].cfg.listLen > jobs[j].cfg.listLen })
	ch := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				I := NewInterp(P)
				I.terms = terms
				S.results[j.at] = safeOp(I, j.u, j.cfg)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return S
}

func safeOp(I *Interp, u *opUnit, cfg opConfig) (r *opResult) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("SPAGOVERIF_DEBUG") != "" {
				panic(e)
			}
			r = &opResult{unit: u.name, cfg: cfg, stages: map[string]int{"internal": 1}}
			r.facts = append(r.facts, opFact{"unknown", "*", "analysis", u.name, "-", fmt.Sprint(e)})
		}
	}()
	return checkOp(I, u, cfg)
}

func checkOp(I *Interp, u *opUnit, cfg opConfig) *opResult {
	var r *opResult
	reset := func() { r = &opResult{unit: u.name, cfg: cfg, stages: map[string]int{}} }
	reset()
	n, complete := I.runOp(u, cfg, reset, func(op *opPath) {
		k := op.stage
		if op.end != nil {
			k += ":" + op.end.kind
		}
		r.stages[k]++
		if I.terms {
			r.judgeDerivative(u, op)
			return
		}
		r.judge(u, op)
	})
	r.paths, r.complete = n, complete
	if !complete {
		r.add("unknown", "*", "paths", "", "-", "more than %d paths", n)
	}
	return r
}

func lastOpaque(p *Path) bool {
	if len(p.labels) == 0 {
		return false
	}
	l := p.labels[len(p.labels)-1]
	return strings.Contains(l, "fcmp")
}

func (r *opResult) add(kind, prop, rule, sub, where, f string, a ...interface{}) {
	key := r.unit
	if sub != "" {
		key += " " + sub
	}
	r.facts = append(r.facts, opFact{kind, prop, rule, key, where, fmt.Sprintf(f, a...)})
}

func (op *opPath) cond() string {
	l := op.p.labels
	if len(l) > 6 {
		l = l[len(l)-6:]
	}
	return strings.Join(l, "; ")
}

// plain drops list positions: xs[1] → xs[].
func plain(s string) string {
	for {
		i := strings.Index(s, "[")
		j := strings.Index(s, "]")
		if i < 0 || j < i {
			return s
		}
		if j == i+1 {
			return s
		}
		s = s[:i] + "[]" + s[j+1:]
		if strings.Count(s, "[]") == strings.Count(s, "[") {
			return s
		}
	}
}

// missing tells apart an operand of a list that goes without a gradient while
// another one of the list gets its own, and a list where none gets any.
func missing(p *Path, inputs map[string]*Operand, acc map[string][]Event, name string, n int) string {
	t := fmt.Sprintf(" (%d delivered", n)
	if plain(name) != name {
		others, frozen := false, false
		for o := range inputs {
			if o == name || plain(o) != plain(name) {
				continue
			}
			if len(acc[o]) > 0 {
				others = true
			} else if rg, asked := p.bools["rg:"+o]; asked && !rg {
				frozen = true
			}
		}
		switch {
		case others:
			t += ", another of the list has its own"
		case frozen:
			t += ", another of the list is frozen"
		default:
			t += ", none in the list"
		}
	}
	return t + ")"
}

// judge evaluates the gradient-contract rules on one path.
func (r *opResult) judge(u *opUnit, op *opPath) {
	p := op.p
	p.stack = nil
	p.protect = true
	ended := func() (string, bool) {
		// is this path really possible?
		w, found, unk := p.witness(nil)
		if !found {
			return "", false
		}
		last := ""
		if len(p.labels) > 0 {
			last = p.labels[len(p.labels)-1]
		}
		if unk || unknownAtom(last) && !strings.Contains(last, "fcmp") {
			return "", false
		}
		return witnessText(w), true
	}
	// storage writes (C05) are judged on every path, whatever its end
	for _, e := range p.events {
		if e.Kind != "write" || e.Phase == "post" {
			continue
		}
		r.judgeWrite(op, e)
	}
	for _, e := range p.events {
		if e.Kind == "bounds" && (e.Phase == "backward" || e.Phase == "forward") {
			if e.Extra == "ok" {
				r.add("ok", "C16", "index in range", e.Fn, e.Pos, "")
			} else {
				r.add(e.Extra, "C16", "index in range", e.Fn, e.Pos, "%s", e.Name)
			}
		}
		if e.Kind == "kernel" {
			if e.Extra == "ok" {
				r.add("ok", "C16", "kernel operands long enough", e.Name+" in "+e.Fn, e.Pos, "")
			} else if strings.HasPrefix(e.Extra, "violated") {
				r.add("fail", "C16", "kernel operands long enough", e.Name+" in "+e.Fn, e.Pos, "%s", e.Extra)
			} else {
				r.add("unknown", "C16", "kernel operands long enough", e.Name+" in "+e.Fn, e.Pos, "%s", e.Extra)
			}
		}
	}
	if op.end != nil {
		switch {
		case op.end.kind == "infeasible":
			return
		case op.end.kind == "unsupported" || op.end.kind == "limit":
			r.add("unknown", "*", "construct", op.stage, op.end.pos, "%s", op.end.msg)
			return
		case op.stage == "backward":
			if lastOpaque(p) && op.end.kind == "panic" {
				r.add("unknown", "C01", "backward completes", "", op.end.pos, "rejection that depends on element values: %s", op.end.msg)
				return
			}
			w, ok := ended()
			if !ok {
				r.add("unknown", "C01", "backward completes", "", op.end.pos, "%s under conditions the analysis cannot confirm (%s)", op.end.msg, op.cond())
				return
			}
			r.add("fail", "C01", "backward completes", "", op.end.pos, "the forward pass accepts the input, the backward pass ends in a %s: %s; for example with %s [path: %s]", op.end.kind, op.end.msg, w, op.cond())
			return
		default:
			r.rejected++
			return
		}
	}
	r.done++
	inputs := map[string]*Operand{}
	for _, o := range op.inputs {
		inputs[o.name] = o
	}
	occ := map[string]int{}
	for _, v := range op.operands {
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		if o, ok := v.(*Operand); ok {
			occ[o.name]++
		}
	}
	used := map[string]bool{}
	if op.unitY != nil && op.unitY.dep != nil {
		for k := range op.unitY.dep.m {
			used[k] = true
		}
	}
	acc := map[string][]Event{}
	for _, e := range p.events {
		if e.Kind != "acc" {
			continue
		}
		if e.Phase != "backward" {
			r.add("fail", "C01", "gradients only in backward", plain(e.Name), e.Pos, "a gradient is delivered to %s during the %s phase", e.Name, e.Phase)
			continue
		}
		acc[e.Name] = append(acc[e.Name], e)
	}
	if class := p.aliases(op.inputs); class != nil {
		r.judgeAliased(op, class, occ, acc, ended)
		return
	}
	for name := range inputs {
		sub := "operand " + plain(name)
		if occ[name] == 0 {
			if len(acc[name]) > 0 {
				r.add("fail", "C03", "operands declared", sub, acc[name][0].Pos, "%s receives a gradient but is not among the declared operands", name)
			} else if used[name] {
				r.add("fail", "C03", "operands declared", sub, "-", "the result depends on %s, which is not among the declared operands: no gradient can reach it", name)
			}
			continue
		}
		r.add("ok", "C03", "operands declared", sub, "", "")
		rg, asked := p.bools["rg:"+name]
		n := len(acc[name])
		switch {
		case asked && rg && n == occ[name]:
			r.add("ok", "C01", "one gradient per use", sub, "", "")
		case asked && rg && n < occ[name], !asked && n == 0:
			if w, ok := ended(); ok {
				r.add("fail", "C01", "one gradient per use", sub+missing(p, inputs, acc, name, n), "-", "%s requires a gradient and is used %d time(s), but backward delivers %d; for example with %s: whoever waits for its gradient never wakes up [path: %s]", name, occ[name], n, w, op.cond())
			} else {
				r.add("unknown", "C01", "one gradient per use", sub, "-", "path not confirmed feasible (%s)", op.cond())
			}
		case asked && rg && n > occ[name]:
			if w, ok := ended(); ok {
				r.add("fail", "C01", "one gradient per use", sub, acc[name][occ[name]].Pos, "%s is used %d time(s) but receives %d gradients; for example with %s", name, occ[name], n, w)
			} else {
				r.add("unknown", "C01", "one gradient per use", sub, "-", "path not confirmed feasible (%s)", op.cond())
			}
		}
		switch {
		case asked && !rg && n == 0:
			r.add("ok", "C02", "frozen operands untouched", sub, "", "")
		case asked && !rg && n > 0, !asked && n > 0:
			r.add("fail", "C02", "frozen operands untouched", sub, acc[name][0].Pos, "a gradient is accumulated into %s without it requiring one", name)
		}
	}
	// shapes and dimensions of the delivered gradients
	for name, es := range acc {
		for _, e := range es {
			sub := "operand " + plain(name)
			g, t, ok := op.accShape(e)
			if !ok {
				r.add("unknown", "C04", "gradient shape", sub, e.Pos, "shape not computed")
				continue
			}
			bad := false
			for i := 0; i < 2; i++ {
				d := pSub(g[i], t[i])
				if p.F.eqZero(d) == 1 {
					continue
				}
				w, found, unk := p.witness(d)
				if !found || unk {
					r.add("unknown", "C04", "gradient shape", sub, e.Pos, "%s×%s against %s×%s not decided", g[0].key(), g[1].key(), t[0].key(), t[1].key())
					bad = true
					break
				}
				kind := " (other size)"
				if p.F.eqZero(pSub(g[0], t[1])) == 1 && p.F.eqZero(pSub(g[1], t[0])) == 1 {
					kind = " (transposed)"
				} else if p.F.eqZero(pSub(pMul(g[0], g[1]), pMul(t[0], t[1]))) == 1 {
					kind = " (same size, other shape)"
				}
				r.add("fail", "C04", "gradient shape", sub+kind, e.Pos, "the gradient delivered to %s is %s×%s while the operand is %s×%s; for example with %s [path: %s]", name, p.F.norm(g[0]).key(), p.F.norm(g[1]).key(), t[0].key(), t[1].key(), witnessText(w), op.cond())
				bad = true
				break
			}
			if !bad {
				r.add("ok", "C04", "gradient shape", sub, "", "")
			}
			r.judgeUnits(op, e, sub)
		}
	}
	for _, e := range p.events {
		if e.Kind == "unit" && e.Phase == "backward" {
			r.add("fail", "C20", "dimension consistency", "in "+e.Fn, e.Pos, "backward combines quantities whose dimensions the forward pass does not relate: %s (%s)", e.Name, e.Extra)
		}
	}
	if op.yAlias != "" {
		r.add("fail", "C05", "result owns its storage", "", "-", "the result shares storage with operand %s", op.yAlias)
	} else {
		r.add("ok", "C05", "result owns its storage", "", "", "")
	}
}

// judgeUnits: the gradient of x must scale like gy·y/x.
func (r *opResult) judgeUnits(op *opPath, e Event, sub string) {
	p := op.p
	var x *Operand
	for _, o := range op.inputs {
		if o.name == e.Name {
			x = o
		}
	}
	defer func() {
		if rec := recover(); rec != nil {
			if _, is := rec.(endPath); !is {
				panic(rec)
			}
		}
	}()
	g := p.floatOf(e.Val)
	xu := p.floatOf(x.val)
	if g.poly || op.unitY.poly {
		r.add("unknown", "C20", "gradient dimension", sub, e.Pos, "the gradient is identically zero or dimension-free")
		return
	}
	want := uAdd(uAdd(op.unitGy, op.unitY.u, 1), xu.u, -1)
	d := p.U.norm(uAdd(g.u, want, -1))
	if len(d) == 0 {
		r.add("ok", "C20", "gradient dimension", sub, "", "")
		return
	}
	if !p.U.allRigid(d) {
		r.add("unknown", "C20", "gradient dimension", sub, e.Pos, "dimension of the gradient not determined (%s)", p.U.str(d))
		return
	}
	r.add("fail", "C20", "gradient dimension", sub, e.Pos, "the gradient of %s scales like %s, the chain rule requires %s (incoming gradient × output / operand)", e.Name, p.U.str(g.u), p.U.str(want))
}

func (r *opResult) judgeWrite(op *opPath, e Event) {
	// e.Name is the owner and storage description
	r.add("fail", "C05", "no foreign writes", e.Fn+" writes "+plain(e.Name), e.Pos, "during %s of %s: writes storage owned by %s (%s)", e.Phase, r.unit, e.Name, e.Stack)
}

func (s *opSuite) into(rep *Report, prop string) {
	paths, done, rejected, undecidedUnits := 0, 0, 0, map[string]bool{}
	decided := map[string]bool{}
	stages := map[string]int{}
	for _, r := range s.results {
		paths += r.paths
		done += r.done
		rejected += r.rejected
		for k, v := range r.stages {
			stages[k] += v
		}
		if r.done > 0 {
			decided[r.unit] = true
		}
		for _, f := range r.facts {
			if f.prop == "*" {
				undecidedUnits[r.unit] = true
				rep.Unknown(f.rule, f.key, f.where, "%s", f.detail)
				continue
			}
			if f.prop != prop {
				continue
			}
			switch f.kind {
			case "ok":
				rep.OK(f.rule, f.key)
			case "fail":
				rep.Fail(f.rule, f.key, f.where, "%s", f.detail)
			case "unknown":
				rep.Unknown(f.rule, f.key, f.where, "%s", f.detail)
			}
		}
	}
	rep.Count("differentiable functions found", len(s.units))
	rep.Count("configurations analysed", len(s.results))
	rep.Count("abstract paths", paths)
	rep.Count("paths through a full forward and backward pass", done)
	rep.Count("paths rejected by construction or forward", rejected)
	rep.Require("differentiable functions with a decided backward pass", len(decided), 55)
}

// aliases returns the representative of each input on a path that found some of
// them to be the same tensor; nil on other paths.
func (p *Path) aliases(in []*Operand) map[string]string {
	rep := map[string]string{}
	for _, o := range in {
		rep[o.name] = o.name
	}
	find := func(x string) string {
		for rep[x] != x && rep[x] != "" {
			x = rep[x]
		}
		return x
	}
	any := false
	for k, v := range p.bools {
		if v && strings.HasPrefix(k, "alias:") {
			n := strings.SplitN(k[6:], "=", 2)
			a, b := find(n[0]), find(n[1])
			if a > b {
				a, b = b, a
			}
			rep[b] = a
			any = true
		}
	}
	if !any {
		return nil
	}
	out := map[string]string{}
	for _, o := range in {
		out[o.name] = find(o.name)
	}
	for k, v := range p.bools { // a ≠ b, although the path says a = c and c = b
		if !v && strings.HasPrefix(k, "alias:") {
			n := strings.SplitN(k[6:], "=", 2)
			if out[n[0]] == out[n[1]] {
				return map[string]string{}
			}
		}
	}
	return out
}

// judgeAliased compares, for tensors used more than once, the declared uses
// with the gradients delivered, all its roles together.
func (r *opResult) judgeAliased(op *opPath, class map[string]string, occ map[string]int, acc map[string][]Event, ended func() (string, bool)) {
	p := op.p
	uses, got, rg, asked := map[string]int{}, map[string]int{}, map[string]bool{}, map[string]bool{}
	members := map[string][]string{}
	for n, c := range class {
		members[c] = append(members[c], n)
		uses[c] += occ[n]
		got[c] += len(acc[n])
		if v, ok := p.bools["rg:"+n]; ok {
			if asked[c] && rg[c] != v {
				return // the same tensor cannot both require a gradient and not
			}
			asked[c], rg[c] = true, v
		}
	}
	for c, ms := range members {
		if len(ms) < 2 {
			continue
		}
		sort.Strings(ms)
		sub := "operands " + plain(strings.Join(ms, " = "))
		if asked[c] && !rg[c] || got[c] == uses[c] {
			r.add("ok", "C01", "one gradient per use", sub, "", "")
			continue
		}
		if _, ok := ended(); !ok {
			r.add("unknown", "C01", "one gradient per use", sub, "-", "path not confirmed feasible")
			continue
		}
		for _, prop := range []string{"C01", "C03"} {
			r.add("fail", prop, "one gradient per use", sub, "-", "when one tensor is given as %s, it is declared %d time(s) but receives %d gradients [path: %s]", strings.Join(ms, " and "), uses[c], got[c], op.cond())
		}
	}
}
