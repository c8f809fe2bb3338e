package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// isErrReturn: the return gives a non-nil error.
func isErrReturn(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}
	l := ret.Results[len(ret.Results)-1]
	if l.Type().String() != "error" {
		return false
	}
	c, ok := l.(*ssa.Const)
	return !ok || !c.IsNil()
}

// gradEdges adds what a branch says about the operator to the state.
func (R *agRoles) gradEdge(c ssa.Value, taken bool, st string) string {
	if f, isNil, ok := R.F.nilTest(c, taken); ok && f == R.gradCh && isNil {
		st = with(st, "nochannel")
	}
	for _, cf := range R.cond(c, taken, 0) {
		switch {
		case cf.what == "state" && cf.eq && cf.k == 0:
			st = with(st, "idle")
		case cf.what == "pending" && cf.eq && cf.k == 0:
			st = with(st, "none")
		case cf.what == "decremented" && cf.k == 0:
			if cf.eq {
				st = with(st, "zero")
			} else {
				st = with(st, "more")
			}
		case cf.what == "require":
			if cf.eq {
				st = with(st, "requires")
			} else {
				st = with(st, "frozen")
			}
		case cf.what == "cas" && cf.k == 0 && cf.k2 != 0:
			if cf.eq {
				st = with(st, "first")
			} else {
				st = with(st, "again")
			}
		case cf.what == "cas" && cf.k != 0 && cf.k2 != 0:
			if cf.eq {
				st = with(st, "mine")
			} else {
				st = with(st, "theirs")
			}
		}
	}
	return st
}

func isTensorMethod(e Ev, name string) bool {
	if e.Kind != "invoke" || e.M.Name() != name {
		return false
	}
	return e.M.Pkg() != nil && inModule(e.M.Pkg())
}

// checkGradCounter: readers of a gradient wait for all contributions.
func checkGradCounter(C *Context, r *Report) {
	r.Rules = []string{
		"typestate of AccGrad: the gradient is added before the counter is decremented, the counter is decremented by one atomic operation per call unless the operator is idle, and its own result decides, exactly, whether the channel is closed",
		"typestate of every reader: the accumulated gradient is read only after waiting for the channel or on a branch where no gradient is pending",
		"effect rule: once goroutines may be running, the counter and the state of an operator are accessed only through atomic operations",
	}
	R := C.agRoles()
	if !R.anchors(r) {
		return
	}
	F := R.F
	fail := map[string]bool{}
	bad := func(key string, ins ssa.Instruction, f string, a ...interface{}) {
		fail[key] = true
		where := "-"
		if ins != nil {
			where = F.P.pos(ins.Pos())
		}
		r.Fail("gradient protocol", key, where, f, a...)
	}
	instrs := 0
	// 1. AccGrad
	acc := R.methods["AccGrad"]
	name := shortFn(acc)
	accs, decs, closes := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	T := &Typestate{F: F, Isolate: R.isolate}
	T.Step = func(fn *ssa.Function, e Ev, st string) []string {
		switch {
		case isTensorMethod(e, "AccGrad"):
			accs[e.Ins] = true
			if has(st, "added") {
				bad(name+": gradient added twice", e.Ins, "%s: the gradient is accumulated twice on one path", T.trace())
			}
			if has(st, "dec") {
				bad(name+": counted before it is added", e.Ins, "%s: the counter is decremented before the gradient is accumulated: a reader can see a partial sum", T.trace())
			}
			return []string{with(st, "added")}
		case e.F == R.pending && (e.Kind == "add" || e.Kind == "store"):
			d, _ := R.delta(e)
			decs[e.Ins] = true
			if e.Kind == "store" {
				bad(name+": counter not atomic", e.Ins, "%s: the counter of pending gradients is updated without an atomic operation although several goroutines deliver gradients at once", T.trace())
			}
			if d != -1 {
				bad(name+": counter changed by something else than one", e.Ins, "%s: the counter of pending gradients changes by %d", T.trace(), d)
			}
			if has(st, "dec") {
				bad(name+": counter decremented twice", e.Ins, "%s: the counter of pending gradients is decremented twice for one gradient", T.trace())
			}
			if !has(st, "added") {
				bad(name+": counted before it is added", e.Ins, "%s: the counter is decremented before the gradient is accumulated: a reader can see a partial sum", T.trace())
			}
			return []string{with(st, "dec")}
		case e.Kind == "close" && e.F == R.gradCh:
			closes[e.Ins] = true
			if !has(st, "zero") {
				bad(name+": announced without being last", e.Ins, "%s: the channel is closed on a path on which the decrement of this very call has not been found to reach zero", T.trace())
			}
			if has(st, "closed") {
				bad(name+": announced twice", e.Ins, "%s: the channel is closed twice", T.trace())
			}
			return []string{with(st, "closed")}
		case (e.Kind == "store" || e.Kind == "astore") && e.F == R.state:
			bad(name+": changes the state", e.Ins, "%s: accumulating a gradient changes the backward state", T.trace())
		}
		return []string{st}
	}
	T.Edge = func(fn *ssa.Function, c ssa.Value, taken bool, st string) (string, bool) {
		return R.gradEdge(c, taken, st), true
	}
	T.Exit = func(fn *ssa.Function, st string, at ssa.Instruction) {
		if fn != acc {
			return
		}
		switch {
		case !has(st, "added"):
			bad(name+": gradient dropped", nil, "%s can return without accumulating the gradient", name)
		case !has(st, "dec") && !has(st, "idle"):
			bad(name+": not counted", nil, "%s can return without counting the gradient although a backward pass is running: the operator waits forever", name)
		case has(st, "zero") && !has(st, "closed"):
			bad(name+": last gradient not announced", nil, "%s can return without closing the channel although the last pending gradient arrived: whoever waits for it blocks forever", name)
		case has(st, "dec") && !has(st, "zero") && !has(st, "more"):
			bad(name+": last gradient not noticed", nil, "%s decrements the counter on a path that does not test whether it reached zero", name)
		}
	}
	T.Run(acc, "")
	instrs += T.Instrs
	r.Require("accumulations in "+name, len(accs), 1)
	r.Require("decrements in "+name, len(decs), 1)
	r.Require("announcements in "+name, len(closes), 1)
	for _, k := range []string{"gradient added twice", "counted before it is added", "counter not atomic", "counter changed by something else than one", "counter decremented twice", "announced without being last", "announced twice", "gradient dropped", "not counted", "last gradient not announced", "last gradient not noticed"} {
		if !fail[name+": "+k] {
			r.OK("gradient protocol", name+": no "+k)
		}
	}
	// 2. readers: exported methods at any time, and everything after the
	// first goroutine of Backward has started
	reads := map[ssa.Instruction]bool{}
	plain, atomics := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	reader := func(root *ssa.Function, st0 string) {
		T := &Typestate{F: F}
		nbad := 0
		T.Step = func(fn *ssa.Function, e Ev, st string) []string {
			running := has(st, "running")
			switch {
			case e.Kind == "recv" && e.F == R.gradCh:
				return []string{with(st, "complete")}
			case isTensorMethod(e, "Grad"):
				// the gradient of this operator's own value
				if !R.ownValue(fn, e.V) {
					break
				}
				reads[e.Ins] = true
				if running && !has(st, "complete") && !has(st, "none") && !has(st, "idle") {
					nbad++
					bad(shortFn(fn)+": gradient read without waiting", e.Ins, "%s: the accumulated gradient is read on a path that neither waits for the pending gradients nor knows that there are none", T.trace())
				}
			case (e.Kind == "load" || e.Kind == "store") && (e.F == R.pending || e.F == R.state):
				plain[e.Ins] = true
				if running {
					nbad++
					bad(shortFn(fn)+": plain access to "+e.F.Name(), e.Ins, "%s: %s is accessed without an atomic operation while goroutines of the backward pass may be running", T.trace(), e.F.Name())
				}
			case e.F == R.pending || e.F == R.state:
				atomics[e.Ins] = true
			case e.Kind == "go" || e.Kind == "wggo":
				return []string{with(st, "running")}
			}
			return []string{st}
		}
		T.Go = func(fn *ssa.Function, e Ev, st string) string { return "running" }
		iso := R.isolate
		T.Isolate = func(fn *ssa.Function, e Ev, st string) (string, bool) {
			// other operators share only the fact that goroutines run; and a
			// callee may start them
			if _, ok := iso(fn, e, st); ok {
				if has(st, "running") || R.starts(e.Fn) {
					return "running", true
				}
				return "", true
			}
			return "", false
		}
		T.Edge = func(fn *ssa.Function, c ssa.Value, taken bool, st string) (string, bool) {
			return R.gradEdge(c, taken, st), true
		}
		T.Run(root, st0)
		instrs += T.Instrs
		if nbad == 0 {
			r.OK("gradient read", shortFn(root))
		}
	}
	for _, m := range R.exported {
		reader(m, "running")
	}
	reader(R.backward, "")
	r.Require("reads of an accumulated gradient", len(reads), 1)
	r.Require("atomic accesses to the counter and the state", len(atomics), 4)
	r.Count("plain accesses before the goroutines start", len(plain))
	r.Count("instructions interpreted", instrs)
}

// starts: the function may start goroutines.
func (R *agRoles) starts(fn *ssa.Function) bool {
	for g := range R.F.reach(fn) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					return true
				}
			}
		}
	}
	return false
}

// ownValue: v is the value of the operator the method runs on.
func (R *agRoles) ownValue(fn *ssa.Function, v ssa.Value) bool {
	if R.F.fieldOf(v) == R.value {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if g := calleeOf(&x.Call); g != nil {
			sig := g.Signature
			return sig.Recv() != nil && R.isOp(sig.Recv().Type()) && sig.Results().Len() == 1 && types.IsInterface(sig.Results().At(0).Type())
		}
	case *ssa.TypeAssert:
		return R.ownValue(fn, x.X)
	case *ssa.ChangeInterface:
		return R.ownValue(fn, x.X)
	}
	return false
}

// checkSchedule: the phases of Backward.
func checkSchedule(C *Context, r *Report) {
	r.Rules = []string{
		"order rule on the call graph of Backward: all counting precedes all output gradients, which precede all goroutines; every exit after a goroutine was started waits for it",
		"typestate per operator: counted once per use and only if it requires gradients, channel made exactly by the visit that turned the state from idle to pending, operands visited by exactly that visit",
		"typestate per operator: a goroutine is started exactly by the visit that turned the state from pending to ongoing, after the wait group was incremented",
		"typestate of the goroutine: the gradient is complete before it is propagated, the state returns to idle afterwards and before the wait group is released, on every exit",
		"typestate per output: its gradient is present and counted exactly once; errors are returned only before any operator was counted",
	}
	R := C.agRoles()
	if !R.anchors(r) {
		return
	}
	F := R.F
	fail := map[string]bool{}
	oblig := map[string]bool{}
	bad := func(key string, ins ssa.Instruction, f string, a ...interface{}) {
		fail[key] = true
		where := "-"
		if ins != nil {
			where = F.P.pos(ins.Pos())
		}
		r.Fail("backward schedule", key, where, f, a...)
	}
	incs, gos, outs, makes, backs := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	instrs := 0
	// 1. phases
	ph := &Typestate{F: F}
	ph.Step = func(fn *ssa.Function, e Ev, st string) []string {
		d, isD := R.delta(e)
		switch {
		case isD && d > 0:
			incs[e.Ins] = true
			if has(st, "outputs") {
				bad("Backward: counting after output gradients", e.Ins, "%s: an operator is counted after output gradients were assigned: the count includes gradients already delivered, or misses pending ones", ph.trace())
			}
			if has(st, "running") {
				bad("Backward: counting after goroutines started", e.Ins, "%s: an operator is counted after goroutines of the backward pass were started: its gradient can be taken for complete too early", ph.trace())
			}
			return []string{with(st, "counted")}
		case isD && d < 0, isTensorMethod(e, "AccGrad"):
			if !has(st, "goroutine") {
				outs[e.Ins] = true
				if has(st, "running") {
					bad("Backward: output gradients after goroutines started", e.Ins, "%s: an output gradient is assigned after goroutines of the backward pass were started", ph.trace())
				}
			}
			return []string{with(st, "outputs")}
		case e.Kind == "wgadd":
			if has(st, "goroutine") {
				bad("Backward: wait group incremented by the goroutine", e.Ins, "%s: the wait group is incremented inside the goroutine: Backward may return before it", ph.trace())
			}
			return []string{with(st, "announced")}
		case e.Kind == "go" || e.Kind == "wggo":
			gos[e.Ins] = true
			if e.Kind == "go" && !has(st, "announced") {
				bad("Backward: goroutine not announced", e.Ins, "%s: a goroutine is started without incrementing the wait group first", ph.trace())
			}
			return []string{with(without(st, "announced"), "running", "outstanding")}
		case e.Kind == "wait":
			return []string{without(st, "outstanding")}
		}
		return []string{st}
	}
	ph.Ret = func(fn *ssa.Function, ret *ssa.Return, st string) string {
		if fn == R.backward && isErrReturn(ret) && (has(st, "counted") || has(st, "outputs")) {
			bad("Backward: fails half way", ret, "Backward can return an error after operators were counted: they stay pending, and a later backward pass through them blocks forever")
		}
		return st
	}
	ph.Go = func(fn *ssa.Function, e Ev, st string) string { return "goroutine" }
	ph.Exit = func(fn *ssa.Function, st string, at ssa.Instruction) {
		if at == nil && has(st, "outstanding") {
			bad("Backward: returns before its goroutines", nil, "Backward can return without waiting for the goroutines it started")
		}
	}
	ph.Run(R.backward, "")
	instrs += ph.Instrs
	for _, k := range []string{"counting after output gradients", "counting after goroutines started", "output gradients after goroutines started", "wait group incremented by the goroutine", "goroutine not announced", "returns before its goroutines", "fails half way"} {
		if !fail["Backward: "+k] {
			r.OK("backward schedule", "Backward: no "+k)
		}
	}
	// 2. per operator
	visitsAfterFirst, visitsAfterMine := false, false
	op := &Typestate{F: F}
	op.Step = func(fn *ssa.Function, e Ev, st string) []string {
		d, isD := R.delta(e)
		n := shortFn(fn)
		switch {
		case isD && d > 0:
			oblig["count"] = true
			if d != 1 {
				bad(n+": counts more than one", e.Ins, "%s: one use of an operator is counted as %d gradients", op.trace(), d)
			}
			if !has(st, "requires") {
				bad(n+": counts frozen operators", e.Ins, "%s: an operator is counted on a path that has not found it to require gradients: nobody delivers that gradient and the pass blocks", op.trace())
			}
			if has(st, "counted") {
				bad(n+": counts twice", e.Ins, "%s: one use of an operator is counted twice", op.trace())
			}
			return []string{with(st, "counted")}
		case isD && d < 0:
			if has(st, "settled") {
				bad(n+": output counted twice", e.Ins, "%s: an output's gradient is counted twice", op.trace())
			}
			return []string{with(st, "settled")}
		case isTensorMethod(e, "AccGrad"):
			return []string{with(st, "seeded")}
		case e.Kind == "store" && e.F == R.gradCh:
			makes[e.Ins] = true
			if !has(st, "first") || has(st, "again") {
				bad(n+": channel replaced", e.Ins, "%s: the channel that announces the gradient is made by a visit that is not the first: waiters of the first one block forever", op.trace())
			}
			return []string{with(st, "channel")}
		case e.Kind == "go" || e.Kind == "wggo":
			if !has(st, "mine") || has(st, "theirs") {
				bad(n+": propagates more than once", e.Ins, "%s: the propagation of an operator is started by a visit that did not turn its state from pending to ongoing: it can be propagated twice", op.trace())
			}
			return []string{with(st, "started")}
		case R.isBackward(e):
			backs[e.Ins] = true
			if !has(st, "goroutine") {
				bad(n+": propagation outside its goroutine", e.Ins, "%s: the backward function is called outside the goroutine of its operator", op.trace())
			}
			if !has(st, "fetched") {
				bad(n+": propagates an incomplete gradient", e.Ins, "%s: the backward function is called before the accumulated gradient is complete", op.trace())
			}
			if has(st, "released") {
				bad(n+": propagates after release", e.Ins, "%s: the backward function runs after the operator was declared idle or done", op.trace())
			}
			if has(st, "propagated") {
				bad(n+": propagates twice", e.Ins, "%s: the backward function is called twice on one path", op.trace())
			}
			return []string{with(st, "propagated")}
		case isTensorMethod(e, "Grad") && R.ownValue(fn, e.V):
			if has(st, "complete") || has(st, "none") || has(st, "idle") || !has(st, "goroutine") {
				return []string{with(st, "fetched")}
			}
		case e.Kind == "recv" && e.F == R.gradCh:
			return []string{with(st, "complete")}
		case (e.Kind == "astore" || e.Kind == "store" || e.Kind == "swap") && e.F == R.state:
			k := e.A
			if e.Kind == "store" {
				k = constInt(e.V)
			}
			if e.Kind == "swap" {
				k = e.B
			}
			if k == nil || *k != 0 {
				bad(n+": state set to something else than idle", e.Ins, "%s: the backward state is overwritten", op.trace())
			}
			return []string{with(st, "released", "reset")}
		case e.Kind == "done":
			if has(st, "goroutine") && !has(st, "reset") {
				bad(n+": done before idle", e.Ins, "%s: the wait group is released before the operator is idle again: a following backward pass can skip the operator", op.trace())
			}
			if has(st, "done") {
				bad(n+": done twice", e.Ins, "%s: the wait group is released twice", op.trace())
			}
			return []string{with(st, "released", "done")}
		}
		return []string{st}
	}
	op.Edge = func(fn *ssa.Function, c ssa.Value, taken bool, st string) (string, bool) {
		return R.gradEdge(c, taken, st), true
	}
	op.Go = func(fn *ssa.Function, e Ev, st string) string { return "goroutine" }
	op.Isolate = func(fn *ssa.Function, e Ev, st string) (string, bool) {
		in, ok := R.isolate(fn, e, st)
		if !ok {
			return "", false
		}
		if has(st, "counted") {
			visitsAfterFirst = true
			if !has(st, "first") || has(st, "again") {
				bad(shortFn(fn)+": operands counted again", e.Ins, "%s: the operands of an operator are visited by a visit that is not the first: their gradients are counted more often than they are delivered", op.trace())
			}
		}
		if has(st, "started") {
			visitsAfterMine = true
		}
		return in, true
	}
	op.Ret = func(fn *ssa.Function, ret *ssa.Return, st string) string {
		if isErrReturn(ret) {
			return with(st, "failed")
		}
		return st
	}
	exits := func(fn *ssa.Function, st string, at ssa.Instruction) {
		n := shortFn(fn)
		if has(st, "goroutine") {
			if !has(st, "done") && R.usesWaitGroup(fn) {
				bad(n+": never done", at, "the goroutine %s can end without releasing the wait group: Backward blocks forever", n)
			}
			if !has(st, "reset") {
				bad(n+": never idle", at, "the goroutine %s can end without setting the operator idle: later backward passes skip it", n)
			}
			return
		}
		if has(st, "failed") {
			return
		}
		switch {
		case has(st, "counted") && !has(st, "first") && !has(st, "again"):
			bad(n+": not marked", at, "%s counts an operator without marking it as pending", n)
		case has(st, "first") && !has(st, "channel"):
			bad(n+": no channel", at, "%s marks an operator as pending without making the channel that announces its gradient", n)
		case (has(st, "first") || has(st, "again")) && !has(st, "counted"):
			bad(n+": not counted", at, "%s marks an operator as pending without counting the gradient", n)
		case has(st, "mine") && !has(st, "started"):
			bad(n+": not propagated", at, "%s marks an operator as ongoing without starting its propagation", n)
		}
		if R.settles(fn) && !has(st, "settled") && !has(st, "idle") {
			bad(n+": output without gradient", at, "%s can return without an error although the output got no gradient or it was not counted: the pass blocks forever", n)
		}
	}
	op.Exit = func(fn *ssa.Function, st string, at ssa.Instruction) {
		if at == nil {
			return // Backward itself
		}
		exits(fn, st, at)
	}
	op.Run(R.backward, "")
	instrs += op.Instrs
	r.Require("places that count a pending gradient", len(incs), 1)
	r.Require("places that settle an output's gradient", len(outs), 1)
	r.Require("places that start a propagation", len(gos), 1)
	r.Require("places that make the gradient channel", len(makes), 1)
	r.Require("calls of backward functions", len(backs), 1)
	r.Check(visitsAfterFirst, "backward schedule", "operands are counted", "-", "the visit that counts an operator never visits its operands: their gradients are not waited for")
	r.Check(visitsAfterMine, "backward schedule", "operands are propagated", "-", "the visit that starts a propagation never visits the operands: their gradients stop there")
	R.traversals(r)
	r.Rules = append(r.Rules, "loop rule: every loop through which Backward goes over outputs or operands walks the whole list, passing over only elements that are no operators or need no gradient")
	for _, k := range []string{"counts more than one", "counts frozen operators", "counts twice", "channel replaced", "operands counted again", "propagates more than once", "propagates an incomplete gradient", "propagates after release", "propagates twice", "done before idle", "never done", "never idle", "not marked", "no channel", "not propagated", "output without gradient"} {
		any := false
		for f := range fail {
			if len(f) > len(k) && f[len(f)-len(k):] == k {
				any = true
			}
		}
		if !any {
			r.OK("backward schedule", "no operator "+k)
		}
	}
	r.Count("instructions interpreted", instrs)
	r.Count("functions analysed", len(op.Visited))
}

// usesWaitGroup: the goroutine was started with an explicit wait group.
func (R *agRoles) usesWaitGroup(fn *ssa.Function) bool {
	for g := range R.F.reach(R.backward) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, e := range R.F.events(ins) {
					if e.Kind == "wggo" && e.Fn == fn {
						return false
					}
				}
			}
		}
	}
	return true
}

// settles: the function is the one that gives an output its gradient, i.e. it
// is called by Backward on an operator and reaches a decrement without going
// through a goroutine.
func (R *agRoles) settles(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Blocks == nil || !inModule(pkgOf(f)) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, e := range R.F.events(ins) {
					if d, ok := R.delta(e); ok && d < 0 {
						return true
					}
					if e.Kind == "call" && visit(e.Fn) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

func init() {
	checks["C07"] = checkGradCounter
	checks["C08"] = checkSchedule
}

// traversals: the loops through which Backward and its recursive phases go over
// outputs and operands leave none out.
func (R *agRoles) traversals(r *Report) {
	F := R.F
	reach := F.reach(R.backward)
	// functions that lead to a phase
	leads := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for fn := range reach {
			if leads[fn] || pkgOf(fn) == nil || pkgOf(fn).Path() != agPath {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, e := range F.events(ins) {
						_, isD := R.delta(e)
						if isD || e.Kind == "go" || e.Kind == "wggo" || e.Kind == "call" && leads[e.Fn] {
							leads[fn] = true
						}
					}
				}
			}
			changed = changed || leads[fn]
		}
	}
	loops := 0
	for _, fn := range sortedFns(reach) {
		if pkgOf(fn) == nil || pkgOf(fn).Path() != agPath {
			continue
		}
		ls := loopsOf(fn)
		for _, l := range ls {
			act := map[*ssa.BasicBlock]bool{}
			for b := range l.body {
				if innermost(ls, b) != l {
					continue
				}
				for _, ins := range b.Instrs {
					if c, ok := ins.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && R.holdsOps(c.Type()) {
							act[b] = true
						}
					}
					for _, e := range F.events(ins) {
						if e.Kind == "call" && leads[e.Fn] || e.Kind == "dyncall" {
							act[b] = true
						}
						if d, isD := R.delta(e); isD && d != 0 {
							act[b] = true
						}
					}
				}
			}
			if len(act) == 0 {
				continue
			}
			key := shortFn(fn) + ": every element is visited"
			where := F.P.pos(firstPos(l.head))
			c := countedLoop(l)
			if c == nil || c.over == nil {
				r.Unknown("backward schedule", key, where, "the loop is not a plain walk over a slice")
				continue
			}
			loops++
			if !c.exact {
				r.Fail("backward schedule", key, where, "the loop %s: some outputs or operands are left out of the backward pass", c.why)
				continue
			}
			if _, why := wholeSlice(c.over); why != "" {
				r.Fail("backward schedule", key, where, "the loop walks only a part of the list (%s): some outputs or operands are left out of the backward pass", why)
				continue
			}
			skip, early := l.skips(act)
			ok := true
			for _, s := range skip {
				if !R.mayskip(s.If.Cond, s.Taken) {
					ok = false
					r.Fail("backward schedule", key, F.P.pos(s.If.Cond.Pos()), "%s skips elements for another reason than not being an operator or not requiring gradients: their gradients are never counted or propagated", shortFn(fn))
				}
			}
			for _, s := range early {
				if !returnsError(s.Out) {
					ok = false
					r.Fail("backward schedule", key, F.P.pos(s.If.Cond.Pos()), "%s leaves the loop early: the remaining outputs or operands are left out of the backward pass", shortFn(fn))
				}
			}
			if ok {
				r.OK("backward schedule", key)
			}
		}
	}
	r.Count("loops over outputs and operands", loops)
}

func (R *agRoles) holdsOps(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && (R.isOp(s.Elem()) || s.Elem().String() == modPath+"/mat.Tensor")
}

// mayskip: an element may be passed over because it is not an operator, it does
// not require gradients, or its state says so (judged by the other rules).
func (R *agRoles) mayskip(c ssa.Value, taken bool) bool {
	c, taken = stripNot(c, taken)
	if ex, ok := c.(*ssa.Extract); ok {
		if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk {
			return !taken && R.isOp(ta.AssertedType)
		}
	}
	if b, ok := c.(*ssa.BinOp); ok { // comparison of an operator with nil
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if k, ok := p[1].(*ssa.Const); ok && k.IsNil() && R.isOp(p[0].Type()) {
				return true
			}
		}
	}
	for _, cf := range R.cond(c, taken, 0) {
		switch cf.what {
		case "require":
			if !cf.eq {
				return true
			}
		case "cas", "state":
			return true
		}
	}
	return false
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, x := range append([]*ssa.BasicBlock{b}, b.Succs...) {
		for _, i := range x.Instrs {
			if p := i.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}
