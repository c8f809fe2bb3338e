package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flags is a set of single words kept sorted in a string state.
func has(st, f string) bool {
	for _, x := range strings.Fields(st) {
		if x == f {
			return true
		}
	}
	return false
}
func with(st string, fs ...string) string {
	m := map[string]bool{}
	for _, x := range strings.Fields(st) {
		m[x] = true
	}
	for _, x := range fs {
		m[x] = true
	}
	return flagStr(m)
}
func without(st string, fs ...string) string {
	m := map[string]bool{}
	for _, x := range strings.Fields(st) {
		m[x] = true
	}
	for _, x := range fs {
		delete(m, x)
	}
	return flagStr(m)
}
func flagStr(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// agRoles are the parts an operator is made of, found by what they are used for.
type agRoles struct {
	F                       *Flow
	op                      *types.Named
	fn, value, pub, gradCh  *types.Var
	pending, state, reqGrad *types.Var
	backward                *ssa.Function
	run                     []*ssa.Function
	missing                 []string
	methods                 map[string]*ssa.Function
	guards                  map[*ssa.Global]bool
	exported                []*ssa.Function
}

const agPath = modPath + "/ag"

// reach walks the functions statically reachable from a function, following
// calls, go statements, deferred calls and closures passed on.
func (F *Flow) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil || !inModule(pkgOf(fn)) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

func findAgRoles(P *Program) *agRoles {
	R := &agRoles{F: newFlow(P), methods: map[string]*ssa.Function{}, guards: map[*ssa.Global]bool{}}
	pkg := P.ssaPkg(agPath)
	if pkg == nil {
		R.missing = append(R.missing, "package ag")
		return R
	}
	for _, m := range pkg.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			it, ok := s.Field(i).Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			has := map[string]bool{}
			for j := 0; j < it.NumMethods(); j++ {
				has[it.Method(j).Name()] = true
			}
			if has["Forward"] && has["Backward"] && has["Operands"] {
				R.op, R.fn = n, s.Field(i)
			}
		}
	}
	if R.op == nil {
		R.missing = append(R.missing, "the operator type")
		return R
	}
	ms := P.SSA.MethodSets.MethodSet(types.NewPointer(R.op))
	for i := 0; i < ms.Len(); i++ {
		fn := P.SSA.MethodValue(ms.At(i))
		if fn != nil && fn.Blocks != nil {
			R.methods[ms.At(i).Obj().Name()] = fn
			if ms.At(i).Obj().Exported() && fn.Synthetic == "" {
				R.exported = append(R.exported, fn)
			}
		}
	}
	R.backward, _ = pkg.Members["Backward"].(*ssa.Function)
	ours := map[*types.Var]bool{}
	st := R.op.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		ours[st.Field(i)] = true
	}
	each := func(roots []*ssa.Function, f func(fn *ssa.Function, e Ev)) {
		for fn := range R.F.reach(roots...) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, e := range R.F.events(ins) {
						f(fn, e)
					}
				}
			}
		}
	}
	each([]*ssa.Function{R.methods["Value"]}, func(fn *ssa.Function, e Ev) {
		if e.Kind == "recv" && ours[e.F] {
			R.pub = e.F
		}
		if e.Kind == "load" && ours[e.F] {
			if _, ok := e.F.Type().Underlying().(*types.Interface); ok && e.F != R.fn {
				R.value = e.F
			}
		}
	})
	each([]*ssa.Function{R.methods["Grad"]}, func(fn *ssa.Function, e Ev) {
		if e.Kind == "recv" && ours[e.F] && e.F != R.pub {
			R.gradCh = e.F
		}
	})
	each([]*ssa.Function{R.methods["AccGrad"], R.backward}, func(fn *ssa.Function, e Ev) {
		if e.Kind == "add" && ours[e.F] {
			R.pending = e.F
		}
		if e.Kind == "cas" && ours[e.F] {
			R.state = e.F
		}
	})
	each([]*ssa.Function{R.methods["RequiresGrad"]}, func(fn *ssa.Function, e Ev) {
		if (e.Kind == "store" || e.Kind == "astore") && ours[e.F] {
			if b, ok := e.F.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				R.reqGrad = e.F
			}
		}
	})
	// a counter which is never updated atomically is still the counter
	if R.pending == nil {
		for fn := range R.F.reach(R.methods["AccGrad"]) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if f := R.F.addrField(s.Addr); ours[f] && isIntT(f.Type()) && R.deltaOf(s) != 0 {
							R.pending = f
						}
					}
				}
			}
		}
	}
	for _, m := range R.exported {
		found := false
		each([]*ssa.Function{m}, func(fn *ssa.Function, e Ev) {
			if R.isForward(e) {
				found = true
			}
			if e.Kind == "send" {
				if g := globalOf(e.V); g != nil {
					R.guards[g] = true
				}
			}
		})
		if found {
			R.run = append(R.run, m)
		}
	}
	for _, x := range []struct {
		n  string
		ok bool
	}{{"the value field", R.value != nil}, {"the channel that announces the value", R.pub != nil}, {"the channel that announces the gradient", R.gradCh != nil}, {"the counter of pending gradients", R.pending != nil}, {"the backward state", R.state != nil}, {"Backward", R.backward != nil}, {"a method that runs the forward pass", len(R.run) > 0}, {"AccGrad", R.methods["AccGrad"] != nil}} {
		if !x.ok {
			R.missing = append(R.missing, x.n)
		}
	}
	return R
}

func globalOf(v ssa.Value) *ssa.Global {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func (R *agRoles) isForward(e Ev) bool {
	return e.Kind == "invoke" && e.M.Name() == "Forward" && e.F == R.fn
}
func (R *agRoles) isBackward(e Ev) bool {
	return e.Kind == "invoke" && e.M.Name() == "Backward" && e.F == R.fn
}

// deltaOf is k for a store "f = f + k".
func (R *agRoles) deltaOf(s *ssa.Store) int64 {
	b, ok := s.Val.(*ssa.BinOp)
	if !ok {
		return 0
	}
	k := constInt(b.Y)
	if k == nil || R.F.fieldOf(b.X) != R.F.addrField(s.Addr) {
		return 0
	}
	switch b.Op {
	case token.ADD:
		return *k
	case token.SUB:
		return -*k
	}
	return 0
}

// delta is the change an event makes to the pending counter.
func (R *agRoles) delta(e Ev) (int64, bool) {
	if e.F != R.pending {
		return 0, false
	}
	switch e.Kind {
	case "add":
		if e.A != nil {
			return *e.A, true
		}
		// a negative constant is passed as such; anything else is unknown
		return 0, true
	case "store":
		if s, ok := e.Ins.(*ssa.Store); ok {
			if d := R.deltaOf(s); d != 0 {
				return d, true
			}
		}
	}
	return 0, false
}

// condFact says what a branch establishes about a field: "state" or "pending"
// compared with a constant, or the outcome of a CAS or decrement.
type condFact struct {
	what string // state pending decremented cas require
	eq   bool   // equality (or success) holds
	k    int64
	k2   int64
}

func (R *agRoles) cond(c ssa.Value, taken bool, depth int) []condFact {
	if depth > 5 {
		return nil
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return R.cond(x.X, !taken, depth+1)
		}
	case *ssa.BinOp:
		l, r, op := x.X, x.Y, x.Op
		k := constInt(r)
		if k == nil {
			if k = constInt(l); k == nil {
				return nil
			}
			l = r
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		src := R.numSource(l, 0)
		if src == "" {
			return nil
		}
		if !taken {
			op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
		}
		switch op {
		case token.EQL:
			return []condFact{{what: src, eq: true, k: *k}}
		case token.NEQ:
			return []condFact{{what: src, eq: false, k: *k}}
		case token.LEQ:
			if *k == 0 {
				return []condFact{{what: src, eq: true, k: 0}}
			}
		case token.LSS:
			if *k == 1 {
				return []condFact{{what: src, eq: true, k: 0}}
			}
		case token.GTR:
			if *k == 0 {
				return []condFact{{what: src, eq: false, k: 0}}
			}
		case token.GEQ:
			if *k == 1 {
				return []condFact{{what: src, eq: false, k: 0}}
			}
		}
	case *ssa.Call:
		if evs := R.F.callEvents(x, x); len(evs) == 1 && evs[0].Kind == "cas" && evs[0].F == R.state && evs[0].A != nil && evs[0].B != nil {
			return []condFact{{what: "cas", eq: taken, k: *evs[0].A, k2: *evs[0].B}}
		}
		if x.Call.IsInvoke() {
			if x.Call.Method.Name() == "RequiresGrad" {
				return []condFact{{what: "operand requires", eq: taken}}
			}
			return nil
		}
		g := calleeOf(&x.Call)
		if g == nil {
			return nil
		}
		if g == R.methods["RequiresGrad"] {
			return []condFact{{what: "require", eq: taken}}
		}
		if g.Blocks == nil || !inModule(pkgOf(g)) {
			return nil
		}
		var out []condFact
		n := 0
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				n++
				out = R.cond(ret.Results[0], taken, depth+1)
			}
		}
		if n == 1 {
			return out
		}
	}
	return nil
}

func (R *agRoles) numSource(v ssa.Value, d int) string {
	if d > 4 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return R.numSource(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch R.F.addrField(x.X) {
			case R.state:
				return "state"
			case R.pending:
				return "pending"
			}
			if f := R.F.fieldOf(x); f != nil {
				if f == R.state {
					return "state"
				}
			}
		}
	case *ssa.Call:
		for _, e := range R.F.callEvents(x, x) {
			switch {
			case e.Kind == "aload" && e.F == R.state:
				return "state"
			case e.Kind == "aload" && e.F == R.pending:
				return "pending"
			case e.Kind == "add" && e.F == R.pending:
				return "decremented"
			}
		}
		if g := calleeOf(&x.Call); g != nil && g.Blocks != nil && inModule(pkgOf(g)) {
			s, n := "", 0
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					n++
					s = R.numSource(ret.Results[0], d+1)
				}
			}
			if n == 1 {
				return s
			}
		}
	}
	return ""
}

// ---- the value protocol ------------------------------------------------------

func (C *Context) agRoles() *agRoles {
	if C.ag == nil {
		C.ag = findAgRoles(C.prog(loadOpts{}))
	}
	return C.ag
}

func (R *agRoles) anchors(r *Report) bool {
	for _, m := range R.missing {
		r.Fail("anchors", "ag: "+m, "-", "cannot find %s of the automatic-differentiation package", m)
	}
	return len(R.missing) == 0
}

func checkPublish(C *Context, r *Report) {
	r.Rules = []string{
		"typestate of Run: channel made before the goroutine starts, value stored before the channel is closed, closed exactly once on every exit, no store afterwards",
		"typestate of every reader: the value field is loaded only after receiving from the channel or on a branch where the operator is synchronous",
		"typestate of the forward semaphore: taken before the goroutine's forward pass, given back exactly once on every exit",
	}
	R := C.agRoles()
	if !R.anchors(r) {
		return
	}
	F := R.F
	fail := map[string]bool{}
	bad := func(key string, ins ssa.Instruction, f string, a ...interface{}) {
		fail[key] = true
		where := "-"
		if ins != nil {
			where = F.P.pos(ins.Pos())
		}
		r.Fail("value protocol", key, where, f, a...)
	}
	visited := map[*ssa.Function]bool{}
	instrs := 0
	// 1. the running side
	for _, root := range R.run {
		name := shortFn(root)
		gos, closes, stores := 0, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		T := &Typestate{F: F}
		T.Step = func(fn *ssa.Function, e Ev, st string) []string {
			switch {
			case e.Kind == "store" && e.F == R.value:
				stores[e.Ins] = true
				if has(st, "closed") {
					bad(name+": value stored after it is announced", e.Ins, "%s: the value is stored after the channel that announces it was closed: a reader can see the value before it is set", T.trace())
				}
				return []string{with(st, "stored")}
			case e.Kind == "load" && e.F == R.value && !has(st, "stored"):
				if has(st, "made") {
					bad(name+": value read before it is computed", e.Ins, "%s: the value is read before the forward pass stored it", T.trace())
				}
			case e.Kind == "store" && e.F == R.pub:
				if has(st, "started") || has(st, "stored") {
					bad(name+": channel made too late", e.Ins, "%s: the channel that announces the value is replaced after the forward pass may have started: readers do not wait", T.trace())
				}
				if c, ok := e.V.(*ssa.Const); ok && c.IsNil() {
					return []string{without(st, "made")}
				}
				return []string{with(st, "made")}
			case e.Kind == "close" && e.F == R.pub:
				closes[e.Ins] = true
				if !has(st, "stored") {
					bad(name+": announced before the value is stored", e.Ins, "%s: the channel is closed on a path on which the value has not been stored yet: readers see no value", T.trace())
				}
				if has(st, "closed") {
					bad(name+": announced twice", e.Ins, "%s: the channel is closed twice on one path", T.trace())
				}
				return []string{with(st, "closed")}
			case R.isForward(e):
				if has(st, "goroutine") && len(R.guards) > 0 && !has(st, "slot") {
					bad(name+": forward pass outside the semaphore", e.Ins, "%s: the forward pass runs in a goroutine that holds no slot of the semaphore", T.trace())
				}
				if has(st, "computed") {
					bad(name+": forward pass computed twice", e.Ins, "%s: the forward pass of one operator is computed twice on one path", T.trace())
				}
				return []string{with(st, "computed")}
			case e.Kind == "send":
				if g := globalOf(e.V); g != nil && R.guards[g] {
					if has(st, "slot") {
						bad(name+": slot taken twice", e.Ins, "%s: a slot of the semaphore is taken twice on one path", T.trace())
					}
					return []string{with(st, "slot")}
				}
			case e.Kind == "recv":
				if g := globalOf(e.V); g != nil && R.guards[g] {
					if !has(st, "slot") {
						bad(name+": slot given back twice", e.Ins, "%s: a slot of the semaphore is given back that this operator does not hold", T.trace())
					}
					if has(st, "goroutine") && !has(st, "computed") {
						bad(name+": slot given back early", e.Ins, "%s: the slot of the semaphore is given back before the forward pass has run", T.trace())
					}
					return []string{without(st, "slot")}
				}
			case e.Kind == "go" || e.Kind == "wggo":
				gos++
				return []string{with(without(st, "slot"), "started")}
			}
			return []string{st}
		}
		T.Go = func(fn *ssa.Function, e Ev, st string) string { return "" }
		goFrom := func(fn *ssa.Function, e Ev, st string) string {
			if !has(st, "made") {
				bad(name+": goroutine without a channel", e.Ins, "%s: the forward pass is started in a goroutine although no channel announces its end", T.trace())
			}
			return with(without(st, "started"), "goroutine")
		}
		// the goroutine inherits the state before the go statement
		inner := T.Step
		var before string
		T.Step = func(fn *ssa.Function, e Ev, st string) []string {
			if e.Kind == "go" || e.Kind == "wggo" {
				before = st
			}
			return inner(fn, e, st)
		}
		T.Go = func(fn *ssa.Function, e Ev, st string) string { return goFrom(fn, e, before) }
		T.Edge = func(fn *ssa.Function, c ssa.Value, taken bool, st string) (string, bool) {
			if f, isNil, ok := F.nilTest(c, taken); ok && f == R.pub {
				return st, isNil == !has(st, "made")
			}
			return st, true
		}
		T.Exit = func(fn *ssa.Function, st string, at ssa.Instruction) {
			if at != nil { // the goroutine
				if has(st, "made") && !has(st, "closed") {
					bad(name+": value never announced", at, "the goroutine %s can end without closing the channel: whoever waits for the value blocks forever", shortFn(fn))
				}
				if has(st, "slot") {
					bad(name+": slot leaked", at, "the goroutine %s can end without giving its slot of the semaphore back: after enough operators every Run blocks", shortFn(fn))
				}
				return
			}
			switch {
			case has(st, "started"):
				if has(st, "slot") {
					bad(name+": slot leaked", nil, "%s can return holding a slot of the semaphore", name)
				}
			case has(st, "made") && !has(st, "closed"):
				bad(name+": value never announced", nil, "%s can return with a channel that nobody closes", name)
			case !has(st, "stored"):
				bad(name+": value never computed", nil, "%s can return without having computed the value or started its computation", name)
			case has(st, "slot"):
				bad(name+": slot leaked", nil, "%s can return holding a slot of the semaphore", name)
			}
		}
		T.Run(root, "")
		for f := range T.Visited {
			visited[f] = true
		}
		instrs += T.Instrs
		r.Require("stores of the value in "+name, len(stores), 1)
		r.Require("announcements of the value in "+name, len(closes), 1)
		r.Require("goroutines started by "+name, gos, 1)
		for _, k := range []string{"value stored after it is announced", "channel made too late", "announced before the value is stored", "announced twice", "value never announced", "value never computed", "slot leaked", "slot taken twice", "slot given back twice", "slot given back early", "forward pass outside the semaphore", "forward pass computed twice"} {
			if !fail[name+": "+k] {
				r.OK("value protocol", name+": no "+k)
			}
		}
	}
	// 2. the reading side
	reads := 0
	runs := map[*ssa.Function]bool{}
	for _, f := range R.run {
		runs[f] = true
	}
	for _, root := range F.roots(agPath) {
		if runs[root] {
			continue
		}
		T := &Typestate{F: F, Skip: func(g *ssa.Function) bool { return runs[g] }}
		nbad := 0
		T.Step = func(fn *ssa.Function, e Ev, st string) []string {
			switch {
			case e.Kind == "recv" && e.F == R.pub:
				return []string{with(st, "ready")}
			case e.Kind == "load" && e.F == R.value:
				reads++
				if !has(st, "ready") {
					nbad++
					bad(shortFn(fn)+": value read without waiting", e.Ins, "%s: the value of an operator is read on a path that neither waits for the forward pass nor knows the operator to be synchronous", T.trace())
				}
			case e.Kind == "store" && e.F == R.value:
				nbad++
				bad(shortFn(fn)+": value replaced", e.Ins, "%s: the value of an operator is replaced outside its forward pass", T.trace())
			case e.Kind == "close" && e.F == R.pub:
				nbad++
				bad(shortFn(fn)+": announced elsewhere", e.Ins, "%s: the channel that announces the value is closed outside the forward pass", T.trace())
			}
			return []string{st}
		}
		T.Isolate = R.isolate
		T.Go = func(fn *ssa.Function, e Ev, st string) string { return "goroutine" }
		T.Edge = func(fn *ssa.Function, c ssa.Value, taken bool, st string) (string, bool) {
			if f, isNil, ok := F.nilTest(c, taken); ok && f == R.pub && isNil {
				return with(st, "ready"), true
			}
			return st, true
		}
		T.Run(root, "")
		for f := range T.Visited {
			visited[f] = true
		}
		instrs += T.Instrs
		if nbad == 0 {
			r.OK("value read", shortFn(root))
		}
	}
	r.Require("reads of an operator's value", reads, 1)
	// 3. the semaphore is created with a capacity
	for g := range R.guards {
		n, ok := 0, true
		for _, fn := range F.fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, is := ins.(*ssa.Store); is && s.Addr == g {
						n++
						mc, isMake := s.Val.(*ssa.MakeChan)
						if !isMake {
							ok = false
						} else if k := constInt(mc.Size); k != nil && *k < 1 {
							ok = false
						}
					}
				}
			}
		}
		r.Check(n > 0 && ok, "semaphore capacity", g.Name(), F.P.pos(g.Pos()), "the semaphore %s of asynchronous forward passes is never created, or without capacity: the first asynchronous operator blocks", g.Name())
	}
	r.Count("functions analysed", len(visited))
	r.Count("instructions interpreted", instrs)
}

// isolate gives every operator other than the one a method runs on its own
// state.
func (R *agRoles) isolate(fn *ssa.Function, e Ev, st string) (string, bool) {
	if e.Kind != "call" || e.Fn == nil {
		return "", false
	}
	sig := e.Fn.Signature
	if sig.Recv() == nil || !R.isOp(sig.Recv().Type()) {
		return "", false
	}
	if R.sameReceiver(fn, e) {
		return "", false
	}
	return "", true
}

func (R *agRoles) isOp(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj() == R.op.Obj()
}

// sameReceiver: the callee's receiver is the receiver (or only operator) of fn.
func (R *agRoles) sameReceiver(fn *ssa.Function, e Ev) bool {
	v := e.V
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.FreeVar:
			b := R.F.binding(x)
			if b == nil {
				return false
			}
			v = b
			continue
		case *ssa.Alloc:
			// captured receiver
			var src ssa.Value
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					if src != nil {
						return false
					}
					src = s.Val
				}
			}
			if src == nil {
				return false
			}
			v = src
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
		}
		return false
	}
	return false
}

func init() {
	checks["C06"] = checkPublish
}
