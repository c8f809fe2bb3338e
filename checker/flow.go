package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- field identity --------------------------------------------------------

// fieldVar is the struct field a FieldAddr selects.
func fieldVar(x *ssa.FieldAddr) *types.Var {
	t := x.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if s, ok := t.(*types.Struct); ok && x.Field < s.NumFields() {
		return s.Field(x.Field).Origin()
	}
	return nil
}

// Flow resolves values to fields and calls to functions in one program.
type Flow struct {
	P       *Program
	callers map[*ssa.Function][]ssa.CallInstruction
	uses    map[*ssa.Function]bool // address taken other than by a direct call
	fns     []*ssa.Function
}

func newFlow(P *Program) *Flow {
	F := &Flow{P: P, callers: map[*ssa.Function][]ssa.CallInstruction{}, uses: map[*ssa.Function]bool{}}
	for fn := range P.All() {
		if fn.Blocks == nil || !inModule(pkgOf(fn)) {
			continue
		}
		F.fns = append(F.fns, fn)
	}
	sort.Slice(F.fns, func(i, j int) bool {
		a, b := F.fns[i], F.fns[j]
		if an, bn := fnName(a), fnName(b); an != bn {
			return an < bn
		}
		return a.String() < b.String()
	})
	for _, fn := range F.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var direct ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := calleeOf(c.Common()); g != nil {
						F.callers[g] = append(F.callers[g], c)
					}
					direct = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != direct {
						F.uses[g] = true
					}
				}
			}
		}
	}
	return F
}

// calleeOf is the function a call statically reaches (closures included).
func calleeOf(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	}
	return nil
}

// resolveFn finds the single function a value denotes.
func resolveFn(v ssa.Value, depth int) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return resolveFn(x.X, depth)
	case *ssa.UnOp:
		// a local variable assigned once
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && depth < 3 {
			var src ssa.Value
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if src != nil {
						return nil
					}
					src = s.Val
				}
			}
			if src != nil {
				return resolveFn(src, depth+1)
			}
		}
	}
	return nil
}

// fieldOf traces a value back to the struct field it was loaded from (or, for
// addresses, the field it points at).
func (F *Flow) fieldOf(v ssa.Value) *types.Var { return F.fieldOfD(v, 0, map[ssa.Value]bool{}) }

func (F *Flow) fieldOfD(v ssa.Value, d int, seen map[ssa.Value]bool) *types.Var {
	if d > 12 || v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldVar(x)
	case *ssa.Field:
		if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return s.Field(x.Field).Origin()
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				var r *types.Var
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						g := F.fieldOfD(s.Val, d+1, seen)
						if g == nil || r != nil && r != g {
							return nil
						}
						r = g
					}
				}
				return r
			}
			return F.fieldOfD(x.X, d+1, seen)
		}
	case *ssa.ChangeType:
		return F.fieldOfD(x.X, d+1, seen)
	case *ssa.MakeInterface:
		return F.fieldOfD(x.X, d+1, seen)
	case *ssa.Phi:
		var r *types.Var
		for _, e := range x.Edges {
			g := F.fieldOfD(e, d+1, seen)
			if g == nil || r != nil && r != g {
				return nil
			}
			r = g
		}
		return r
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		var r *types.Var
		for _, c := range F.callers[fn] {
			args := c.Common().Args
			if idx >= len(args) {
				return nil
			}
			g := F.fieldOfD(args[idx], d+1, seen)
			if g == nil || r != nil && r != g {
				return nil
			}
			r = g
		}
		return r
	case *ssa.FreeVar:
		if b := F.binding(x); b != nil {
			return F.fieldOfD(b, d+1, seen)
		}
	case *ssa.Call:
		g := calleeOf(&x.Call)
		if g == nil || g.Blocks == nil || !inModule(pkgOf(g)) {
			return nil
		}
		var r *types.Var
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				h := F.fieldOfD(ret.Results[0], d+1, seen)
				if h == nil || r != nil && r != h {
					return nil
				}
				r = h
			}
		}
		return r
	}
	return nil
}

// binding is the value a closure captured for a free variable.
func (F *Flow) binding(x *ssa.FreeVar) ssa.Value {
	fn := x.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == x {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

// origin follows a value through captures, single assignments and parameters
// with one caller to where it was created.
func (F *Flow) origin(v ssa.Value) ssa.Value {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.FreeVar:
			b := F.binding(x)
			if b == nil {
				return v
			}
			v = b
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Parameter:
			idx := -1
			for i, p := range x.Parent().Params {
				if p == x {
					idx = i
				}
			}
			var src ssa.Value
			for _, c := range F.callers[x.Parent()] {
				if args := c.Common().Args; idx < len(args) {
					a := args[idx]
					if a == x { // recursion
						continue
					}
					if src != nil && src != a {
						return v
					}
					src = a
				}
			}
			if src == nil {
				return v
			}
			v = src
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			a := F.cellOf(x.X)
			if a == nil {
				return v
			}
			var src ssa.Value
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if src != nil {
						return v
					}
					src = s.Val
				}
			}
			if src == nil {
				return v
			}
			v = src
		default:
			return v
		}
	}
	return v
}

// ---- events ----------------------------------------------------------------

// Ev is one observable step of an instruction.
type Ev struct {
	Kind string     // load store make close send recv add cas aload astore lock unlock rlock runlock go wait done wgadd call invoke ret
	F    *types.Var // field concerned, if any
	V    ssa.Value  // object concerned (channel, mutex, wait group ...)
	A, B *int64     // constants (delta; old,new)
	Fn   *ssa.Function
	M    *types.Func
	Ins  ssa.Instruction
}

func constInt(v ssa.Value) *int64 {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		if i, ok := constant.Int64Val(c.Value); ok {
			return &i
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			i := int64(u)
			return &i
		}
	}
	return nil
}

// events lists what an instruction does, calls into the module excluded.
func (F *Flow) events(ins ssa.Instruction) []Ev {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if f := F.addrField(x.X); f != nil {
				return []Ev{{Kind: "load", F: f, V: x.X, Ins: ins}}
			}
			if g, ok := x.X.(*ssa.Global); ok {
				return []Ev{{Kind: "gload", V: g, Ins: ins}}
			}
			return []Ev{{Kind: "vload", V: x.X, Ins: ins}}
		}
		if x.Op == token.ARROW {
			return []Ev{{Kind: "recv", F: F.fieldOf(x.X), V: x.X, Ins: ins}}
		}
	case *ssa.Store:
		if f := F.addrField(x.Addr); f != nil {
			return []Ev{{Kind: "store", F: f, V: x.Val, Ins: ins}}
		}
		return []Ev{{Kind: "vstore", V: x.Addr, Ins: ins}}
	case *ssa.Alloc:
		return []Ev{{Kind: "alloc", V: x, Ins: ins}}
	case *ssa.Select:
		var out []Ev
		for _, st := range x.States {
			k := "selrecv"
			if st.Dir == types.SendOnly {
				k = "selsend"
			}
			out = append(out, Ev{Kind: k, F: F.fieldOf(st.Chan), V: st.Chan, Ins: ins})
		}
		return out
	case *ssa.Send:
		return []Ev{{Kind: "send", F: F.fieldOf(x.Chan), V: x.Chan, Ins: ins}}
	case *ssa.Go:
		return []Ev{{Kind: "go", Fn: resolveFn(x.Call.Value, 0), Ins: ins}}
	case *ssa.MapUpdate:
		return []Ev{{Kind: "mapwrite", F: F.fieldOf(x.Map), V: x.Map, Ins: ins}}
	case *ssa.Lookup:
		return []Ev{{Kind: "mapread", F: F.fieldOf(x.X), V: x.X, Ins: ins}}
	case *ssa.Range:
		return []Ev{{Kind: "mapread", F: F.fieldOf(x.X), V: x.X, Ins: ins}}
	case ssa.CallInstruction:
		return F.callEvents(x, ins)
	}
	return nil
}

// addrField is the field an address expression points at (possibly through
// parameters of helpers).
func (F *Flow) addrField(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldVar(x)
	case *ssa.Parameter, *ssa.FreeVar:
		if _, ok := v.Type().Underlying().(*types.Pointer); ok {
			return F.ptrField(v, 0)
		}
	}
	return nil
}

func (F *Flow) ptrField(v ssa.Value, d int) *types.Var {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldVar(x)
	case *ssa.FreeVar:
		if b := F.binding(x); b != nil {
			return F.ptrField(b, d+1)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		var r *types.Var
		for _, c := range F.callers[fn] {
			args := c.Common().Args
			if idx >= len(args) {
				return nil
			}
			g := F.ptrField(args[idx], d+1)
			if g == nil || r != nil && g != r {
				return nil
			}
			r = g
		}
		return r
	}
	return nil
}

func (F *Flow) callEvents(x ssa.CallInstruction, ins ssa.Instruction) []Ev {
	c := x.Common()
	if c.IsInvoke() {
		return []Ev{{Kind: "invoke", M: c.Method, V: c.Value, F: F.fieldOf(c.Value), Ins: ins}}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "close":
			return []Ev{{Kind: "close", F: F.fieldOf(c.Args[0]), V: c.Args[0], Ins: ins}}
		case "delete", "clear":
			return []Ev{{Kind: "mapwrite", F: F.fieldOf(c.Args[0]), V: c.Args[0], Ins: ins}}
		case "len":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				return []Ev{{Kind: "mapread", F: F.fieldOf(c.Args[0]), V: c.Args[0], Ins: ins}}
			}
		}
		return nil
	}
	fn := calleeOf(c)
	if fn == nil {
		if fn = resolveFn(c.Value, 0); fn != nil {
			return []Ev{{Kind: "call", Fn: fn, Ins: ins}}
		}
		return []Ev{{Kind: "dyncall", V: c.Value, Ins: ins}}
	}
	var a0 ssa.Value
	if len(c.Args) > 0 {
		a0 = c.Args[0]
	}
	n := extName(fn)
	ev := Ev{Fn: fn, V: a0, Ins: ins}
	if a0 != nil {
		ev.F = F.ptrField(a0, 0)
	}
	arg := func(i int) *int64 {
		if i < len(c.Args) {
			return constInt(c.Args[i])
		}
		return nil
	}
	atomicOp := ""
	if strings.HasPrefix(n, "sync/atomic.") {
		atomicOp = strings.TrimPrefix(n, "sync/atomic.")
	} else if strings.HasPrefix(n, "(*sync/atomic.") {
		atomicOp = n[strings.LastIndex(n, ".")+1:]
	}
	switch {
	case strings.HasPrefix(atomicOp, "Add"):
		ev.Kind, ev.A = "add", arg(1)
	case strings.HasPrefix(atomicOp, "Load"):
		ev.Kind = "aload"
	case strings.HasPrefix(atomicOp, "Store"):
		ev.Kind, ev.A = "astore", arg(1)
	case strings.HasPrefix(atomicOp, "CompareAndSwap"):
		ev.Kind, ev.A, ev.B = "cas", arg(1), arg(2)
	case strings.HasPrefix(atomicOp, "Swap"):
		ev.Kind, ev.B = "swap", arg(1)
	case n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock":
		ev.Kind = "lock"
	case n == "(*sync.Mutex).Unlock" || n == "(*sync.RWMutex).Unlock":
		ev.Kind = "unlock"
	case n == "(*sync.RWMutex).RLock":
		ev.Kind = "rlock"
	case n == "(*sync.RWMutex).RUnlock":
		ev.Kind = "runlock"
	case n == "(*sync.WaitGroup).Add":
		ev.Kind, ev.A = "wgadd", arg(1)
	case n == "(*sync.WaitGroup).Done":
		ev.Kind = "done"
	case n == "(*sync.WaitGroup).Wait":
		ev.Kind = "wait"
	case n == "(*sync.WaitGroup).Go":
		ev.Kind, ev.Fn = "wggo", resolveFn(c.Args[1], 0)
	case n == "(*sync.Once).Do":
		ev.Kind, ev.Fn = "once", resolveFn(c.Args[1], 0)
	case n == "log.Fatal" || n == "log.Fatalf" || n == "log.Fatalln" || n == "os.Exit" || n == "log.Panic" || n == "log.Panicf" || n == "runtime.Goexit":
		ev.Kind = "fatal"
	default:
		ev.Kind = "call"
	}
	return []Ev{ev}
}

// ---- typestate -------------------------------------------------------------

// Typestate is an interprocedural, path-collecting automaton over the events
// of a program. States are short strings.
type Typestate struct {
	F *Flow
	// Step gives the successor states of an event; nil ends the path.
	Step func(fn *ssa.Function, e Ev, st string) []string
	// Edge refines a state along a branch; ok=false means infeasible.
	Edge func(fn *ssa.Function, cond ssa.Value, taken bool, st string) (string, bool)
	// Go gives the initial state of a goroutine ("" = do not follow).
	Go func(fn *ssa.Function, e Ev, st string) string
	// Exit is called for each state a root or goroutine can end in.
	Exit func(root *ssa.Function, st string, at ssa.Instruction)
	// Skip makes a call opaque.
	Skip func(fn *ssa.Function) bool
	// Isolate gives the state an independent instance of the callee starts
	// in; the caller's state is kept. ok=false means inline.
	Isolate func(fn *ssa.Function, e Ev, st string) (string, bool)
	// Ret maps the state at a return.
	Ret     func(fn *ssa.Function, r *ssa.Return, st string) string
	memo    map[string]*tsMemo
	changed bool
	round   int
	spawned map[string]bool
	Visited map[*ssa.Function]bool
	Instrs  int
	stack   []*ssa.Function
}

type tsMemo struct {
	outs  map[string]bool
	round int
}

// Run analyses a root from a state, to a fixpoint.
func (T *Typestate) Run(root *ssa.Function, st string) {
	if T.memo == nil {
		T.memo = map[string]*tsMemo{}
		T.Visited = map[*ssa.Function]bool{}
	}
	for i := 0; i < 50; i++ {
		T.changed = false
		T.round++
		T.spawned = map[string]bool{}
		outs := T.function(root, st)
		for o := range outs {
			if T.Exit != nil {
				T.Exit(root, o, nil)
			}
		}
		if !T.changed {
			return
		}
	}
}

type tsNode struct {
	st     string
	conds  string // decided conditions "name=true;" and phi aliases "name>value;"
	defers []*ssa.Defer
}

func (n tsNode) key() string {
	s := n.st + "|" + n.conds + "|"
	for _, d := range n.defers {
		s += fmt.Sprintf("%p,", d)
	}
	return s
}

func (T *Typestate) function(fn *ssa.Function, st string) map[string]bool {
	if o := fn.Origin(); o != nil && fn.Blocks == nil {
		fn = o
	}
	key := fmt.Sprintf("%p|%s", fn, st)
	m := T.memo[key]
	if m == nil {
		m = &tsMemo{outs: map[string]bool{}}
		T.memo[key] = m
		T.changed = true
	}
	if m.round == T.round {
		return m.outs
	}
	m.round = T.round
	T.Visited[fn] = true
	T.stack = append(T.stack, fn)
	defer func() { T.stack = T.stack[:len(T.stack)-1] }()
	multi := map[ssa.Value]bool{}
	uses := map[ssa.Value]int{}
	for _, b := range fn.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c, _ := stripNot(i.Cond, true)
			uses[c]++
			if uses[c] > 1 {
				multi[c] = true
			}
		}
	}
	type item struct {
		b *ssa.BasicBlock
		n tsNode
	}
	seen := map[string]bool{}
	var work []item
	aliases := map[string]ssa.Value{}
	var from *ssa.BasicBlock
	push := func(b *ssa.BasicBlock, n tsNode) {
		// what the boolean phis of the block become on this edge
		if from != nil {
			for i, pr := range b.Preds {
				if pr != from {
					continue
				}
				for _, ins := range b.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if !isBoolT(ph.Type()) {
						continue
					}
					n.conds = dropCond(n.conds, ph.Name())
					e, pos := stripNot(ph.Edges[i], true)
					if k, ok := e.(*ssa.Const); ok && k.Value != nil {
						n.conds += fmt.Sprintf(";%s=%v;", ph.Name(), constant.BoolVal(k.Value) == pos)
					} else if strings.Contains(n.conds, ";"+e.Name()+"=") {
						n.conds += fmt.Sprintf(";%s=%v;", ph.Name(), strings.Contains(n.conds, fmt.Sprintf(";%s=%v;", e.Name(), pos)))
					} else {
						aliases[ph.Name()+">"+ph.Edges[i].Name()] = ph.Edges[i]
						n.conds += fmt.Sprintf(";%s>%s;", ph.Name(), ph.Edges[i].Name())
					}
				}
				break
			}
		}
		k := fmt.Sprintf("%d|%s", b.Index, n.key())
		if !seen[k] {
			seen[k] = true
			work = append(work, item{b, n})
		}
	}
	push(fn.Blocks[0], tsNode{st: st})
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		from = it.b
		cur := []tsNode{it.n}
		for _, ins := range it.b.Instrs {
			T.Instrs++
			var next []tsNode
			if v, ok := ins.(ssa.Value); ok && multi[v] {
				if _, isPhi := v.(*ssa.Phi); !isPhi {
					for i := range cur {
						cur[i].conds = dropCond(cur[i].conds, v.Name())
					}
				}
			}
			for _, n := range cur {
				next = append(next, T.instr(fn, ins, n)...)
			}
			// dedupe
			if len(next) > 1 {
				ks := map[string]bool{}
				j := 0
				for _, n := range next {
					if k := n.key(); !ks[k] {
						ks[k] = true
						next[j] = n
						j++
					}
				}
				next = next[:j]
			}
			cur = next
			if len(cur) == 0 {
				break
			}
		}
		if len(cur) == 0 {
			continue
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		switch x := last.(type) {
		case *ssa.Return:
			for _, n := range cur {
				o := n.st
				if T.Ret != nil {
					o = T.Ret(fn, x, o)
				}
				if !m.outs[o] {
					m.outs[o] = true
					T.changed = true
				}
			}
		case *ssa.If:
			for _, n := range cur {
				for si, s := range it.b.Succs {
					taken := si == 0
					c, pos := stripNot(x.Cond, taken)
					nn := n
					forced := false
					for depth := 0; depth < 4; depth++ {
						ph, isPhi := c.(*ssa.Phi)
						if !isPhi {
							break
						}
						if strings.Contains(nn.conds, fmt.Sprintf(";%s=%v;", c.Name(), !pos)) {
							forced = true
							break
						}
						al := aliases[aliasKey(nn.conds, ph.Name())]
						if al == nil {
							break
						}
						c, pos = stripNot(al, pos)
					}
					if forced {
						continue
					}
					if multi[c] {
						want := fmt.Sprintf(";%s=%v;", c.Name(), pos)
						anti := fmt.Sprintf(";%s=%v;", c.Name(), !pos)
						if strings.Contains(nn.conds, anti) {
							continue
						}
						if !strings.Contains(nn.conds, want) {
							nn.conds += want
						}
					}
					if k, ok := c.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != pos {
						continue
					}
					if T.Edge != nil {
						st2, ok := T.Edge(fn, c, pos, nn.st)
						if !ok {
							continue
						}
						nn.st = st2
					}
					push(s, nn)
				}
			}
		default:
			for _, n := range cur {
				for _, s := range it.b.Succs {
					push(s, n)
				}
			}
		}
	}
	return m.outs
}

// dropCond forgets what is known about a condition.
func dropCond(conds, name string) string {
	var out string
	for _, c := range strings.Split(conds, ";") {
		if c == "" || strings.HasPrefix(c, name+"=") || strings.HasPrefix(c, name+">") {
			continue
		}
		out += ";" + c + ";"
	}
	return out
}

func aliasKey(conds, name string) string {
	for _, c := range strings.Split(conds, ";") {
		if strings.HasPrefix(c, name+">") {
			return c
		}
	}
	return ""
}

func stripNot(c ssa.Value, taken bool) (ssa.Value, bool) {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return c, taken
		}
		c, taken = u.X, !taken
	}
}

func (T *Typestate) instr(fn *ssa.Function, ins ssa.Instruction, n tsNode) []tsNode {
	switch x := ins.(type) {
	case *ssa.Defer:
		for _, d := range n.defers {
			if d == x {
				return []tsNode{n}
			}
		}
		n.defers = append(append([]*ssa.Defer{}, n.defers...), x)
		return []tsNode{n}
	case *ssa.RunDefers:
		cur := []tsNode{n}
		for i := len(n.defers) - 1; i >= 0; i-- {
			var next []tsNode
			for _, c := range cur {
				for _, s := range T.doEvents(fn, T.F.callEvents(n.defers[i], n.defers[i]), c.st) {
					d := c
					d.st = s
					next = append(next, d)
				}
			}
			cur = next
		}
		for i := range cur {
			cur[i].defers = nil
		}
		return cur
	case *ssa.Panic:
		return nil
	}
	evs := T.F.events(ins)
	if len(evs) == 0 {
		return []tsNode{n}
	}
	var out []tsNode
	for _, s := range T.doEvents(fn, evs, n.st) {
		m := n
		m.st = s
		out = append(out, m)
	}
	return out
}

func (T *Typestate) doEvents(fn *ssa.Function, evs []Ev, st string) []string {
	cur := []string{st}
	for _, e := range evs {
		var next []string
		for _, s := range cur {
			next = append(next, T.doEvent(fn, e, s)...)
		}
		cur = next
	}
	return cur
}

func (T *Typestate) doEvent(fn *ssa.Function, e Ev, st string) []string {
	if e.Kind == "fatal" {
		return nil
	}
	outs := []string{st}
	if T.Step != nil {
		outs = T.Step(fn, e, st)
	}
	switch e.Kind {
	case "call", "once":
		g := e.Fn
		if g == nil || g.Blocks == nil && (g.Origin() == nil || g.Origin().Blocks == nil) || !inModule(pkgOf(g)) || T.Skip != nil && T.Skip(g) {
			return outs
		}
		if T.Isolate != nil {
			var rest []string
			iso := false
			for _, s := range outs {
				if in, ok := T.Isolate(fn, e, s); ok {
					iso = true
					for o := range T.function(g, in) {
						if T.Exit != nil {
							T.Exit(g, o, e.Ins)
						}
					}
					rest = append(rest, s)
				}
			}
			if iso {
				return rest
			}
		}
		var r []string
		for _, s := range outs {
			for o := range T.function(g, s) {
				r = append(r, o)
			}
		}
		sort.Strings(r)
		return r
	case "go", "wggo":
		if T.Go == nil || e.Fn == nil || e.Fn.Blocks == nil {
			return outs
		}
		for _, s := range outs {
			gs := T.Go(fn, e, s)
			if gs == "" {
				continue
			}
			k := fmt.Sprintf("%p|%s", e.Fn, gs)
			if T.spawned[k] {
				continue
			}
			T.spawned[k] = true
			for o := range T.function(e.Fn, gs) {
				if T.Exit != nil {
					T.Exit(e.Fn, o, e.Ins)
				}
			}
		}
	}
	return outs
}

// trace names the functions on the way to the current event.
func (T *Typestate) trace() string {
	var s []string
	for _, f := range T.stack {
		s = append(s, shortFn(f))
	}
	return strings.Join(s, " > ")
}

func shortFn(fn *ssa.Function) string { return fnName(fn) }

// roots are the functions of a package reachable from outside it: exported,
// address taken, or without callers in the module.
func (F *Flow) roots(path string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range F.fns {
		p := pkgOf(fn)
		if p == nil || p.Path() != path || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		if obj, ok := fn.Object().(*types.Func); ok {
			if obj.Exported() || F.uses[fn] || len(F.callers[fn]) == 0 {
				out = append(out, fn)
			}
		}
	}
	return out
}

// nilTest recognises "field == nil" / "field != nil"; isNil is the outcome.
func (F *Flow) nilTest(cond ssa.Value, taken bool) (f *types.Var, isNil bool, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB || b.Op != token.EQL && b.Op != token.NEQ {
		return
	}
	x, y := b.X, b.Y
	if c, isC := x.(*ssa.Const); isC && c.IsNil() {
		x, y = y, x
	}
	c, isC := y.(*ssa.Const)
	if !isC || !c.IsNil() {
		return
	}
	f = F.fieldOf(x)
	if f == nil {
		return
	}
	return f, (b.Op == token.EQL) == taken, true
}
