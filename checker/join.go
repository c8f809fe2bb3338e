package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goSite is one go statement of the module.
type goSite struct {
	ins    ssa.Instruction
	in, fn *ssa.Function
	wg     ssa.Value           // wait group released at its end
	chans  map[ssa.Value]bool  // channels it closes at its end
	writes map[*ssa.Alloc]bool // captured variables it writes
	reads  map[*ssa.Alloc]bool // captured variables it reads
	sends  map[ssa.Value]bool  // channels it sends to
	locks  bool
}

// cellOf is the variable an address denotes, through captures.
func (F *Flow) cellOf(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			v = F.binding(x)
		default:
			return nil
		}
	}
	return nil
}

// closureBodies are a function and the closures it creates.
func closureBodies(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, closureBodies(a)...)
	}
	return out
}

func (F *Flow) goSites() []*goSite {
	var out []*goSite
	for _, fn := range F.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, e := range F.events(ins) {
					if e.Kind != "go" && e.Kind != "wggo" {
						continue
					}
					g := &goSite{ins: ins, in: fn, fn: e.Fn, chans: map[ssa.Value]bool{}, writes: map[*ssa.Alloc]bool{}, reads: map[*ssa.Alloc]bool{}, sends: map[ssa.Value]bool{}}
					if e.Kind == "wggo" {
						g.wg = F.origin(e.V)
					}
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func checkJoins(C *Context, r *Report) {
	r.Rules = []string{
		"typestate of every goroutine: on every exit it releases its wait group exactly once, or closes the channel its consumer ranges over",
		"typestate of every function that owns a wait group: incremented before each start, waited for on every path to a return after a start, incremented neither more nor less often than goroutines are started",
		"effect rule: a variable a goroutine writes is not touched by its starter before the wait, nor by another goroutine; a variable a goroutine reads is not written by its starter before the wait",
		"a channel goroutines send to is closed only after all of them have ended; a goroutine that feeds a channel can always be cancelled",
	}
	P := C.prog(loadOpts{})
	F := newFlow(P)
	R := C.agRoles()
	sites := F.goSites()
	r.Require("go statements", len(sites), 10)
	instrs := 0
	forwardRoots := map[*ssa.Function]bool{}
	for _, f := range R.run {
		for g := range R.F.reach(f) {
			forwardRoots[g] = true
		}
	}
	owners := map[*ssa.Alloc]*ssa.Function{}
	ownerSites := map[*ssa.Alloc][]*goSite{}
	for _, s := range sites {
		s := s
		name := shortFn(s.in)
		where := P.pos(s.ins.Pos())
		if s.fn == nil || s.fn.Blocks == nil {
			r.Unknown("goroutine", name+": unresolved go statement", where, "the function started by this go statement is not known")
			continue
		}
		// exits of the goroutine
		T := &Typestate{F: F}
		viol := 0
		bad := func(key, f string, a ...interface{}) {
			viol++
			r.Fail("goroutine", name+": "+key, where, f, a...)
		}
		publishes := false
		slots := map[string]bool{}
		T.Step = func(fn *ssa.Function, e Ev, st string) []string {
			if has(st, "done") {
				late := ""
				switch e.Kind {
				case "vstore":
					if _, own := e.V.(*ssa.Alloc); !own {
						late = "stores to shared memory"
					}
				case "store", "astore", "add", "cas", "swap":
					late = "stores to shared memory"
				case "invoke":
					if e.M.Pkg() != nil && inModule(e.M.Pkg()) {
						late = "calls " + e.M.Name()
					}
				case "dyncall":
					late = "calls a function"
				}
				if late != "" {
					bad("works after signalling its end", "%s: the goroutine %s after it has released its wait group: whoever waited runs on before the work is done", T.trace(), late)
				}
			}
			switch e.Kind {
			case "done":
				s.wg = F.origin(e.V)
				if has(st, "done") {
					bad("released twice", "%s: the goroutine releases its wait group twice on one path: the waiting function continues too early or panics", name)
				}
				return []string{with(st, "done")}
			case "close":
				if fv := F.origin(e.V); fv != nil {
					s.chans[fv] = true
				}
				if e.F != nil && e.F == R.pub {
					publishes = true
				}
				return []string{with(st, "closed")}
			case "send":
				if globalOf(e.V) == nil {
					s.sends[F.origin(e.V)] = true
				}
			case "selsend":
				s.sends[F.origin(e.V)] = true
			case "recv":
				k := fmt.Sprintf("rx%p", F.origin(e.V))
				for _, b := range s.in.Blocks {
					for _, ins := range b.Instrs {
						if snd, ok := ins.(*ssa.Send); ok && F.origin(snd.Chan) == F.origin(e.V) {
							slots[k] = true
						}
					}
				}
				return []string{with(st, k)}
			case "lock":
				s.locks = true
			case "store", "vstore":
			}
			if R.fn != nil && R.isForward(e) {
				publishes = true
			}
			return []string{st}
		}
		T.Edge = func(fn *ssa.Function, c ssa.Value, taken bool, st string) (string, bool) {
			if f, isNil, ok := F.nilTest(c, taken); ok && f.Name() == nameOf(R.pub) && isNil {
				return st, false // the goroutine exists only for asynchronous operators
			}
			return st, true
		}
		noSignal := false
		exits := []string{}
		T.Exit = func(fn *ssa.Function, st string, at ssa.Instruction) {
			exits = append(exits, st)
			if !has(st, "done") && !has(st, "closed") {
				noSignal = true
			}
		}
		T.Run(s.fn, "")
		instrs += T.Instrs
		if _, isWg := s.ins.(*ssa.Go); !isWg {
			noSignal = false // (*sync.WaitGroup).Go
		}
		for k := range slots {
			for _, st := range exits {
				if !has(st, k) {
					bad("slot leaked", "the goroutine %s gives a slot of a semaphore back on some exits but not on all: after enough of them the starter blocks forever", shortFn(s.fn))
					break
				}
			}
		}
		if noSignal {
			bad("end not signalled", "the goroutine %s can end without releasing a wait group or closing a channel: nobody can wait for it, and who does blocks forever", shortFn(s.fn))
		}
		// captured variables
		for _, body := range closureBodies(s.fn) {
			for _, b := range body.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if fv, ok := x.Addr.(*ssa.FreeVar); ok {
							if c := F.cellOf(fv); c != nil {
								s.writes[c] = true
							}
						}
					case *ssa.UnOp:
						if fv, ok := x.X.(*ssa.FreeVar); ok {
							if c := F.cellOf(fv); c != nil {
								s.reads[c] = true
							}
						}
					case *ssa.Send:
						// a bare send can block forever once the consumer stopped
						if _, isClosed := s.chans[F.origin(x.Chan)]; isClosed && globalOf(x.Chan) == nil {
							bad("feeder cannot be cancelled", "the goroutine %s feeds a channel with an unconditional send: it never ends if the consumer stops early", shortFn(s.fn))
						}
					case *ssa.Select:
						for _, stt := range x.States {
							if stt.Dir == 1 && s.chans[F.origin(stt.Chan)] && x.Blocking && len(x.States) < 2 {
								bad("feeder cannot be cancelled", "the goroutine %s feeds a channel with an unconditional send: it never ends if the consumer stops early", shortFn(s.fn))
							}
						}
					}
				}
			}
		}
		if viol == 0 {
			r.OK("goroutine", name+": "+shortFn(s.fn))
		}
		if a, ok := s.wg.(*ssa.Alloc); ok {
			owners[a] = a.Parent()
			ownerSites[a] = append(ownerSites[a], s)
		} else if s.wg != nil {
			r.Unknown("wait group", name+": owner", where, "the owner of the wait group is not known")
		} else if !publishes && len(s.chans) > 0 {
			// a feeder: the channel must be handed to the consumer
			r.OK("feeder", name)
		}
	}
	// owners of wait groups
	for a, root := range owners {
		a, root := a, root
		name := shortFn(root)
		ss := ownerSites[a]
		byIns := map[ssa.Instruction]*goSite{}
		idx := map[*goSite]int{}
		for i, s := range ss {
			byIns[s.ins] = s
			idx[s] = i
		}
		viol := 0
		bad := func(key string, ins ssa.Instruction, f string, x ...interface{}) {
			viol++
			w := P.pos(a.Pos())
			if ins != nil {
				w = P.pos(ins.Pos())
			}
			r.Fail("wait group", name+": "+key, w, f, x...)
		}
		ann := func(st string) int {
			n := 0
			for i := 1; i <= 4; i++ {
				if has(st, fmt.Sprintf("ann%d", i)) {
					n = i
				}
			}
			return n
		}
		setAnn := func(st string, n int) string {
			st = without(st, "ann1", "ann2", "ann3", "ann4")
			if n > 4 {
				n = 4
			}
			if n > 0 {
				st = with(st, fmt.Sprintf("ann%d", n))
			}
			return st
		}
		// goroutines of a site whose instances can coexist
		T := &Typestate{F: F}
		waits := 0
		T.Step = func(fn *ssa.Function, e Ev, st string) []string {
			switch e.Kind {
			case "wgadd":
				if F.origin(e.V) == a {
					if e.A == nil {
						return []string{with(st, "annany")}
					}
					if has(st, "goroutine") {
						bad("incremented by the goroutine", e.Ins, "the wait group is incremented inside the goroutine it stands for: the wait can end before the goroutine starts")
					}
					return []string{setAnn(st, ann(st)+int(*e.A))}
				}
			case "go", "wggo":
				s := byIns[e.Ins]
				if s == nil {
					break
				}
				if e.Kind == "go" {
					if n := ann(st); n > 0 {
						st = setAnn(st, n-1)
					} else if !has(st, "annany") {
						bad("not incremented", e.Ins, "%s: a goroutine is started before the wait group was incremented for it", name)
					}
				}
				f := fmt.Sprintf("out%d", idx[s])
				// other live goroutines and shared variables
				for t, i := range idx {
					live := has(st, fmt.Sprintf("out%d", i))
					if !live || s.locks && t.locks {
						continue
					}
					for c := range s.writes {
						if t == s && !has(st, fmt.Sprintf("cell:%p", c)) {
							continue // made anew for every instance
						}
						if t.writes[c] || t.reads[c] {
							bad("shared variable "+c.Comment, e.Ins, "%s: two goroutines that run at the same time access the variable %s, and one of them writes it", name, c.Comment)
						}
					}
				}
				st = with(st, f)
				for c := range s.writes {
					st = with(st, fmt.Sprintf("cell:%p", c), fmt.Sprintf("wr:%p", c))
				}
				for c := range s.reads {
					st = with(st, fmt.Sprintf("cell:%p", c))
				}
				return []string{st}
			case "wait":
				if F.origin(e.V) == a && !has(st, "goroutine") {
					waits++
					if ann(st) > 0 {
						bad("incremented too often", e.Ins, "%s: the wait group is incremented for more goroutines than are started: the wait never ends", name)
					}
					return []string{""}
				}
			case "alloc":
				if c, ok := e.V.(*ssa.Alloc); ok {
					return []string{without(st, fmt.Sprintf("cell:%p", c), fmt.Sprintf("wr:%p", c))}
				}
			case "vload":
				if c, ok := e.V.(*ssa.Alloc); ok && !has(st, "goroutine") && has(st, fmt.Sprintf("wr:%p", c)) {
					bad("variable "+c.Comment+" read early", e.Ins, "%s: the variable %s is read while a goroutine that writes it may still be running", name, c.Comment)
				}
			case "vstore":
				if c, ok := e.V.(*ssa.Alloc); ok && !has(st, "goroutine") && has(st, fmt.Sprintf("cell:%p", c)) {
					bad("variable "+c.Comment+" written early", e.Ins, "%s: the variable %s is written while a goroutine that uses it may still be running", name, c.Comment)
				}
			case "close":
				ch := F.origin(e.V)
				for _, s := range ss {
					if s.sends[ch] && has(st, fmt.Sprintf("out%d", idx[s])) && !has(st, "goroutine") {
						bad("channel closed under its senders", e.Ins, "%s: a channel is closed while goroutines that send to it may still be running: the send panics or the message is lost", name)
					}
				}
			}
			return []string{st}
		}
		T.Go = func(fn *ssa.Function, e Ev, st string) string { return "goroutine" }
		T.Exit = func(fn *ssa.Function, st string, at ssa.Instruction) {
			if at != nil {
				return
			}
			if strings.Contains(st, "out") {
				bad("not waited for", nil, "%s can return while goroutines it started may still be running: their effects are missing or happen later", name)
			}
		}
		T.Run(root, "")
		instrs += T.Instrs
		if waits == 0 {
			bad("never waited for", nil, "%s never waits for the goroutines it starts", name)
		}
		if viol == 0 {
			r.OK("wait group", name)
		}
	}
	r.Require("functions that own a wait group", len(owners), 6)
	r.Count("instructions interpreted", instrs)
}

func nameOf(v interface{ Name() string }) string {
	if v == nil {
		return ""
	}
	return v.Name()
}

func init() {
	checks["C09"] = checkJoins
}
