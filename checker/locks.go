package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guarded lists the storage each mutex of the module protects (confirmed by
// reading the code): package, type, mutex field, fields.
var guarded = []struct {
	pkg, typ, mu string
	fields       []string
	why          string
}{
	{"mat", "Dense", "gradMu", []string{"grad"}, "gradients are accumulated by concurrent backward functions"},
	{"nn/embedding", "Model", "mu", []string{"embedGradIdx"}, "embeddings of one model receive gradients concurrently"},
	{"mat/rand", "LockedRand", "lk", []string{"r"}, "the generator is shared by concurrent forward passes"},
	{"mat/internal/rand", "LockedSource", "lk", []string{"src"}, "the source of the global generator"},
}

func checkLocks(C *Context, r *Report) {
	r.Rules = []string{
		"lock-set analysis: every access to guarded storage happens while its mutex is held (exclusively for writes), except on objects the function has just made",
		"every mutex taken is released on every exit, never taken twice on one path, and nothing that can block is done while it is held",
		"the table of embeddings with gradients and the gradients themselves change in one critical section",
		"the order in which mutexes are nested is free of cycles",
	}
	P := C.prog(loadOpts{})
	F := newFlow(P)
	guardOf := map[*types.Var]*types.Var{}
	muName := map[*types.Var]string{}
	pkgs := map[string]bool{}
	accesses := map[*types.Var]int{}
	for _, g := range guarded {
		p := P.By[modPath+"/"+g.pkg]
		if p == nil {
			r.Fail("anchors", g.pkg, "-", "package %s not found", g.pkg)
			continue
		}
		o, _ := p.Types.Scope().Lookup(g.typ).(*types.TypeName)
		var st *types.Struct
		if o != nil {
			st, _ = o.Type().Underlying().(*types.Struct)
		}
		if st == nil {
			r.Fail("anchors", g.pkg+"."+g.typ, "-", "type %s.%s not found", g.pkg, g.typ)
			continue
		}
		var mu *types.Var
		fs := map[string]*types.Var{}
		var mus []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fs[f.Name()] = f
			if t := f.Type().String(); t == "sync.Mutex" || t == "sync.RWMutex" || t == "*sync.Mutex" || t == "*sync.RWMutex" {
				mus = append(mus, f)
			}
		}
		mu = fs[g.mu]
		if mu == nil && len(mus) == 1 {
			mu = mus[0]
		}
		if mu == nil {
			r.Fail("guard exists", g.pkg+"."+g.typ, "-", "%s.%s has no mutex although %s", g.pkg, g.typ, g.why)
			continue
		}
		muName[mu] = g.typ + "." + mu.Name()
		for _, n := range g.fields {
			if fs[n] == nil {
				r.Unknown("anchors", g.pkg+"."+g.typ+"."+n, "-", "the guarded field was renamed or removed")
				continue
			}
			guardOf[fs[n]] = mu
		}
		pkgs[p.PkgPath] = true
	}
	// embedded promoted access goes through the same fields; every package of
	// the module is searched for accesses
	order := map[string]map[string]string{}
	coupledMu, coupled := "", 0
	for m, n := range muName {
		if m.Pkg() != nil && m.Pkg().Path() == embPath {
			coupledMu = n
		}
	}
	instrs := 0
	roots := 0
	for _, pk := range P.Pkgs {
		for _, root := range F.roots(pk.PkgPath) {
			touches := false
			for fn := range F.reach(root) {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						if fa, ok := ins.(*ssa.FieldAddr); ok {
							f := fieldVar(fa)
							if guardOf[f] != nil || muName[f] != "" {
								touches = true
							}
						}
					}
				}
			}
			if !touches {
				continue
			}
			roots++
			viol := 0
			T := &Typestate{F: F}
			bad := func(key string, ins ssa.Instruction, f string, a ...interface{}) {
				viol++
				w := "-"
				if ins != nil {
					w = P.pos(ins.Pos())
				}
				r.Fail("lock discipline", key, w, f, a...)
			}
			T.Step = func(fn *ssa.Function, e Ev, st string) []string {
				n := shortFn(fn)
				if coupledCall(fn, e) {
					coupled++
					if coupledMu != "" && !has(st, "W:"+coupledMu) {
						bad(n+": gradient changed apart from the table", e.Ins, "%s: the gradient of an embedding is changed without holding %s: the table of embeddings with gradients and the gradients themselves part", T.trace(), coupledMu)
					}
					return []string{with(st, "c:grad")}
				}
				switch e.Kind {
				case "lock", "rlock":
					m := muName[e.F]
					if m == "" {
						break
					}
					if has(st, "W:"+m) || has(st, "R:"+m) {
						bad(n+": "+m+" taken twice", e.Ins, "%s: the mutex %s is taken while it is already held: the goroutine blocks itself", T.trace(), m)
					}
					for _, h := range strings.Fields(st) {
						if len(h) > 2 && (h[:2] == "W:" || h[:2] == "R:") {
							if order[h[2:]] == nil {
								order[h[2:]] = map[string]string{}
							}
							order[h[2:]][m] = P.pos(e.Ins.Pos())
						}
					}
					for _, h := range strings.Fields(st) {
						if strings.HasPrefix(h, "rd:") {
							st = with(without(st, h), "old:"+h[3:])
						}
					}
					if e.Kind == "lock" {
						return []string{with(st, "W:"+m)}
					}
					return []string{with(st, "R:"+m)}
				case "unlock", "runlock":
					m := muName[e.F]
					if m == "" {
						break
					}
					k := "W:" + m
					if e.Kind == "runlock" {
						k = "R:" + m
					}
					if !has(st, k) {
						bad(n+": "+m+" released without being held", e.Ins, "%s: the mutex %s is released on a path that does not hold it this way", T.trace(), m)
					}
					if m == coupledMu {
						if has(st, "c:grad") != has(st, "c:table") && !has(st, "c:asked") {
							what := "the gradient of an embedding changes but the table of embeddings with gradients does not"
							if has(st, "c:table") {
								what = "the table of embeddings with gradients changes but the gradient does not"
							}
							bad(n+": gradient and table change apart", e.Ins, "%s: while %s is held once, %s", T.trace(), m, what)
						}
						st = without(without(without(st, "c:grad"), "c:table"), "c:asked")
					}
					return []string{without(st, k)}
				case "recv", "send", "wait":
					for _, h := range strings.Fields(st) {
						if strings.HasPrefix(h, "W:") || strings.HasPrefix(h, "R:") {
							bad(n+": blocks under "+h[2:], e.Ins, "%s: waits for another goroutine while holding %s", T.trace(), h[2:])
						}
					}
				case "load", "store", "mapread", "mapwrite":
					mu := guardOf[e.F]
					if mu == nil {
						break
					}
					if fresh(e) {
						break
					}
					accesses[mu]++
					m := muName[mu]
					if m == coupledMu {
						switch e.Kind {
						case "mapread":
							st = with(st, "c:asked")
						case "mapwrite", "store":
							st = with(st, "c:table")
						}
					}
					write := e.Kind == "store" || e.Kind == "mapwrite"
					if has(st, "W:"+m) || !write && has(st, "R:"+m) {
						k := fmt.Sprintf("%s.%s", m, e.F.Name())
						if !write {
							return []string{with(st, "rd:"+k)}
						}
						if has(st, "old:"+k) && !has(st, "rd:"+k) {
							bad(fmt.Sprintf("%s: %s written on a stale test", n, e.F.Name()), e.Ins, "%s: %s is written under %s, but what was read of it was read under an earlier lock: another goroutine can have changed it in between", T.trace(), e.F.Name(), m)
						}
						break
					}
					how := "read"
					if write {
						how = "written"
					}
					bad(fmt.Sprintf("%s: %s %s without %s", n, e.F.Name(), how, m), e.Ins, "%s: %s is %s on a path that does not hold %s", T.trace(), e.F.Name(), how, m)
				}
				return []string{st}
			}
			T.Go = func(fn *ssa.Function, e Ev, st string) string { return "goroutine" }
			T.Exit = func(fn *ssa.Function, st string, at ssa.Instruction) {
				for _, h := range strings.Fields(st) {
					if strings.HasPrefix(h, "W:") || strings.HasPrefix(h, "R:") {
						bad(shortFn(root)+": "+h[2:]+" not released", nil, "%s can return while holding %s", shortFn(root), h[2:])
					}
				}
			}
			T.Run(root, "")
			instrs += T.Instrs
			if viol == 0 {
				r.OK("lock discipline", shortFn(root))
			}
		}
	}
	// cycles in the nesting order
	var names []string
	for n := range order {
		names = append(names, n)
	}
	sort.Strings(names)
	cyc := false
	for _, n := range names {
		seen := map[string]bool{}
		var dfs func(x string) bool
		dfs = func(x string) bool {
			for y := range order[x] {
				if y == n {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						return true
					}
				}
			}
			return false
		}
		if dfs(n) {
			cyc = true
			r.Fail("lock order", n, "-", "the mutex %s can be taken while a mutex is held that is elsewhere held while %s is taken: two goroutines can block each other", n, n)
		}
	}
	if !cyc {
		r.OK("lock order", fmt.Sprintf("%d nested pairs", len(order)))
	}
	tot := 0
	for _, n := range accesses {
		tot += n
	}
	r.Require("guarded accesses", tot, 25)
	r.Require("changes of an embedding's gradient", coupled, 3)
	r.Require("mutexes", len(muName), 4)
	r.Count("entry points analysed", roots)
	r.Count("instructions interpreted", instrs)
}

const embPath = modPath + "/nn/embedding"

// coupledCall: the embedding package changes the gradient of one of its
// parameters, which its table of embeddings with gradients must follow.
func coupledCall(fn *ssa.Function, e Ev) bool {
	if pkgOf(fn) == nil || pkgOf(fn).Path() != embPath {
		return false
	}
	isParam := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		pk := pkgOfType(t)
		return pk != nil && pk.Path() == modPath+"/nn" && nameOfType(t) == "Param"
	}
	switch e.Kind {
	case "call":
		if e.Fn == nil || e.Fn.Signature.Recv() == nil || !isParam(e.Fn.Signature.Recv().Type()) {
			return false
		}
		return e.Fn.Name() == "AccGrad" || e.Fn.Name() == "ZeroGrad"
	case "invoke": // promoted from the tensor a parameter embeds
		ci, ok := e.Ins.(ssa.CallInstruction)
		if !ok || e.M.Name() != "AccGrad" && e.M.Name() != "ZeroGrad" {
			return false
		}
		ld, ok := ci.Common().Value.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		return ok && isParam(fa.X.Type())
	}
	return false
}

// fresh: the object was made in this function.
func fresh(e Ev) bool {
	var addr ssa.Value
	switch x := e.Ins.(type) {
	case *ssa.UnOp:
		addr = x.X
	case *ssa.Store:
		addr = x.Addr
	default:
		return false
	}
	for i := 0; i < 4; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
	return false
}

func init() {
	checks["C10"] = checkLocks
}
