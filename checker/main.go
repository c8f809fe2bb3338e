package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
)

func main() { os.Exit(realMain()) }

func realMain() int {
	prop := flag.String("property", "", "property to check (comma separated)")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "output tree")
	dbg := flag.String("debug", "", "ops|labels|units")
	flag.Parse()
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *dbg != "" {
		P, err := load(*repo, loadOpts{instance: true})
		if err != nil {
			fmt.Println(err)
			return 2
		}
		switch *dbg {
		case "ops":
			debugOps(P, flag.Arg(0), flag.Arg(1) != "")
		case "terms":
			debugTerms(P, flag.Arg(0))
		case "strategies":
			debugStrategies(P, flag.Arg(0))
		case "values":
			debugValues(P, flag.Arg(0))
		case "labels":
			debugLabels(NewInterp(P), flag.Arg(0), 60)
		case "kernels":
			debugKernels(P, "amd64")
			P2, err := load(*repo, loadOpts{instance: true, tags: "noasm,purego"})
			if err != nil {
				fmt.Println(err)
				return 2
			}
			debugKernels(P2, "pure Go")
		case "mats":
			debugMats(P, flag.Arg(0))
		case "comps":
			debugComps(P, flag.Arg(0), flag.Arg(1))
		case "units":
			debugUnits(NewInterp(P))
		}
		return 0
	}
	debug.SetGCPercent(400)
	abs, err := filepath.Abs(*verif)
	if err != nil {
		abs = *verif
	}
	code := 0
	C := &Context{repo: *repo, tier: *tier}
	for _, id := range strings.Split(*prop, ",") {
		if c := runProperty(C, id, abs); c != 0 {
			code = c
		}
	}
	return code
}

func runProperty(C *Context, id, verif string) (code int) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("SPAGOVERIF_DEBUG") != "" {
				panic(e)
			}
			code = failAll(id, C.tier, verif, "analysis error", fmt.Sprint(e)+"\n"+string(debug.Stack()))
		}
	}()
	f, ok := checks[id]
	if !ok {
		return failAll(id, C.tier, verif, "unknown property", id)
	}
	r := NewReport(id, C.tier)
	f(C, r)
	return r.Finish(verif)
}

// Context shares loaded programs and analyses between properties.
type Context struct {
	repo, tier string
	progs      map[string]*Program
	ops        *opSuite
	terms      *opSuite
	mats       *matSuite
	strat      []*opSuite
	kern       []*opResult
	ag         *agRoles
}

func (C *Context) prog(o loadOpts) *Program {
	k := fmt.Sprintf("%+v", o)
	if C.progs == nil {
		C.progs = map[string]*Program{}
	}
	if p, ok := C.progs[k]; ok {
		return p
	}
	p, err := load(C.repo, o)
	if err != nil {
		panic(err)
	}
	C.progs[k] = p
	return p
}

func (C *Context) opSuite() *opSuite {
	if C.ops == nil {
		n := 3
		if C.tier == "thorough" {
			n = 4
		}
		C.ops = runOps(C.prog(loadOpts{instance: true}), n, false)
	}
	return C.ops
}

// termSuite interprets the operators with the terms of their elements.
func (C *Context) termSuite() *opSuite {
	if C.terms == nil {
		n := 2
		if C.tier == "thorough" {
			n = 3
		}
		C.terms = runOps(C.prog(loadOpts{instance: true}), n, true)
	}
	return C.terms
}

var checks = map[string]func(C *Context, r *Report){}

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C20"} {
		id := id
		checks[id] = func(C *Context, r *Report) { C.opSuite().into(r, id) }
	}
	checks["C18"] = func(C *Context, r *Report) {
		s := C.termSuite()
		s.into(r, "C18")
		proved := map[string]bool{}
		for _, o := range s.results {
			for _, f := range o.facts {
				if f.kind == "ok" && f.prop == "C18" {
					proved[o.unit] = true
				}
			}
		}
		r.Require("differentiable functions with a proved derivative", len(proved), 40)
	}
}
