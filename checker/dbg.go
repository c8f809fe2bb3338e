package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

func debugOps(P *Program, name string, paths bool) {
	type job struct {
		u   *opUnit
		cfg opConfig
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			I := NewInterp(P)
			for j := range ch {
				s := debugOne(I, j.u, j.cfg, paths)
				mu.Lock()
				fmt.Print(s)
				mu.Unlock()
			}
		}()
	}
	for _, u := range findOps(P) {
		if name != "" && name != "all" && u.name != name {
			continue
		}
		for _, cfg := range u.configs(3) {
			if cfg.width == "32" {
				continue
			}
			ch <- job{u, cfg}
		}
	}
	close(ch)
	wg.Wait()
}

func debugOne(I *Interp, u *opUnit, cfg opConfig, paths bool) string {
	var sb strings.Builder
	cnt := map[string]int{}
	t0 := time.Now()
	n, comp := I.runOp(u, cfg, func() { cnt = map[string]int{}; sb.Reset() }, func(op *opPath) {
		k := op.stage
		if op.end != nil {
			k += ":" + op.end.kind
			if op.end.kind == "unsupported" || op.end.kind == "limit" || (op.stage == "backward" && op.end.kind != "infeasible") {
				k += ":" + op.end.msg + " at " + op.end.pos
			}
		}
		cnt[k]++
		if paths {
			fmt.Fprintln(&sb, "  PATH", k, strings.Join(op.p.labels, "; "))
			for _, e := range op.p.events {
				if e.Kind == "acc" || e.Kind == "write" || e.Kind == "unit" || e.Kind == "kernel" && e.Extra != "ok" {
					fmt.Fprintln(&sb, "     ", e.Kind, e.Name, e.Extra, e.Pos, e.Phase)
					if e.Kind == "acc" {
						g, t, ok := op.accShape(e)
						if ok {
							f := op.p.floatOf(e.Val)
							fmt.Fprintln(&sb, "         ", g, t, "unit", op.p.U.str(f.u), f.poly, "gy", op.p.U.str(op.unitGy), "y", op.p.U.str(op.unitY.u))
						}
					}
				}
			}
		}
	})
	fmt.Fprintf(&sb, "%s %v n=%d complete=%v %.1fs\n", u.name, cfg, n, comp, time.Since(t0).Seconds())
	for k, c := range cnt {
		fmt.Fprintf(&sb, "      %5d %s\n", c, k)
	}
	return sb.String()
}

func debugLabels(I *Interp, name string, max int) {
	for _, u := range findOps(I.P) {
		if u.name != name {
			continue
		}
		k := 0
		func() {
			defer func() { recover() }()
			I.runOp(u, u.configs(3)[len(u.configs(3))-1], nil, func(op *opPath) {
				fmt.Println(op.stage, strings.Join(op.p.labels, "; "))
				k++
				if k > max {
					panic("stop")
				}
			})
		}()
	}
}

func debugUnits(I *Interp) {
	for _, u := range findOps(I.P) {
		for _, cfg := range u.configs(3) {
			if cfg.width == "32" || cfg.listLen == 3 {
				continue
			}
			seen := map[string]int{}
			I.runOp(u, cfg, func() { seen = map[string]int{} }, func(op *opPath) {
				if op.end != nil {
					return
				}
				for _, e := range op.p.events {
					switch e.Kind {
					case "unit":
						seen["unit "+e.Phase+" "+e.Name+" "+e.Extra+" "+e.Pos]++
					case "acc":
						var xu Unit
						for _, o := range op.inputs {
							if o.name == e.Name {
								f := op.p.floatOf(o.val)
								xu = f.u
							}
						}
						f := op.p.floatOf(e.Val)
						want := uAdd(uAdd(op.unitGy, op.unitY.u, 1), xu, -1)
						ok := "OK"
						if f.poly {
							ok = "poly"
						} else if len(op.p.U.norm(uAdd(f.u, want, -1))) != 0 {
							ok = "BAD"
						}
						seen[ok+" "+e.Name+" got "+op.p.U.str(f.u)+" want "+op.p.U.str(want)+" y "+op.p.U.str(op.unitY.u)]++
					case "write":
						seen["write "+e.Name+" "+e.Pos+" "+e.Extra]++
					}
				}
			})
			for k, c := range seen {
				fmt.Println(u.name, cfg.listLen, c, k)
			}
		}
	}
}

func debugMats(P *Program, name string) {
	I := NewInterp(P)
	for _, u := range matUnits(P) {
		if name != "" && u.m != name {
			continue
		}
		for _, cfg := range u.configs(2) {
			r := safeMat(I, u, cfg)
			fmt.Printf("%s %v paths=%d done=%d rejected=%d\n", u.name, cfg, r.paths, r.done, r.rejected)
			seen := map[string]bool{}
			for _, f := range r.facts {
				if f.kind == "ok" {
					continue
				}
				s := fmt.Sprintf("   %s %s %s | %s | %s %s", f.kind, f.prop, f.rule, f.key, f.where, f.detail)
				if !seen[s] {
					fmt.Println(s)
				}
				seen[s] = true
			}
		}
	}
}

func debugTerms(P *Program, name string) {
	for _, u := range findOps(P) {
		if name != "" && u.name != name {
			continue
		}
		for _, cfg := range u.configs(2) {
			if cfg.width == "32" {
				continue
			}
			I := NewInterp(P)
			I.terms = true
			r := safeOp(I, u, cfg)
			n := map[string]int{}
			var lines []string
			seen := map[string]bool{}
			for _, f := range r.facts {
				n[f.kind+" "+f.key]++
				if f.kind != "ok" {
					l := f.kind + " " + f.key + " " + f.where + ": " + f.detail
					if len(l) > 700 {
						l = l[:700]
					}
					if !seen[f.kind+f.key] || name != "" && len(lines) < 12 {
						lines = append(lines, l)
					}
					seen[f.kind+f.key] = true
				}
			}
			fmt.Println(u.name, cfg.listLen, "paths", r.paths, "done", r.done, n)
			for _, l := range lines {
				fmt.Println("    ", l)
			}
		}
	}
}

func debugValues(P *Program, name string) {
	for _, u := range matUnits(P) {
		if name != "" && u.m != name {
			continue
		}
		for _, cfg := range u.configs(2) {
			if cfg.width == "32" || cfg.mode == "mixed" {
				continue
			}
			I := NewInterp(P)
			I.terms = true
			var sb strings.Builder
			func() {
				defer func() {
					if e := recover(); e != nil {
						fmt.Println("PANIC", e)
					}
				}()
				I.runMat(u, cfg, func() { sb.Reset() }, func(mp *matRun) {
					p := mp.p
					p.stack = nil
					p.protect = true
					if mp.end != nil {
						if mp.end.kind == "unsupported" || mp.end.kind == "limit" {
							fmt.Fprintf(&sb, "   UNSUPPORTED %s\n", mp.end.msg)
						}
						return
					}
					var vs []Value
					if strings.HasSuffix(u.m, "InPlace") || inPlaceOps[u.m] != "" {
						vs = []Value{mp.recv}
					} else {
						vs = p.matricesIn(mp.res)
					}
					fmt.Fprintf(&sb, "   path %v bad=%q\n", p.condText(), p.T.bad)
					for _, v := range vs {
						a := p.floatArr(p.callNamed(v, "Data"))
						if a == nil {
							fmt.Fprintf(&sb, "      no array\n")
							continue
						}
						d, _ := p.dimsOf(v)
						k := "nil"
						if a.e != nil {
							k = short(p.canon(a.e).key())
						}
						fmt.Fprintf(&sb, "      %s×%s: %s patches=%d\n", d[0].key(), d[1].key(), k, len(a.ps))
						for _, t := range a.ps {
							fmt.Fprintf(&sb, "         patch %s\n", short(t.key()))
						}
					}
					if f, ok := mp.res.(*FloatV); ok {
						fmt.Fprintf(&sb, "      scalar %s\n", short(f.e.key()))
					}
				})
			}()
			fmt.Printf("%s %v\n%s", u.name, cfg, sb.String())
		}
	}
}

func debugComps(P *Program, name, show string) {
	max, _ := strconv.Atoi(show)
	var mu sync.Mutex
	var ts []*compTarget
	for _, t := range compTargets {
		if strings.Contains(t.name, name) {
			ts = append(ts, t)
		}
	}
	parallel(len(ts), func(i int) *opResult {
		t := ts[i]
		for _, k := range t.cfgs {
			I := NewInterp(P)
			I.terms, I.zeros = true, true
			I.maxPaths = 4000
			r := &opResult{}
			t0 := time.Now()
			ends := map[string]int{}
			var lab []string
			n, ok := I.runComp(t, dbgWidth(), k, func() { r = &opResult{}; ends = map[string]int{}; lab = nil }, func(c *comp) {
				e := "ok"
				if c.end != nil {
					e = c.end.kind + " " + c.end.msg
				}
				ends[e]++
				if len(lab) < max {
					lab = append(lab, e+": "+strings.Join(c.p.labels, "; "))
				}
				r.judgeComp("C21", t, c)
			})
			cnt := map[string]int{}
			for _, f := range r.facts {
				d := f.kind + " " + f.rule + " " + f.key
				if f.kind != "ok" {
					d += " " + f.detail
					if len(d) > 400 {
						d = d[:400]
					}
				}
				cnt[d]++
			}
			mu.Lock()
			fmt.Printf("%s/%d paths %d %v %.1fs %v\n", t.name, k, n, ok, time.Since(t0).Seconds(), ends)
			for d, n := range cnt {
				fmt.Printf("   %5d %s\n", n, d)
			}
			for _, l := range lab {
				fmt.Println("     ", l)
			}
			mu.Unlock()
		}
		return nil
	})
}

func dbgWidth() string {
	if w := os.Getenv("SPAGOVERIF_WIDTH"); w != "" {
		return w
	}
	return "64"
}
