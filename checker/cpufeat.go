package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CPU features: which instruction set extensions each assembly function needs,
// and whether each use of it is reached only on CPUs that have them.

type featSet map[string]bool

func (f featSet) list() string {
	var s []string
	for k := range f {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

var (
	reText  = regexp.MustCompile(`^TEXT\s+[^(]*·([A-Za-z0-9_]+)`)
	reInstr = regexp.MustCompile(`^(?:[A-Za-z0-9_]+:\s*)?([A-Z][A-Z0-9]+)\b(.*)$`)
	reReg   = regexp.MustCompile(`\b[XYZ][0-9]+\b`)
)

// asmFeature is the extension an instruction belongs to beyond the baseline of
// the architecture ("" for none).
func asmFeature(op, args string) string {
	regs := reReg.FindAllString(args, -1)
	wide, zed := false, false
	for _, r := range regs {
		wide = wide || r[0] == 'Y'
		zed = zed || r[0] == 'Z'
	}
	switch {
	case op == "VERR" || op == "VERW" || strings.HasPrefix(op, "VM") && !strings.HasPrefix(op, "VMOV") && !strings.HasPrefix(op, "VMAX") && !strings.HasPrefix(op, "VMIN") && !strings.HasPrefix(op, "VMUL") && !strings.HasPrefix(op, "VMASK"):
		return ""
	case zed:
		return "AVX512F"
	case strings.HasPrefix(op, "VFMADD"), strings.HasPrefix(op, "VFNMADD"), strings.HasPrefix(op, "VFMSUB"), strings.HasPrefix(op, "VFNMSUB"):
		return "FMA"
	case strings.HasPrefix(op, "VPBROADCAST"), op == "VINSERTI128", op == "VEXTRACTI128", op == "VPERM2I128", op == "VPERMD", op == "VPERMQ", op == "VPERMPS", op == "VPERMPD", strings.HasPrefix(op, "VGATHER"), strings.HasPrefix(op, "VPGATHER"), strings.HasPrefix(op, "VPSLLV"), strings.HasPrefix(op, "VPSRLV"), strings.HasPrefix(op, "VPSRAV"), strings.HasPrefix(op, "VPMASKMOV"), op == "VBROADCASTI128":
		return "AVX2"
	case op == "VBROADCASTSS", op == "VBROADCASTSD":
		// from a register instead of memory
		first := strings.SplitN(strings.TrimSpace(args), ",", 2)[0]
		if reReg.MatchString(first) && !strings.Contains(first, "(") {
			return "AVX2"
		}
		return "AVX"
	case strings.HasPrefix(op, "VP") && !strings.HasPrefix(op, "VPERM") && op != "VPTEST":
		if wide {
			return "AVX2"
		}
		return "AVX"
	case op[0] == 'V':
		return "AVX"
	}
	switch op {
	case "ROUNDPS", "ROUNDPD", "ROUNDSS", "ROUNDSD", "PMULLD", "BLENDVPS", "BLENDVPD", "BLENDPS", "BLENDPD", "INSERTPS", "EXTRACTPS", "PTEST", "DPPS", "DPPD", "PMINSD", "PMAXSD", "PINSRD", "PINSRQ", "PEXTRD", "PEXTRQ":
		return "SSE41"
	case "PCMPGTQ":
		return "SSE42"
	case "POPCNTL", "POPCNTQ":
		return "POPCNT"
	}
	return ""
}

// asmNeeds reads the assembly files of the program: qualified Go function name
// to the extensions its body needs.
func asmNeeds(P *Program) (needs map[string]featSet, files int) {
	needs = map[string]featSet{}
	for path, pkg := range P.By {
		if !inModule(pkg.Types) {
			continue
		}
		for _, f := range pkg.OtherFiles {
			if !strings.HasSuffix(f, ".s") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			files++
			cur := ""
			defs := map[string]string{}
			for _, ln := range strings.Split(string(b), "\n") {
				if i := strings.Index(ln, "//"); i >= 0 {
					ln = ln[:i]
				}
				ln = strings.TrimSpace(ln)
				if strings.HasPrefix(ln, "#define") {
					// register names may be given aliases
					w := strings.Fields(ln)
					if len(w) == 3 {
						defs[w[1]] = w[2]
					}
					continue
				}
				if m := reText.FindStringSubmatch(ln); m != nil {
					cur = path + "." + m[1]
					needs[cur] = featSet{}
					continue
				}
				if cur == "" {
					continue
				}
				for _, part := range strings.Split(ln, ";") {
					m := reInstr.FindStringSubmatch(strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(part), "\\")))
					if m == nil {
						continue
					}
					args := m[2]
					for k, v := range defs {
						args = regexp.MustCompile(`\b`+regexp.QuoteMeta(k)+`\b`).ReplaceAllString(args, v)
					}
					if ft := asmFeature(m[1], args); ft != "" {
						needs[cur][ft] = true
					}
				}
			}
		}
	}
	return
}

type featAnalysis struct {
	P       *Program
	flags   map[*ssa.Global]featSet // boolean variables and what they imply
	callers map[*ssa.Function][]ssa.Instruction
}

// field of the CPU description that a value is loaded from
func cpuField(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	g, ok := fa.X.(*ssa.Global)
	if !ok || g.Name() != "X86" {
		return ""
	}
	st := deref(fa.X.Type())
	return strings.TrimPrefix(fieldName(st, fa.Field), "Has")
}

func (fa *featAnalysis) implied(v ssa.Value, depth int) featSet {
	out := featSet{}
	if depth > 6 {
		return out
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if f := cpuField(x); f != "" {
			out[f] = true
			return out
		}
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			for k := range fa.flags[g] {
				out[k] = true
			}
		}
	case *ssa.Phi:
		var acc featSet
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
				continue
			}
			s := fa.implied(e, depth+1)
			for k := range fa.guards(x.Block().Preds[i], depth+1) {
				s[k] = true
			}
			acc = meet(acc, s)
		}
		if acc != nil {
			return acc
		}
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && len(fn.Blocks) > 0 {
			var acc featSet
			for _, b := range fn.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(r.Results) != 1 {
					continue
				}
				if c, ok := r.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
					continue
				}
				s := fa.implied(r.Results[0], depth+1)
				for k := range fa.guards(b, depth+1) {
					s[k] = true
				}
				acc = meet(acc, s)
			}
			if acc != nil {
				return acc
			}
		}
	}
	return out
}

func meet(a, b featSet) featSet {
	if a == nil {
		return b
	}
	out := featSet{}
	for k := range a {
		if b[k] {
			out[k] = true
		}
	}
	return out
}

// guards are the features that control has established when b runs.
func (fa *featAnalysis) guards(b *ssa.BasicBlock, depth int) featSet {
	out := featSet{}
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(x.Preds) != 1 || d.Succs[0] == d.Succs[1] {
			continue
		}
		cond, taken := stripNot(i.Cond, d.Succs[0] == x)
		if !taken {
			continue
		}
		for k := range fa.implied(cond, depth+1) {
			out[k] = true
		}
	}
	return out
}

// reached gives the features established at an instruction, counting what all
// the callers of its function have established.
func (fa *featAnalysis) reached(in ssa.Instruction, depth int, busy map[*ssa.Function]bool) featSet {
	out := fa.guards(in.Block(), 0)
	fn := in.Parent()
	if depth > 4 || busy[fn] || fn.Synthetic != "" && fn.Name() == "init" {
		return out
	}
	if fn.Object() != nil && fn.Object().Exported() || fn.Signature.Recv() != nil {
		return out
	}
	busy[fn] = true
	defer delete(busy, fn)
	var acc featSet
	for _, c := range fa.callers[fn] {
		acc = meet(acc, fa.reached(c, depth+1, busy))
	}
	for k := range acc {
		out[k] = true
	}
	return out
}

func checkCPU(P *Program, rep *Report, minFuncs, minUses int) {
	needs, files := asmNeeds(P)
	fa := &featAnalysis{P: P, flags: map[*ssa.Global]featSet{}, callers: map[*ssa.Function][]ssa.Instruction{}}
	stores := map[*ssa.Global][]*ssa.Store{}
	type use struct {
		in ssa.Instruction
		fn *ssa.Function
	}
	var uses []use
	var fns []*ssa.Function
	for fn := range P.All() {
		if inModule(pkgOf(fn)) && fn.Blocks != nil {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		return fns[i].Pos() < fns[j].Pos() || fns[i].Pos() == fns[j].Pos() && fns[i].String() < fns[j].String()
	})
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], s)
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if f, ok := (*op).(*ssa.Function); ok {
						if len(f.Blocks) == 0 {
							uses = append(uses, use{in, f})
						} else {
							fa.callers[f] = append(fa.callers[f], in)
						}
					}
				}
			}
		}
	}
	// flags may be combined from other flags
	for i := 0; i < 4; i++ {
		for g, ss := range stores {
			if !isBoolT(deref(g.Type())) {
				continue
			}
			var acc featSet
			for _, s := range ss {
				v := fa.implied(s.Val, 0)
				for k := range fa.guards(s.Block(), 0) {
					v[k] = true
				}
				acc = meet(acc, v)
			}
			fa.flags[g] = acc
		}
	}
	n, used := 0, 0
	for _, f := range needs {
		if len(f) > 0 {
			n++
		}
	}
	for _, u := range uses {
		need := needs[extName(u.fn)]
		if len(need) == 0 {
			continue
		}
		used++
		have := fa.reached(u.in, 0, map[*ssa.Function]bool{})
		missing := featSet{}
		for k := range need {
			if !have[k] && !(k == "AVX" && (have["AVX2"] || have["FMA"])) && !(k == "SSE41" && (have["AVX"] || have["AVX2"])) {
				missing[k] = true
			}
		}
		where := P.pos(u.in.Pos())
		if where == "-" {
			where = P.pos(u.in.Parent().Pos())
		}
		rep.Check(len(missing) == 0, "CPU features established", fnName(u.fn)+" used in "+fnName(u.in.Parent()), where,
			"%s needs %s; %s is not established where it is used", fnName(u.fn), need.list(), missing.list())
	}
	rep.Count("assembly files read", files)
	rep.Count("assembly functions read", len(needs))
	rep.Require("assembly functions that need CPU features", n, minFuncs)
	rep.Require("uses of such functions", used, minUses)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldName(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return ""
}
