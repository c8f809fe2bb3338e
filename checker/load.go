package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/nlpodyssey/spago"

// Program is the loaded, type-checked, SSA-built current tree of /repo.
type Program struct {
	Root        string
	Tags        string
	Pkgs        []*packages.Package
	SSA         *ssa.Program
	By          map[string]*packages.Package
	Fset        *token.FileSet
	all         map[*ssa.Function]bool
	globalsOnce sync.Once
	globalVals  map[*ssa.Global][]ssa.Value
	inst        map[string]*ssa.Function // instantiated driver functions by name
}

// loadOpts selects what is loaded.
type loadOpts struct {
	tags     string
	goos     string
	goarch   string
	instance bool // monomorphic instances + driver overlay for abstract interpretation
}

func load(root string, o loadOpts) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  root,
		Fset: token.NewFileSet(),
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off"),
	}
	if o.goos != "" {
		cfg.Env = append(cfg.Env, "GOOS="+o.goos, "CGO_ENABLED=0")
	}
	if o.goarch != "" {
		cfg.Env = append(cfg.Env, "GOARCH="+o.goarch)
	}
	if o.tags != "" {
		cfg.BuildFlags = []string{"-tags=" + o.tags}
	}
	mode := ssa.BuilderMode(0)
	if o.instance {
		mode |= ssa.InstantiateGenerics
		ov, err := driverOverlay(root)
		if err != nil {
			return nil, err
		}
		cfg.Overlay = ov
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, mode)
	prog.Build()
	P := &Program{Root: root, Tags: o.tags, Pkgs: pkgs, SSA: prog, By: map[string]*packages.Package{}, Fset: cfg.Fset}
	packages.Visit(pkgs, nil, func(p *packages.Package) { P.By[p.PkgPath] = p })
	return P, nil
}

// All returns every SSA function of the program.
func (P *Program) All() map[*ssa.Function]bool {
	if P.all == nil {
		P.all = ssautil.AllFunctions(P.SSA)
	}
	return P.all
}

func (P *Program) ssaPkg(path string) *ssa.Package {
	p := P.By[path]
	if p == nil {
		return nil
	}
	return P.SSA.Package(p.Types)
}

// driverOverlay generates, in memory only, one extra file per analysed generic
// package so that every generic entry point gets a concrete instance. It is
// only seen by the type-checker of this analysis.
func driverOverlay(root string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	// mat: instances of Dense and its constructors
	ov[filepath.Join(root, "mat", "zz_spagoverif_driver.go")] = []byte(`package mat

func spagoverifDense32(rows, cols int) Matrix { return NewDense[float32](WithShape(rows, cols)) }
func spagoverifDense64(rows, cols int) Matrix { return NewDense[float64](WithShape(rows, cols)) }
`)
	ov[filepath.Join(root, "nn", "zz_spagoverif_driver.go")] = []byte(`package nn

import (
	context_ "context"
	sync_ "sync"

	mat_ "github.com/nlpodyssey/spago/mat"
)

type spagoverifLeaf struct {
	Module
	Gone *Param
	Lost *spagoverifInner
	W, V *Param
	B    *Buffer
}

type spagoverifInner struct {
	Module
	P    *Param
	Deep *spagoverifLeaf
	List []*spagoverifLeaf
}

type spagoverifOuter struct {
	Module
	Size   int
	P      *Param
	Frozen *Param
	Ps     []*Param
	Two    [2]*Param
	Names  map[string]*Param
	Nums   map[int]*Param
	Leaf   spagoverifLeaf
	Inner  *spagoverifInner
	Any    Model
	Anys   []Model
	Leaves []*spagoverifLeaf
	Values []spagoverifLeaf
	Pair   [2]*spagoverifLeaf
	ByName map[string]*spagoverifLeaf
	ByNum  map[int]Model
	Synced *sync_.Map
	Numbers []float64
	Text   string
	F      func()
	None   Model
	Empty  []*Param
	Last   *Param
}

func spagoverifHolder() *spagoverifOuter {
	p := func() *Param { return NewParam(mat_.NewDense[float64](mat_.WithShape(2, 3))) }
	n := 0
	leaf := func() *spagoverifLeaf {
		n++
		return &spagoverifLeaf{W: p().WithGrad(n%2 == 0), V: p(), B: Buf(mat_.NewDense[float64](mat_.WithShape(2, 3)))}
	}
	o := &spagoverifOuter{
		P: p(), Frozen: p().WithGrad(false), Ps: []*Param{p(), p().WithGrad(false), p(), p()}, Two: [2]*Param{p().WithGrad(false), p()},
		Names: map[string]*Param{"a": p(), "b": p().WithGrad(false), "c": p()}, Nums: map[int]*Param{0: p().WithGrad(false), -1: p(), 5: p()},
		Leaf: *leaf(), Inner: &spagoverifInner{P: p(), Deep: leaf(), List: []*spagoverifLeaf{leaf(), leaf()}},
		Any: leaf(), Anys: []Model{leaf(), &spagoverifInner{P: p(), Deep: leaf()}},
		Leaves: []*spagoverifLeaf{leaf(), leaf(), leaf()}, Values: []spagoverifLeaf{*leaf(), *leaf()},
		Pair: [2]*spagoverifLeaf{leaf(), leaf()}, ByName: map[string]*spagoverifLeaf{"x": leaf(), "y": leaf()},
		ByNum: map[int]Model{3: leaf(), 4: leaf()}, Synced: &sync_.Map{}, Numbers: []float64{1}, Last: p(),
	}
	o.P.State = "some state"
	o.Synced.Store("s", p().WithGrad(false))
	o.Synced.Store("", p())
	o.Synced.Store(7, leaf())
	return o
}

func spagoverifParams(ps ...*Param) ParamChannelFunc {
	return func(context_.Context) <-chan *Param {
		ch := make(chan *Param, len(ps))
		for _, p := range ps {
			ch <- p
		}
		close(ch)
		return ch
	}
}
`)
	ov[filepath.Join(root, "optimizers", "zz_spagoverif_driver.go")] = []byte(`package optimizers

import nn_ "github.com/nlpodyssey/spago/nn"

type spagoverifStrategy struct{}

func (*spagoverifStrategy) OptimizeParams(p *nn_.Param) error { return spagoverifStep(p) }

func spagoverifStep(*nn_.Param) error { return nil }

func spagoverifNew() OptimizationStrategy { return &spagoverifStrategy{} }

func spagoverifCancel() {}
`)
	ov[filepath.Join(root, "ag", "zz_spagoverif_driver.go")] = []byte(`package ag

import mat_ "github.com/nlpodyssey/spago/mat"

func spagoverifPad(x mat_.Tensor) func(i int) mat_.Tensor {
	return func(i int) mat_.Tensor {
		return AddScalar(x, x.Value().(mat_.Matrix).NewScalar(float64(i)))
	}
}
`)
	// gradfn: every generic package-level function whose only type parameter
	// is a tensor is instantiated at the interface type.
	dir := filepath.Join(root, "mat", "gradfn")
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.TypeParams == nil || !fd.Name.IsExported() {
				continue
			}
			n := 0
			tensor := true
			for _, fl := range fd.Type.TypeParams.List {
				n += len(fl.Names)
				s := types.ExprString(fl.Type)
				if s != "mat.Tensor" {
					tensor = false
				}
			}
			if n == 1 && tensor {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	var b bytes.Buffer
	b.WriteString("package gradfn\n\nimport mat_ \"" + modPath + "/mat\"\n\n")
	for _, n := range names {
		fmt.Fprintf(&b, "var _ = %s[mat_.Tensor]\n", n)
	}
	ov[filepath.Join(dir, "zz_spagoverif_driver.go")] = b.Bytes()
	// optimizers and models: generic constructors at both float widths
	for _, d := range []string{"optimizers", "nn", "mat/rand"} {
		err = filepath.WalkDir(filepath.Join(root, d), func(path string, d os.DirEntry, err error) error {
			if err != nil || !d.IsDir() {
				return err
			}
			return instanceOverlay(path, ov)
		})
		if err != nil && !os.IsNotExist(err) {
			return nil, err
		}
	}
	return ov, nil
}

// instanceOverlay instantiates the generic constructors of one package.
func instanceOverlay(dir string, ov map[string][]byte) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	var b bytes.Buffer
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return err
		}
		if b.Len() == 0 {
			fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.TypeParams == nil || !fd.Name.IsExported() {
				continue
			}
			if l := fd.Type.TypeParams.List; len(l) == 1 && len(l[0].Names) == 1 && strings.HasSuffix(types.ExprString(l[0].Type), "DType") {
				fmt.Fprintf(&b, "var spagoverif%s = []any{%s[float32], %s[float64]}\n", fd.Name.Name, fd.Name.Name, fd.Name.Name)
			}
		}
	}
	if _, has := ov[filepath.Join(dir, "zz_spagoverif_driver.go")]; b.Len() > 0 && !has {
		ov[filepath.Join(dir, "zz_spagoverif_driver.go")] = b.Bytes()
	}
	return nil
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// pkgOf returns the types.Package a function belongs to (through instances,
// closures and synthetic wrappers).
func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		g := f
		if o := g.Origin(); o != nil {
			g = o
		}
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if obj := g.Object(); obj != nil {
			return obj.Pkg()
		}
	}
	return nil
}

// fnName gives a stable readable name without type arguments.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if p := fn.Parent(); p != nil {
		return fnName(p) + "$" + strings.TrimPrefix(fn.Name(), p.Name()+"$")
	}
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "spago")
	// strip type parameter lists
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			break
		}
		depth := 0
		j := i
		for ; j < len(s); j++ {
			if s[j] == '[' {
				depth++
			} else if s[j] == ']' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		if j >= len(s) {
			break
		}
		s = s[:i] + s[j+1:]
	}
	return s
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}
