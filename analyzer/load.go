package main

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed harness
var harnessFS embed.FS

//go:embed data
var dataFS embed.FS

const modPath = "github.com/clipperhouse/uax29/v2"

// short package names -> directory below the repository
var pkgDirs = map[string]string{
	"graphemes": "graphemes", "words": "words", "phrases": "phrases", "sentences": "sentences",
	"iterators": "internal/iterators", "filter": "internal/iterators/filter",
}

var repoDir = "/repo"

type loadError struct{ msg string }

func (e *loadError) Error() string { return e.msg }

// Load type-checks the packages of the repository together with the client
// harnesses (as overlay files; nothing is written), and builds SSA.
func Load() (*Program, error) {
	overlay := map[string][]byte{}
	harness := map[string]bool{}
	common, err := harnessFS.ReadFile("harness/common.go.txt")
	if err != nil {
		return nil, err
	}
	var pats []string
	names := make([]string, 0, len(pkgDirs))
	for n := range pkgDirs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		dir := filepath.Join(repoDir, pkgDirs[n])
		pats = append(pats, "./"+pkgDirs[n])
		body, err := harnessFS.ReadFile("harness/" + n + ".go.txt")
		if err != nil {
			continue
		}
		f := filepath.Join(dir, "zz_verif_common.go")
		overlay[f] = []byte("package " + n + "\n" + string(common))
		harness[f] = true
		f = filepath.Join(dir, "zz_verif_harness.go")
		overlay[f] = body
		harness[f] = true
		if n != "filter" {
			b, err := harnessFS.ReadFile("harness/pos.go.txt")
			if err != nil {
				return nil, err
			}
			f = filepath.Join(dir, "zz_verif_pos.go")
			overlay[f] = []byte("package " + n + "\n" + string(b))
			harness[f] = true
		}
		if n == "iterators" || n == "words" {
			b, err := harnessFS.ReadFile("harness/custom.go.txt")
			if err != nil {
				return nil, err
			}
			f = filepath.Join(dir, "zz_verif_custom.go")
			overlay[f] = []byte("package " + n + "\n" + string(b))
			harness[f] = true
		}
		if n != "iterators" && n != "filter" {
			b, err := harnessFS.ReadFile("harness/split.go.txt")
			if err != nil {
				return nil, err
			}
			f = filepath.Join(dir, "zz_verif_split.go")
			overlay[f] = []byte("package " + n + "\n" + string(b))
			harness[f] = true
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: overlay, Env: env, Fset: token.NewFileSet()}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		for _, e := range p.TypeErrors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, &loadError{"cannot type-check the code together with its clients: " + strings.Join(errs, "; ")}
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, modPaths: map[string]bool{}, infos: map[*ssa.Function]*FnInfo{},
		globIDs: map[*ssa.Global]int32{}, globals: map[int32]*Obj{}, fset: prog.Fset, harness: harness}
	for _, x := range prog.AllPackages() {
		path := x.Pkg.Path()
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			p.modPaths[path] = true
		}
	}
	for i, x := range sp {
		if x == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(pkgs[i].PkgPath, modPath+"/")
		for n, d := range pkgDirs {
			if d == rel {
				p.pkgs[n] = x
			}
		}
	}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(prog) {
		if p.inModule(fn) && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	p.cls = classify(append(append([]*ssa.Function(nil), fns...), p.stdBodies(fns)...))
	p.cls.freeze()
	p.fns = fns
	p.solveFields()
	if err := p.runInits(); err != nil {
		return nil, err
	}
	return p, nil
}

// runInits folds the package initialisers (composite literals of tables and
// function-valued variables) into initial values of package-level variables.
func (p *Program) runInits() (err error) {
	done := map[*ssa.Package]bool{}
	names := make([]string, 0)
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pk := p.pkgs[n]
		if err := p.runInit(pk, done); err != nil {
			return fmt.Errorf("package variables of %s: %v", n, err)
		}
	}
	return nil
}

func (p *Program) runInit(pk *ssa.Package, done map[*ssa.Package]bool) error {
	if done[pk] || !p.modPaths[pk.Pkg.Path()] {
		return nil
	}
	done[pk] = true
	for _, im := range pk.Pkg.Imports() {
		if q := p.prog.Package(im); q != nil {
			if err := p.runInit(q, done); err != nil {
				return err
			}
		}
	}
	init := pk.Func("init")
	if init == nil {
		return nil
	}
	e := NewEngine(p, NewUniverse(nil), "init")
	e.initMode = true
	e.Explore(init, nil)
	if len(e.viol) > 0 {
		return fmt.Errorf("%s", e.viol[0])
	}
	return nil
}

// bodyPkgs are standard packages whose functions are interpreted when they have
// no model.
var bodyPkgs = map[string]bool{"bytes": true, "strings": true, "slices": true, "cmp": true, "unicode": true, "unicode/utf8": true, "sort": true}

func stdBody(fn *ssa.Function) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
		if f.Origin() != nil {
			f = f.Origin()
		}
	}
	return len(fn.Blocks) > 0 && f.Pkg != nil && bodyPkgs[f.Pkg.Pkg.Path()] && fn.Synthetic != "package initializer"
}

// modelled reports whether calls of a standard function are answered by a model.
func modelled(fn *ssa.Function) bool {
	if _, ok := stdModels[fn.String()]; ok {
		return true
	}
	if fn.Origin() != nil {
		if _, ok := stdModels[fn.Origin().String()]; ok {
			return true
		}
	}
	return goModels[goModelKey(fn)] != ""
}

// goModels are functions without usable bodies, replaced by Go code in the
// harness (harness/common.go.txt).
var goModels = map[string]string{
	"bytes.IndexByte":                  "verifIndexByteB",
	"internal/bytealg.IndexByte":       "verifIndexByteB",
	"strings.IndexByte":                "verifIndexByteS",
	"internal/bytealg.IndexByteString": "verifIndexByteS",
	"internal/stringslite.IndexByte":   "verifIndexByteS",
	"bytes.LastIndexByte":              "verifLastIndexByteB",
	"strings.LastIndexByte":            "verifLastIndexByteS",
	"bytes.HasPrefix":                  "verifHasPrefixB",
	"strings.HasPrefix":                "verifHasPrefixS",
	"internal/stringslite.HasPrefix":   "verifHasPrefixS",
}

func goModelKey(fn *ssa.Function) string {
	if fn.Pkg == nil || fn.Signature.Recv() != nil {
		return ""
	}
	return fn.Pkg.Pkg.Path() + "." + fn.Name()
}

// stdBodies lists the functions of bodyPkgs that module functions may reach.
func (p *Program) stdBodies(fns []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if ok && !seen[g] && stdBody(g) && !modelled(g) {
						seen[g] = true
						out = append(out, g)
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range fns {
		visit(f)
	}
	return out
}

// findFunc returns the package-level function (harness entry points).
func (p *Program) findFunc(pkg, name string) *ssa.Function {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// instances lists the instantiations of a generic package-level function that
// exist in the program (or the function itself when it is not generic).
func (p *Program) instances(pkg, name string) []*ssa.Function {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	var out []*ssa.Function
	for _, fn := range p.fns {
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		if o.Pkg == pk && o.Name() == name && o.Signature.Recv() == nil && o.Parent() == nil {
			if fn.Origin() == nil && fn.TypeParams().Len() > 0 {
				continue
			}
			out = append(out, fn)
		}
	}
	return out
}

// lookupInstances finds the class lookup: the function from a text to a class
// value and a width.
func (p *Program) lookupInstances(pkg string) []*ssa.Function {
	l := p.instances(pkg, "lookup")
	if len(l) > 0 {
		return l
	}
	pk := p.pkgs[pkg]
	for _, fn := range p.fns {
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		if o.Pkg != pk || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		sg := fn.Signature
		if sg.Params().Len() != 1 || sg.Results().Len() != 2 || !isText(sg.Params().At(0).Type()) {
			continue
		}
		if fn.Origin() == nil && fn.TypeParams().Len() > 0 {
			continue
		}
		if n, ok := sg.Results().At(0).Type().(*types.Named); ok && n.Obj().Name() == "property" && isInt(sg.Results().At(1).Type()) {
			l = append(l, fn)
		}
	}
	return l
}
