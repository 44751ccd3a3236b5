package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/nyaruka/phonenumbers/v2"

// Program is the type-checked, SSA-form view of the repository all analyses share.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by import path
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	Funcs []*ssa.Function // every source function and closure of the repository, in a stable order

	facts map[string]any // per-analysis caches
}

// Library packages: everything except the command line tools and the metadata builder.
func isLibraryPath(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) &&
		!strings.HasPrefix(p, modPath+"/cmd/") && p != modPath+"/internal/metadatabuilder"
}

// The packages whose exported functions form the user facing API.
var apiPackages = []string{modPath, modPath + "/carrier", modPath + "/geocoding", modPath + "/timezone"}

func isAPIPath(p string) bool {
	for _, a := range apiPackages {
		if a == p {
			return true
		}
	}
	return false
}

func inRepo(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// Load type-checks every package of the repository at dir and builds SSA form.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:  dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local",
			"CGO_ENABLED=0"),
		BuildFlags: []string{"-buildvcs=false"},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuildSerially)
	prog.Build()
	p := &Program{Dir: dir, Pkgs: map[string]*packages.Package{}, SSA: prog, SPkgs: map[string]*ssa.Package{}, facts: map[string]any{}}
	for i, pk := range pkgs {
		p.Fset = pk.Fset
		p.Pkgs[pk.PkgPath] = pk
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA form for %s", pk.PkgPath)
		}
		p.SPkgs[pk.PkgPath] = spkgs[i]
	}
	for _, want := range append([]string{modPath + "/metadata", modPath + "/internal/serialize"}, apiPackages...) {
		if p.SPkgs[want] == nil {
			return nil, fmt.Errorf("package %s is missing: the checked API cannot be found", want)
		}
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.Blocks == nil {
			continue
		}
		if pp := fnPkgPath(fn); inRepo(pp) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if fnPkgPath(a) != fnPkgPath(b) {
			return fnPkgPath(a) < fnPkgPath(b)
		}
		// not the raw positions: the files are read concurrently and numbered as they come
		if x, y := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos()); x != y {
			if x.Filename != y.Filename {
				return x.Filename < y.Filename
			}
			return x.Offset < y.Offset
		}
		return a.String() < b.String()
	})
	return p, nil
}

// fnPkgPath is the import path of the package a function (or closure, wrapper, instance) belongs to.
func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func (p *Program) LibFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if isLibraryPath(fnPkgPath(f)) {
			out = append(out, f)
		}
	}
	return out
}

// Pos renders a position as file:line relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// InstrPos finds the best source position for an instruction.
func (p *Program) InstrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o != nil && (*o).Pos().IsValid() {
			if _, isFn := (*o).(*ssa.Function); isFn {
				continue
			}
			if _, isG := (*o).(*ssa.Global); isG {
				continue
			}
			return p.Pos((*o).Pos())
		}
	}
	if b := in.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.Pos(x.Pos())
			}
		}
		return p.Pos(b.Parent().Pos())
	}
	return "-"
}

// Func finds a package level function or "Type.Method" by name.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := sp.Pkg.Scope().Lookup(name[:i])
		if t == nil {
			return nil
		}
		for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := p.SSA.MethodSets.MethodSet(typ)
			if sel := ms.Lookup(sp.Pkg, name[i+1:]); sel != nil {
				return p.SSA.MethodValue(sel)
			}
		}
		return nil
	}
	return sp.Func(name)
}

// isGenerated reports whether a function comes from a protobuf generated file.
func (p *Program) isGenerated(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return false
	}
	return strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, ".pb.go")
}

// ExportedAPI lists the exported functions and methods of exported types in the given packages,
// generated protobuf code excluded.
func (p *Program) ExportedAPI(paths ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, path := range paths {
		sp := p.SPkgs[path]
		if sp == nil {
			continue
		}
		names := make([]string, 0, len(sp.Members))
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() && !p.isGenerated(m) {
					out = append(out, m)
				}
			case *ssa.Type:
				if !m.Object().Exported() {
					continue
				}
				named, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					f := p.SSA.FuncValue(named.Method(i))
					if f != nil && f.Object().Exported() && !p.isGenerated(f) && f.Blocks != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

// fnName is a short stable name for reports.
func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "phonenumbers.")
	s = strings.ReplaceAll(s, modPath, "phonenumbers")
	return s
}
