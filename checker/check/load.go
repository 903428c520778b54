package check

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Mod is the import path of the module under analysis.
const Mod = "github.com/chronos-tachyon/morehttp"

// Program is the loaded program.
type Program struct {
	Prog *ssa.Program
	Pkgs map[string]*ssa.Package
	Dir  string
}

// Load type-checks the module in dir and builds its SSA form.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	cfg.Fset = token.NewFileSet()
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	cfg.ParseFile = func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
		f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		if f != nil && !strings.HasPrefix(name, abs+"/") && !ai.InterpretsDir(filepath.Dir(name)) {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					fd.Body = nil
				}
			}
		}
		return f, err
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	prog := ssa.NewProgram(cfg.Fset, ssa.InstantiateGenerics)
	packages.Visit(ps, nil, func(p *packages.Package) {
		// the other packages lack the bodies of their functions
		if p.PkgPath == Mod || strings.HasPrefix(p.PkgPath, Mod+"/") || ai.Interprets(p.PkgPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
		if p.Types != nil {
			prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load %s: %s", dir, strings.Join(errs, "; "))
	}
	for _, q := range prog.AllPackages() {
		if path := q.Pkg.Path(); path == Mod || strings.HasPrefix(path, Mod+"/") || ai.Interprets(path) {
			q.Build()
		}
	}
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Dir: dir}
	for _, q := range prog.AllPackages() {
		if q.Pkg != nil && strings.HasPrefix(q.Pkg.Path(), Mod) {
			p.Pkgs[strings.TrimPrefix(strings.TrimPrefix(q.Pkg.Path(), Mod), "/")] = q
		}
	}
	if p.Pkgs["body"] == nil || p.Pkgs["response"] == nil || p.Pkgs["handler"] == nil {
		return nil, fmt.Errorf("packages body, response and handler not found in %s", dir)
	}
	return p, nil
}

// Anchor is thrown when something the checks refer to by its public name does
// not exist any more.
type Anchor struct{ What string }

// Func finds an exported function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	if q := p.Pkgs[pkg]; q != nil {
		if f := q.Func(name); f != nil {
			return f
		}
	}
	panic(Anchor{"function " + pkg + "." + name})
}

// Type finds an exported type.
func (p *Program) Type(pkg, name string) types.Type {
	if q := p.Pkgs[pkg]; q != nil {
		if t := q.Type(name); t != nil {
			return t.Type()
		}
	}
	panic(Anchor{"type " + pkg + "." + name})
}

// Std finds a type of another package.
func (p *Program) Std(path, name string) types.Type {
	q := p.Prog.ImportedPackage(path)
	if q == nil {
		panic(Anchor{"package " + path})
	}
	t := q.Type(name)
	if t == nil {
		panic(Anchor{"type " + path + "." + name})
	}
	return t.Type()
}

// Methods lists the exported methods of a type, by name.
func (p *Program) Methods(t types.Type) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Exported() {
			out[s.Obj().Name()] = p.Prog.MethodValue(s)
		}
	}
	return out
}

// Impl tells whether t implements the named interface.
func Impl(t, iface types.Type) bool {
	return types.Implements(t, iface.Underlying().(*types.Interface))
}

// NewInterp makes an interpreter for p.
func (p *Program) NewInterp() *ai.Interp { return ai.New(p.Prog, Mod) }
