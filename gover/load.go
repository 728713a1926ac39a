package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const modPath = "github.com/miniLCT/gosb"

type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type FuncInfo struct {
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
	Key  string // pkgname.Func or pkgname.Type.Method
}

type Program struct {
	Fset    *token.FileSet
	Pkgs    map[string]*Pkg
	Funcs   map[*types.Func]*FuncInfo
	written map[*types.Var]bool // package variables asked about: changed by code of their package?
	ByKey   map[string]*FuncInfo
	Std     map[string]*types.Package
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Imports    []string
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off")
}

// Load type-checks the given package directories (relative to the module root) from source.
func Load(repo string, paths []string) (*Program, error) {
	cmd := exec.Command("go", append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Imports"}, paths...)...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	pk := map[string]*listPkg{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pk[p.ImportPath] = &p
	}
	pr := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncInfo{}, ByKey: map[string]*FuncInfo{}, Std: map[string]*types.Package{}}
	gc := importer.ForCompiler(pr.Fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pk[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	var load func(path string) (*types.Package, error)
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if strings.HasPrefix(path, modPath) {
			return load(path)
		}
		t, err := gc.Import(path)
		if err == nil {
			pr.Std[path] = t
		}
		return t, err
	})
	load = func(path string) (*types.Package, error) {
		if p, ok := pr.Pkgs[path]; ok {
			return p.Types, nil
		}
		lp := pk[path]
		if lp == nil {
			return nil, fmt.Errorf("package %s not listed", path)
		}
		p := &Pkg{Path: path, Dir: lp.Dir}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(pr.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{},
		}
		var terr error
		conf := types.Config{Importer: imp, GoVersion: "go1.20", Error: func(err error) {
			if terr == nil {
				terr = err
			}
		}, IgnoreFuncBodies: false}
		t, err := conf.Check(path, pr.Fset, p.Files, p.Info)
		if err != nil {
			if terr != nil {
				err = terr
			}
			return nil, err
		}
		p.Types = t
		pr.Pkgs[path] = p
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.Info.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fi := &FuncInfo{Pkg: p, Decl: fd, Obj: obj, Key: funcKey(obj)}
				pr.Funcs[obj] = fi
				pr.ByKey[fi.Key] = fi
			}
		}
		return t, nil
	}
	for path := range pk {
		if strings.HasPrefix(path, modPath) {
			if _, err := load(path); err != nil {
				return nil, err
			}
		}
	}
	return pr, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// funcKey names a function: pkg.F, pkg.T.M (pkg is the full path for the standard library,
// the last element for this module).
func funcKey(f *types.Func) string {
	f = f.Origin()
	if k, ok := funcAlias[f]; ok {
		return k
	}
	pkg := ""
	if f.Pkg() != nil {
		pkg = pkgShort(f.Pkg().Path()) + "."
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + n.Obj().Name() + "." + f.Name()
		}
		return pkg + "?." + f.Name()
	}
	return pkg + f.Name()
}
