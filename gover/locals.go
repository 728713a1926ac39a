package main

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Invariants and hints name local variables. They are proof guidance only, so reading a name as another variable
// is sound. specs/locals.json lists the local variables of each function as they were when its contract was written;
// a name of that list that is gone is read as the variable of the same type, in order, that is new in the function.

type localVar struct{ Name, Type string }

func localsOf(fi *FuncInfo) (out []localVar) {
	if fi.Decl.Body == nil {
		return
	}
	q := func(p *types.Package) string { return p.Name() }
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		var v *types.Var
		switch n := n.(type) {
		case *ast.Ident:
			v, _ = fi.Pkg.Info.Defs[n].(*types.Var)
		default:
			v, _ = fi.Pkg.Info.Implicits[n].(*types.Var)
		}
		if v != nil && v.Name() != "_" && !v.IsField() {
			out = append(out, localVar{v.Name(), types.TypeString(v.Type(), q)})
		}
		return true
	})
	return
}

var localsFile map[string][]localVar

func loadLocals(dir string) {
	localsFile = map[string][]localVar{}
	if b, err := os.ReadFile(filepath.Join(dir, "locals.json")); err == nil {
		_ = json.Unmarshal(b, &localsFile)
	}
	funcsFile = nil
	if b, err := os.ReadFile(filepath.Join(dir, "funcs.json")); err == nil {
		_ = json.Unmarshal(b, &funcsFile)
	}
}

func writeLocals(pr *Program, dir string) error {
	m := map[string][]localVar{}
	for k, fi := range pr.ByKey {
		if l := localsOf(fi); len(l) > 0 {
			m[k] = l
		}
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "locals.json"), append(b, '\n'), 0o644); err != nil {
		return err
	}
	var l []oldFunc
	for _, fi := range pr.inOrder() {
		l = append(l, oldFuncOf(fi))
	}
	if b, err = json.MarshalIndent(l, "", " "); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "funcs.json"), append(b, '\n'), 0o644)
}

func (pr *Program) renamed(fi *FuncInfo, name string) string {
	old, cur := localsFile[fi.Key], localsOf(fi)
	has := func(l []localVar, n string) bool {
		for _, v := range l {
			if v.Name == n {
				return true
			}
		}
		return false
	}
	// the names that went, and those that came, in order of first appearance
	only := func(l, m []localVar) (out []localVar) {
		for _, v := range l {
			if !has(m, v.Name) && !has(out, v.Name) {
				out = append(out, v)
			}
		}
		return
	}
	gone, came := only(old, cur), only(cur, old)
	k, ty := -1, ""
	cnt := map[string]int{}
	for _, v := range gone {
		if v.Name == name {
			k, ty = cnt[v.Type], v.Type
			break
		}
		cnt[v.Type]++
	}
	if k < 0 {
		return ""
	}
	for _, v := range came {
		if v.Type == ty {
			if k == 0 {
				return v.Name
			}
			k--
		}
	}
	return ""
}

// specs/funcs.json lists the functions of the module as they were when the contracts were written. Contracts are for
// names: a function that is not exported and is gone is taken to be the one that has come into its package with the same receiver
// and signature (in order, if there are as many that came as went). That is sound: the contract is verified for it.
type oldFunc struct{ Key, Recv, Sig string }

var funcAlias = map[*types.Func]string{}
var funcsFile []oldFunc

func oldFuncOf(fi *FuncInfo) oldFunc {
	q := func(p *types.Package) string { return p.Name() }
	sig := fi.Obj.Type().(*types.Signature)
	recv := pkgShort(fi.Pkg.Path) + "."
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			recv += n.Obj().Name()
		}
	}
	return oldFunc{fi.Key, recv, sigText(sig, q)}
}

// sigText: the signature without the names of parameters
func sigText(sig *types.Signature, q types.Qualifier) string {
	t := ""
	for i := 0; i < sig.TypeParams().Len(); i++ {
		t += sig.TypeParams().At(i).Obj().Name() + " " + types.TypeString(sig.TypeParams().At(i).Constraint(), q) + ","
	}
	for _, l := range []*types.Tuple{sig.Params(), sig.Results()} {
		t += "("
		for i := 0; i < l.Len(); i++ {
			t += types.TypeString(l.At(i).Type(), q) + ","
		}
		t += ")"
	}
	return t
}

func (pr *Program) inOrder() []*FuncInfo {
	var fs []*FuncInfo
	for _, fi := range pr.ByKey {
		fs = append(fs, fi)
	}
	sort.Slice(fs, func(i, j int) bool {
		a, b := pr.Fset.Position(fs[i].Decl.Pos()), pr.Fset.Position(fs[j].Decl.Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	return fs
}

func (pr *Program) renamedFuncs() {
	if len(funcsFile) == 0 {
		return
	}
	was := map[string]bool{}
	for _, o := range funcsFile {
		was[o.Key] = true
	}
	id := func(o oldFunc) string { return o.Recv + " " + o.Sig }
	gone, came := map[string][]string{}, map[string][]*FuncInfo{}
	for _, o := range funcsFile {
		if name := o.Key[strings.LastIndex(o.Key, ".")+1:]; pr.ByKey[o.Key] == nil && !ast.IsExported(name) {
			gone[id(o)] = append(gone[id(o)], o.Key)
		}
	}
	for _, fi := range pr.inOrder() {
		if !was[fi.Key] && !fi.Obj.Exported() {
			k := id(oldFuncOf(fi))
			came[k] = append(came[k], fi)
		}
	}
	for k, g := range gone {
		if len(g) != len(came[k]) {
			continue
		}
		for i, fi := range came[k] {
			delete(pr.ByKey, fi.Key)
			fi.Key = g[i]
			pr.ByKey[fi.Key] = fi
			funcAlias[fi.Obj] = fi.Key
		}
	}
}

// funcName: the name of a function as contracts know it.
func funcName(f *types.Func) string {
	if k, ok := funcAlias[f.Origin()]; ok {
		return k[strings.LastIndex(k, ".")+1:]
	}
	return f.Name()
}
