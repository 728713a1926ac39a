package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// SVal is the value of a specification expression.
type SVal struct {
	T   *Term
	Ty  types.Type
	Nil bool
	TyV types.Type // a type argument
	Clo *Closure
}

// Env is where a specification expression is evaluated.
type Env struct {
	renaming  bool
	x         *Exec
	fr        *Frame
	st        *State
	old       *State
	vars      map[string]SVal
	params    map[string]SVal
	results   []SVal
	resNames  map[string]int
	tps       map[string]types.Type
	tpOrder   []types.Type
	pkg       *Pkg
	spec      *FuncSpec
	loop      int
	at        ast.Node
	loopEntry *State
	nolocals  bool
	wantAddr  bool // the name of a boxed variable stands for its address
	depth     int
	pvars     map[string]*types.Var // contract parameter names -> variables
	own       map[string]*types.Var // those of the inlined function whose loop this is
	ownFr     *Frame
	oldVars   map[string]SVal // values of variables in the old state (contracts of local functions)
}

type specErr struct{ msg string }

func (e *Env) fail(s *SExpr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("line %d: %s", s.Line, fmt.Sprintf(f, a...))})
}

func (e *Env) clone() *Env {
	n := *e
	return &n
}

func (e *Env) with(vars map[string]SVal) *Env {
	n := e.clone()
	m := map[string]SVal{}
	for k, v := range e.vars {
		m[k] = v
	}
	for k, v := range vars {
		m[k] = v
	}
	n.vars = m
	return n
}

// atOld evaluates in the entry state, with parameters at their entry values.
func (e *Env) atOld() *Env {
	n := e.clone()
	if n.old != nil {
		n.st = n.old
	}
	n.nolocals = true
	if n.oldVars != nil {
		n = n.with(n.oldVars)
	}
	return n
}

// funcTypeParams lists the type parameters in scope of a function.
func funcTypeParams(f *types.Func) []*types.TypeParam {
	sig := f.Type().(*types.Signature)
	var out []*types.TypeParam
	if l := sig.RecvTypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	if l := sig.TypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	return out
}

func (e *Env) setTypes(f *types.Func, sub TSubst) {
	e.tps = map[string]types.Type{}
	e.tpOrder = nil
	if f == nil {
		return
	}
	for _, tp := range funcTypeParams(f) {
		t := substT(tp, sub)
		e.tps[tp.Obj().Name()] = t
		e.tpOrder = append(e.tpOrder, t)
	}
}

// envFor is the environment inside the function being executed in frame fr (possibly an inlined one).
func (x *Exec) envFor(fr *Frame, st *State) *Env {
	e := &Env{x: x, fr: fr, st: st, old: x.old, pkg: fr.pkg, spec: x.spec, params: x.params, pvars: x.pvars}
	if x.root != nil && x.root.fn != nil {
		e.setTypes(x.root.fn.Obj, x.root.sub)
		e.pkg = x.root.pkg
	}
	return e
}

func (x *Exec) specBool(e *Env, s *SExpr) *Term {
	v := e.eval(s)
	if v.T == nil || v.T.S != SBool {
		e.fail(s, "boolean expected")
	}
	return v.T
}
func (x *Exec) specVal(e *Env, s *SExpr) SVal { return e.eval(s) }

func (e *Env) typ(t *SType) types.Type {
	switch t.Kind {
	case "ptr":
		return types.NewPointer(e.typ(t.Args[0]))
	case "slice":
		return types.NewSlice(e.typ(t.Args[0]))
	case "arr":
		return &GArr{e.typ(t.Args[0]), e.typ(t.Args[1])}
	case "chan":
		return types.NewChan(types.SendRecv, e.typ(t.Args[0]))
	case "map":
		return types.NewMap(e.typ(t.Args[0]), e.typ(t.Args[1]))
	case "unit":
		return types.NewStruct(nil, nil)
	case "func":
		var ps, rs []*types.Var
		for i, a := range t.Args {
			v := types.NewVar(token.NoPos, nil, "", e.typ(a))
			if i < len(t.Args)-1 {
				ps = append(ps, v)
			} else {
				rs = append(rs, v)
			}
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false)
	}
	if t.Pkg == "" {
		if r, ok := e.tps[t.Name]; ok && len(t.Args) == 0 {
			return r
		}
		switch t.Name {
		case "real":
			return TReal
		case "ref":
			return TRef
		case "mathint", "int":
			return TInt
		case "any":
			return types.NewInterfaceType(nil, nil)
		case "error":
			return types.Universe.Lookup("error").Type()
		}
		if o := types.Universe.Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	var scope *types.Scope
	if t.Pkg == "" {
		if e.pkg == nil {
			panic(specErr{"unknown type " + t.Name})
		}
		scope = e.pkg.Types.Scope()
	} else {
		for _, p := range e.x.pr.Pkgs {
			if pkgShort(p.Path) == t.Pkg {
				scope = p.Types.Scope()
			}
		}
		if scope == nil {
			for path, p := range e.x.pr.Std {
				if path == t.Pkg || strings.HasSuffix(path, "/"+t.Pkg) {
					scope = p.Scope()
				}
			}
		}
	}
	if scope == nil {
		panic(specErr{"unknown package " + t.Pkg})
	}
	o := scope.Lookup(t.Name)
	tn, ok := o.(*types.TypeName)
	if !ok {
		panic(specErr{"unknown type " + t.Name})
	}
	n, ok := types.Unalias(tn.Type()).(*types.Named)
	if !ok || n.TypeParams().Len() == 0 {
		return tn.Type()
	}
	var args []types.Type
	if len(t.Args) > 0 {
		for _, a := range t.Args {
			args = append(args, e.typ(a))
		}
	} else {
		if len(e.tpOrder) < n.TypeParams().Len() {
			panic(specErr{"type arguments needed for " + t.Name})
		}
		args = append(args, e.tpOrder[:n.TypeParams().Len()]...)
	}
	r, err := types.Instantiate(tctx, n, args, false)
	if err != nil {
		panic(specErr{err.Error()})
	}
	return r
}

func (e *Env) numVal(s *SExpr) SVal {
	cv := constant.MakeFromLiteral(s.S, 5 /* token.INT */, 0)
	if strings.HasPrefix(s.S, "0x") || cv.Kind() == constant.Int {
		b, _ := constant.Val(cv).(int64)
		if _, ok := constant.Val(cv).(int64); ok {
			return SVal{T: IntLit(b), Ty: TInt}
		}
		return SVal{T: BigLit(bigOf(cv)), Ty: TInt}
	}
	e.fail(s, "number %s", s.S)
	return SVal{}
}

func (e *Env) lookupLocal(name string) (SVal, bool) {
	if e.fr == nil || e.nolocals {
		return SVal{}, false
	}
	x := e.x
	if v, ok := e.own[name]; ok {
		if _, live := e.st.locals[v]; live {
			return x.sval(e.readVar(e.ownFr, v)), true
		}
	}
	// contract parameter names
	if v, ok := e.pvars[name]; ok {
		// in a function that was inlined, the parameter that got it
		var fs []*Frame
		for f := e.fr; f != nil && f != x.root; f = f.up {
			fs = append(fs, f)
		}
		for i := len(fs) - 1; i >= 0; i-- {
			if p := fs[i].argOf[v]; p != nil {
				if _, live := e.st.locals[p]; live {
					return x.sval(e.readVar(fs[i], p)), true
				}
			}
		}
		if _, live := e.st.locals[v]; live {
			return x.sval(e.readVar(x.root, v)), true
		}
	}
	var pos = e.fr.body.End() - 1
	if e.at != nil {
		pos = e.at.Pos()
		switch n := e.at.(type) {
		case *ast.ForStmt:
			pos = n.Body.Pos() + 1
		case *ast.RangeStmt:
			pos = n.Body.Pos() + 1
		}
	}
	for f := e.fr; f != nil; {
		sc := f.pkg.Types.Scope().Innermost(pos)
		for s := sc; s != nil; s = s.Parent() {
			o := s.Lookup(name)
			if o == nil {
				continue
			}
			v, ok := o.(*types.Var)
			if !ok || x.isGlobal(v) {
				break
			}
			if v.Pos() > pos && s != nil && !isParamVar(f, v) {
				continue
			}
			if _, live := e.st.locals[v]; live {
				return x.sval(e.readVar(f, v)), true
			}
		}
		if f.up != nil {
			pos = f.callPos
			f = f.up
		} else {
			f = nil
		}
	}
	// any live local of that name
	var cand []*types.Var
	for v := range e.st.locals {
		if v.Name() == name {
			cand = append(cand, v)
		}
	}
	if len(cand) > 0 {
		sort.Slice(cand, func(i, j int) bool { return cand[i].Pos() > cand[j].Pos() })
		return x.sval(e.readVar(e.fr, cand[0])), true
	}
	// a local of the function as the contract was written that now goes by another name
	if !e.renaming && x.root != nil && x.root.fn != nil {
		if alt := x.pr.renamed(x.root.fn, name); alt != "" {
			e.renaming = true
			defer func() { e.renaming = false }()
			return e.lookupLocal(alt)
		}
	}
	return SVal{}, false
}

func (e *Env) readVar(f *Frame, v *types.Var) Val {
	if e.wantAddr && e.x.isBoxed(f, v) {
		return e.st.locals[v]
	}
	return e.x.readVar(f, e.st, v)
}

func isParamVar(f *Frame, v *types.Var) bool {
	for i := 0; f.sig != nil && i < f.sig.Params().Len(); i++ {
		if f.sig.Params().At(i) == v {
			return true
		}
	}
	return false
}

func (x *Exec) sval(v Val) SVal {
	if v.T == nil && v.Clo != nil {
		return SVal{T: nil, Ty: v.Ty, Clo: v.Clo}
	}
	return SVal{T: v.T, Ty: v.Ty}
}

func (e *Env) id(s *SExpr) SVal {
	n := s.S
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SVal{T: True, Ty: TBool}
	case "false":
		return SVal{T: False, Ty: TBool}
	case "nil":
		return SVal{Nil: true}
	case "result":
		if len(e.results) > 0 {
			return e.results[0]
		}
	}
	if strings.HasPrefix(n, "result") && len(e.results) > 0 {
		if k, err := strconv.Atoi(n[6:]); err == nil {
			if k < len(e.results) {
				return e.results[k]
			}
			e.fail(s, "no %s", n)
		}
	}
	if strings.HasPrefix(n, "$it") || strings.HasPrefix(n, "$vis") || strings.HasPrefix(n, "$keys") || strings.HasPrefix(n, "$pos") {
		l := e.loop
		base := strings.TrimRight(n, "0123456789")
		if k, err := strconv.Atoi(n[len(base):]); err == nil {
			l = k
		}
		var t *Term
		switch base {
		case "$it":
			t = e.st.its[l]
			if t == nil {
				e.fail(s, "%s: loop not active", n)
			}
			return SVal{T: t, Ty: TInt}
		case "$pos":
			t = e.st.pos[l]
			if t == nil {
				e.fail(s, "%s: loop not active", n)
			}
			return SVal{T: t, Ty: TInt}
		case "$keys":
			t = e.st.vis[-l]
			if t == nil {
				e.fail(s, "%s: loop not active", n)
			}
			return SVal{T: t, Ty: &GArr{TInt, &GNamed{"key", arrElem(t.S)}}}
		case "$vis":
			t = e.st.vis[l]
			if t == nil {
				e.fail(s, "%s: loop not active", n)
			}
			return SVal{T: t, Ty: &GArr{&GNamed{"key", arrKey(t.S)}, TBool}}
		}
	}
	if i, ok := e.resNames[n]; ok && i < len(e.results) {
		return e.results[i]
	}
	if v, ok := e.lookupLocal(n); ok {
		return v
	}
	if v, ok := e.params[n]; ok {
		return v
	}
	if e.spec != nil && e.depth < 50 {
		for _, l := range e.spec.Lets {
			if l.Name == n {
				c := e.clone()
				c.depth++
				return c.eval(l.E)
			}
		}
	}
	if g, ok := e.x.set.GVar[n]; ok {
		c := e.ghostVar(g)
		return SVal{T: e.x.get(e.st, c), Ty: e.typ(g.Ty)}
	}
	if d, ok := e.x.set.Defs[n]; ok && len(d.Params) == 0 {
		return e.applyDef(s, d, nil)
	}
	if e.pkg != nil {
		switch o := e.pkg.Types.Scope().Lookup(n).(type) {
		case *types.Const:
			return SVal{T: e.x.constTerm(o.Val(), o.Type()), Ty: o.Type()}
		case *types.Var:
			v := e.x.globalVal(e.st, o)
			return SVal{T: v.T, Ty: v.Ty, Clo: v.Clo}
		case *types.Func:
			if fi := e.x.pr.Funcs[o]; fi != nil {
				return SVal{T: Const("fn$"+sanitize(fi.Key), SFn), Ty: o.Type()}
			}
		}
	}
	e.fail(s, "unknown name %s", n)
	return SVal{}
}

func (e *Env) ghostVar(g *GhostField) *compInfo {
	ty := e.typ(g.Ty)
	return comp("g|"+g.Name, sortOf(ty), ty, 's')
}

func (e *Env) termOf(s *SExpr, v SVal) *Term {
	if v.T != nil {
		return v.T
	}
	if v.Clo != nil {
		return e.x.closureTerm(v.Clo)
	}
	e.fail(s, "value expected")
	return nil
}

func (e *Env) eval(s *SExpr) SVal {
	x := e.x
	switch s.Op {
	case "num":
		return e.numVal(s)
	case "str":
		str, err := strconv.Unquote(s.S)
		if err != nil {
			e.fail(s, "string literal")
		}
		return SVal{T: x.strLit(str), Ty: TStr}
	case "chr":
		r, _, _, err := strconv.UnquoteChar(s.S[1:len(s.S)-1], '\'')
		if err != nil {
			e.fail(s, "character literal")
		}
		return SVal{T: IntLit(int64(r)), Ty: TInt}
	case "id":
		return e.id(s)
	case "type":
		return SVal{TyV: e.typ(s.Ty)}
	case "ite":
		c := e.eval(s.Args[0])
		a, b := e.unify(s, e.eval(s.Args[1]), e.eval(s.Args[2]))
		return SVal{T: Ite(c.T, a.T, b.T), Ty: a.Ty}
	case "let":
		v := e.eval(s.Args[0])
		return e.with(map[string]SVal{s.S: v}).eval(s.Args[1])
	case "un":
		a := e.eval(s.Args[0])
		switch s.S {
		case "!":
			return SVal{T: Not(a.T), Ty: TBool}
		case "-":
			if a.T.S == SReal {
				return SVal{T: mk("-", SReal, a.T), Ty: a.Ty}
			}
			return SVal{T: Neg(a.T), Ty: a.Ty}
		case "^":
			return SVal{T: mk("bvnot", SBV8, a.T), Ty: a.Ty}
		case "*":
			pt, ok := under(a.Ty).(*types.Pointer)
			if !ok {
				e.fail(s, "dereference of %s", a.Ty)
			}
			if _, ok := isStructVal(pt.Elem()); ok {
				return SVal{T: e.loadObj(a.T, pt.Elem()), Ty: pt.Elem()}
			}
			return SVal{T: Select(x.get(e.st, cellComp(pt.Elem())), a.T), Ty: pt.Elem()}
		case "&":
			return e.addrOf(s, s.Args[0])
		}
	case "bin":
		return e.binary(s)
	case "sel":
		return e.selector(s)
	case "idx":
		a := e.eval(s.Args[0])
		i := e.eval(s.Args[1])
		return e.index(s, a, i)
	case "upd":
		a, i, v := e.eval(s.Args[0]), e.eval(s.Args[1]), e.eval(s.Args[2])
		if !isArr(a.T.S) {
			e.fail(s, "update of %s", a.Ty)
		}
		return SVal{T: Store(a.T, e.adapt(s, i, arrKey(a.T.S)), e.adapt(s, v, arrElem(a.T.S))), Ty: a.Ty}
	case "slice":
		a := e.eval(s.Args[0])
		var lo, hi *Term = IntLit(0), nil
		if s.Args[1] != nil {
			lo = e.eval(s.Args[1]).T
		}
		if a.T.S == SStr {
			hi = App("slen", SInt, a.T)
			if s.Args[2] != nil {
				hi = e.eval(s.Args[2]).T
			}
			return SVal{T: substr(a.T, lo, hi), Ty: a.Ty}
		}
		hi = SlLen(a.T)
		if s.Args[2] != nil {
			hi = e.eval(s.Args[2]).T
		}
		return SVal{T: MkSlice(SlArr(a.T), Add(SlOff(a.T), lo), Sub(hi, lo), Sub(SlCap(a.T), lo)), Ty: a.Ty}
	case "forall", "exists":
		vars := map[string]SVal{}
		var bs []*Term
		for _, v := range s.Vars {
			ty := e.typ(v.Ty)
			b := BoundVar(v.Name, sortOf(ty))
			bs = append(bs, b)
			vars[v.Name] = SVal{T: b, Ty: ty}
		}
		n := e.with(vars)
		body := n.eval(s.Args[0])
		if body.T.S != SBool {
			e.fail(s, "boolean body expected")
		}
		var trig [][]*Term
		for _, tr := range s.Trig {
			var ts []*Term
			for _, q := range tr {
				ts = append(ts, n.eval(q).T)
			}
			trig = append(trig, ts)
		}
		return SVal{T: Quant(s.Op, bs, trig, body.T), Ty: TBool}
	case "call":
		return e.call(s)
	}
	e.fail(s, "expression %s", s.Op)
	return SVal{}
}

func (e *Env) loadObj(ref *Term, ty types.Type) *Term {
	st, _ := isStructVal(ty)
	d := datatypes[sortOf(ty)]
	var args []*Term
	for i := 0; i < st.NumFields(); i++ {
		args = append(args, e.loadField(ref, ty, st.Field(i)))
	}
	return MkDT(d, args...)
}

func (e *Env) loadField(ref *Term, ty types.Type, f *types.Var) *Term {
	if _, ok := isStructVal(f.Type()); ok {
		return e.loadObj(subRef(ty, f, ref), f.Type())
	}
	return Select(e.x.get(e.st, fieldComp(ty, f)), ref)
}

// addrOf evaluates &p.f for an embedded struct field.
func (e *Env) addrOf(s, a *SExpr) SVal {
	if a.Op == "sel" {
		b := e.eval(a.Args[0])
		ref, ty := b.T, b.Ty
		if pt, ok := under(ty).(*types.Pointer); ok {
			ty = pt.Elem()
		} else {
			b = e.addrOf(s, a.Args[0])
			ref = b.T
		}
		su, ok := under(ty).(*types.Struct)
		if ok {
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == a.S {
					if _, ok := isStructVal(su.Field(i).Type()); ok {
						return SVal{T: subRef(ty, su.Field(i), ref), Ty: types.NewPointer(su.Field(i).Type())}
					}
				}
			}
		}
	}
	if a.Op == "id" {
		c := e.clone()
		c.wantAddr = true
		if v := c.eval(a); v.T != nil && v.T.S == SRef {
			if _, ok := under(v.Ty).(*types.Pointer); ok {
				return v
			}
		}
	}
	e.fail(s, "address of something other than an embedded struct field")
	return SVal{}
}

func (e *Env) ghostComp(ty types.Type, name string) (*compInfo, types.Type) {
	n, ok := types.Unalias(ty).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, nil
	}
	g, ok := e.x.set.GFld[pkgShort(n.Obj().Pkg().Path())+"."+n.Obj().Name()+"."+name]
	if !ok {
		return nil, nil
	}
	// the ghost field's type may mention the type's own parameters by name
	c := e.clone()
	c.tps = map[string]types.Type{}
	c.tpOrder = nil
	o := n.Origin()
	for i := 0; i < o.TypeParams().Len(); i++ {
		var a types.Type = o.TypeParams().At(i)
		if n.TypeArgs().Len() > i {
			a = n.TypeArgs().At(i)
		}
		c.tps[o.TypeParams().At(i).Obj().Name()] = a
		c.tpOrder = append(c.tpOrder, a)
	}
	if p := e.x.pr.specPkg(n.Obj().Pkg().Path()); p != nil {
		c.pkg = p
	}
	gt := c.typ(g.Ty)
	return comp("G|"+tkey(ty)+"."+name, Arr(SRef, sortOf(gt)), gt, 'g'), gt
}

func (e *Env) selector(s *SExpr) SVal {
	// package-qualified names
	if s.Args[0].Op == "id" {
		pn := s.Args[0].S
		if _, bound := e.vars[pn]; !bound {
			if _, ok := e.params[pn]; !ok {
				for _, p := range e.x.pr.Pkgs {
					if pkgShort(p.Path) == pn {
						switch o := p.Types.Scope().Lookup(s.S).(type) {
						case *types.Const:
							return SVal{T: e.x.constTerm(o.Val(), o.Type()), Ty: o.Type()}
						case *types.Var:
							v := e.x.globalVal(e.st, o)
							return SVal{T: v.T, Ty: v.Ty, Clo: v.Clo}
						}
					}
				}
				if e.pkg != nil { // a standard package the package imports
					for _, t := range e.pkg.Types.Imports() {
						if t.Name() == pn && e.x.pr.Pkgs[t.Path()] == nil {
							switch o := t.Scope().Lookup(s.S).(type) {
							case *types.Const:
								return SVal{T: e.x.constTerm(o.Val(), o.Type()), Ty: o.Type()}
							case *types.Var:
								v := e.x.globalVal(e.st, o)
								return SVal{T: v.T, Ty: v.Ty, Clo: v.Clo}
							}
						}
					}
				}
			}
		}
	}
	a := e.eval(s.Args[0])
	return e.field(s, a, s.S)
}

func (e *Env) field(s *SExpr, a SVal, name string) SVal {
	if a.T == nil {
		e.fail(s, "field %s of a non-value", name)
	}
	ty := a.Ty
	ptr := false
	if pt, ok := under(ty).(*types.Pointer); ok {
		ty = pt.Elem()
		ptr = true
	}
	if c, gt := e.ghostComp(ty, name); c != nil {
		ref := a.T
		if !ptr {
			if a.T.S != SRef {
				e.fail(s, "ghost field of a struct value")
			}
		}
		return SVal{T: Select(e.x.get(e.st, c), ref), Ty: gt}
	}
	su, ok := under(ty).(*types.Struct)
	if !ok {
		e.fail(s, "field %s of %s", name, a.Ty)
	}
	find := func(st *types.Struct) *types.Var {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i)
			}
		}
		return nil
	}
	f := find(su)
	if f == nil {
		// promoted through one embedded field
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Embedded() {
				if st2, ok := deref(su.Field(i).Type()).Underlying().(*types.Struct); ok && find(st2) != nil {
					inner := e.field(s, a, su.Field(i).Name())
					return e.field(s, inner, name)
				}
			}
		}
		e.fail(s, "no field %s in %s", name, ty)
	}
	if ptr {
		if _, ok := isStructVal(f.Type()); ok {
			// keep the address so that further selections work on the heap
			return SVal{T: subRef(ty, f, a.T), Ty: types.NewPointer(f.Type())}
		}
		return SVal{T: Select(e.x.get(e.st, fieldComp(ty, f)), a.T), Ty: fieldTy(f.Type())}
	}
	d, ok := datatypes[a.T.S]
	if !ok {
		e.fail(s, "field %s of opaque %s", name, ty)
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i) == f {
			return SVal{T: SelDT(d, i, a.T), Ty: fieldTy(f.Type())}
		}
	}
	return SVal{}
}

func fieldTy(t types.Type) types.Type {
	if et, ok := atomicElem(t); ok {
		return et
	}
	if isMutex(t) {
		return TInt
	}
	return t
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Env) index(s *SExpr, a, i SVal) SVal {
	x := e.x
	if a.T == nil {
		e.fail(s, "index of a non-value")
	}
	switch {
	case a.T.S == SSl:
		sl, ok := under(a.Ty).(*types.Slice)
		if !ok {
			e.fail(s, "index of %s", a.Ty)
		}
		m := x.get(e.st, memComp(sl.Elem()))
		return SVal{T: Select(Select(m, SlArr(a.T)), Add(SlOff(a.T), e.adapt(s, i, SInt))), Ty: sl.Elem()}
	case a.T.S == SStr:
		return SVal{T: App("sat", SBV8, a.T, e.adapt(s, i, SInt)), Ty: TByte}
	case isArr(a.T.S):
		var et types.Type
		switch t := under(a.Ty).(type) {
		case *GArr:
			et = t.V
		case *types.Array:
			et = t.Elem()
		}
		return SVal{T: Select(a.T, e.adapt(s, i, arrKey(a.T.S))), Ty: et}
	}
	if m, ok := under(a.Ty).(*types.Map); ok {
		k := e.adapt(s, i, sortOf(m.Key()))
		raw := Select(Select(x.get(e.st, mapVal(m)), a.T), k)
		in := Select(Select(x.get(e.st, mapDom(m)), a.T), k)
		_ = in
		return SVal{T: raw, Ty: m.Elem()}
	}
	e.fail(s, "index of %s", a.Ty)
	return SVal{}
}

// adapt converts a value to the wanted sort (literals, bytes and ints).
func (e *Env) adapt(s *SExpr, v SVal, want Sort) *Term {
	if v.Nil {
		switch want {
		case SRef:
			return Null
		case SAny:
			return Const("any.nil", SAny)
		case SFn:
			return Const("fn.nil", SFn)
		case SSl:
			return MkSlice(Null, IntLit(0), IntLit(0), IntLit(0))
		}
		e.fail(s, "nil of sort %s", want)
	}
	t := e.termOf(s, v)
	if t.S == want {
		return t
	}
	switch {
	case want == SBV8 && t.S == SInt && t.num != nil:
		return BVLit(int(t.num.Int64()))
	case want == SInt && t.S == SBV8:
		return bvToInt(t)
	case want == SBV8 && t.S == SInt:
		return intToBV(t)
	case want == SReal && t.S == SInt && t.num != nil:
		if t.num.Sign() < 0 {
			return mk("(- "+t.num.String()[1:]+".0)", SReal)
		}
		return mk(t.num.String()+".0", SReal)
	case want == SReal && t.S == SInt:
		return mk("to_real", SReal, t)
	case want == SAny && v.Ty != nil:
		return boxTerm(t, v.Ty)
	}
	e.fail(s, "sort %s where %s is needed", t.S, want)
	return nil
}

func (e *Env) unify(s *SExpr, a, b SVal) (SVal, SVal) {
	if a.Nil && b.Nil {
		return SVal{T: Null, Ty: TRef}, SVal{T: Null, Ty: TRef}
	}
	if a.Nil {
		b.T = e.termOf(s, b)
		return SVal{T: e.adapt(s, a, b.T.S), Ty: b.Ty}, b
	}
	if b.Nil {
		a.T = e.termOf(s, a)
		return a, SVal{T: e.adapt(s, b, a.T.S), Ty: a.Ty}
	}
	a.T, b.T = e.termOf(s, a), e.termOf(s, b)
	if a.T.S == b.T.S {
		return a, b
	}
	if a.T.num != nil {
		a.T = e.adapt(s, a, b.T.S)
		a.Ty = b.Ty
		return a, b
	}
	if b.T.num != nil {
		b.T = e.adapt(s, b, a.T.S)
		return a, b
	}
	if a.T.S == SBV8 && b.T.S == SInt {
		return SVal{T: bvToInt(a.T), Ty: TInt}, b
	}
	if b.T.S == SBV8 && a.T.S == SInt {
		return a, SVal{T: bvToInt(b.T), Ty: TInt}
	}
	if a.T.S == SReal && b.T.S == SInt {
		return a, SVal{T: mk("to_real", SReal, b.T), Ty: TReal}
	}
	if b.T.S == SReal && a.T.S == SInt {
		return SVal{T: mk("to_real", SReal, a.T), Ty: TReal}, b
	}
	if a.T.S == SAny {
		return a, SVal{T: e.adapt(s, b, SAny), Ty: a.Ty}
	}
	if b.T.S == SAny {
		return SVal{T: e.adapt(s, a, SAny), Ty: b.Ty}, b
	}
	e.fail(s, "sorts %s and %s do not match", a.T.S, b.T.S)
	return a, b
}

func (e *Env) binary(s *SExpr) SVal {
	x := e.x
	switch s.S {
	case "&&", "||", "==>", "<==>":
		a, b := e.eval(s.Args[0]), e.eval(s.Args[1])
		if a.T == nil || b.T == nil || a.T.S != SBool || b.T.S != SBool {
			e.fail(s, "boolean operands expected for %s", s.S)
		}
		switch s.S {
		case "&&":
			return SVal{T: And(a.T, b.T), Ty: TBool}
		case "||":
			return SVal{T: Or(a.T, b.T), Ty: TBool}
		case "==>":
			return SVal{T: Implies(a.T, b.T), Ty: TBool}
		default:
			return SVal{T: Iff(a.T, b.T), Ty: TBool}
		}
	case "in":
		k, m := e.eval(s.Args[0]), e.eval(s.Args[1])
		if m.T.S == SRef {
			mt, ok := under(m.Ty).(*types.Map)
			if !ok {
				e.fail(s, "in %s", m.Ty)
			}
			return SVal{T: Select(Select(x.get(e.st, mapDom(mt)), m.T), e.adapt(s, k, sortOf(mt.Key()))), Ty: TBool}
		}
		if isArr(m.T.S) && arrElem(m.T.S) == SBool {
			return SVal{T: Select(m.T, e.adapt(s, k, arrKey(m.T.S))), Ty: TBool}
		}
		e.fail(s, "in %s", m.Ty)
	case "==", "!=":
		a0, b0 := e.eval(s.Args[0]), e.eval(s.Args[1])
		if a0.Nil && !b0.Nil {
			a0, b0 = b0, a0
		}
		var t *Term
		if b0.Nil && a0.T != nil && a0.T.S == SSl {
			t = Eq(SlArr(a0.T), Null)
		} else {
			a, b := e.unify(s, a0, b0)
			t = Eq(a.T, b.T)
		}
		if s.S == "!=" {
			t = Not(t)
		}
		return SVal{T: t, Ty: TBool}
	}
	if s.S == "<<" || s.S == ">>" {
		if a, b := e.eval(s.Args[0]), e.eval(s.Args[1]); a.T != nil && a.T.S == SBV8 && b.T.S == SInt {
			return SVal{T: byteShift(map[string]string{"<<": "bvshl", ">>": "bvlshr"}[s.S], a.T, b.T), Ty: a.Ty}
		}
	}
	a, b := e.unify(s, e.eval(s.Args[0]), e.eval(s.Args[1]))
	switch s.S {
	case "<":
		return SVal{T: x.compare(40, a.T, b.T, a.Ty), Ty: TBool}
	case "<=":
		return SVal{T: e.cmp("<=", a.T, b.T), Ty: TBool}
	case ">":
		return SVal{T: e.cmp("<", b.T, a.T), Ty: TBool}
	case ">=":
		return SVal{T: e.cmp("<=", b.T, a.T), Ty: TBool}
	}
	if a.T.S == SBV8 {
		op := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "&": "bvand", "|": "bvor", "^": "bvxor", "<<": "bvshl", ">>": "bvlshr"}[s.S]
		if s.S == "&^" {
			return SVal{T: bvop("bvand", a.T, mk("bvnot", SBV8, b.T)), Ty: a.Ty}
		}
		if op == "" {
			e.fail(s, "operator %s on bytes", s.S)
		}
		return SVal{T: bvop(op, a.T, b.T), Ty: a.Ty}
	}
	if a.T.S == SStr && s.S == "+" {
		return SVal{T: strCat(a.T, b.T), Ty: a.Ty}
	}
	if a.T.S == SReal {
		return SVal{T: mk(s.S, SReal, a.T, b.T), Ty: a.Ty}
	}
	if a.T.S != SInt {
		e.fail(s, "operator %s on %s", s.S, a.T.S)
	}
	switch s.S {
	case "+":
		return SVal{T: Add(a.T, b.T), Ty: a.Ty}
	case "-":
		return SVal{T: Sub(a.T, b.T), Ty: a.Ty}
	case "*":
		return SVal{T: Mul(a.T, b.T), Ty: a.Ty}
	case "/":
		return SVal{T: Div(a.T, b.T), Ty: a.Ty}
	case "%":
		return SVal{T: Mod(a.T, b.T), Ty: a.Ty}
	case "<<":
		if b.T.num != nil {
			return SVal{T: Mul(BigLit(pow2(uint(b.T.num.Uint64()))), a.T), Ty: a.Ty}
		}
	}
	e.fail(s, "operator %s", s.S)
	return SVal{}
}

func (e *Env) cmp(op string, a, b *Term) *Term {
	if op == "<" {
		return e.x.compare(40, a, b, nil)
	}
	return e.x.compare(45, a, b, nil)
}

func (e *Env) call(s *SExpr) SVal {
	x := e.x
	f := s.Args[0]
	args := s.Args[1:]
	if f.Op == "id" {
		switch f.S {
		case "old":
			return e.atOld().eval(args[0])
		case "pre": // value at loop entry
			n := e.clone()
			if n.loopEntry != nil {
				n.st = n.loopEntry
			}
			return n.eval(args[0])
		case "len", "cap", "arr", "off":
			a := e.eval(args[0])
			if a.T.S == SStr {
				return SVal{T: App("slen", SInt, a.T), Ty: TInt}
			}
			if a.T.S == SRef {
				if m, ok := under(a.Ty).(*types.Map); ok {
					return SVal{T: Select(x.get(e.st, mapCard(m)), a.T), Ty: TInt}
				}
			}
			if isArr(a.T.S) {
				if t, ok := under(a.Ty).(*types.Array); ok {
					return SVal{T: IntLit(t.Len()), Ty: TInt}
				}
			}
			if a.T.S != SSl {
				e.fail(s, "%s of %s", f.S, a.Ty)
			}
			switch f.S {
			case "len":
				return SVal{T: SlLen(a.T), Ty: TInt}
			case "cap":
				return SVal{T: SlCap(a.T), Ty: TInt}
			case "arr":
				return SVal{T: SlArr(a.T), Ty: TRef}
			default:
				return SVal{T: SlOff(a.T), Ty: TInt}
			}
		case "mem": // backing array contents of a slice
			a := e.eval(args[0])
			sl := under(a.Ty).(*types.Slice)
			return SVal{T: Select(x.get(e.st, memComp(sl.Elem())), SlArr(a.T)), Ty: &GArr{TInt, sl.Elem()}}
		case "seq": // contents of a slice as a sequence starting at index 0
			a := e.eval(args[0])
			sl := under(a.Ty).(*types.Slice)
			return SVal{T: shiftArr(Select(x.get(e.st, memComp(sl.Elem())), SlArr(a.T)), SlOff(a.T)), Ty: &GArr{TInt, sl.Elem()}}
		case "fresh":
			a := e.eval(args[0])
			r := a.T
			if r.S == SSl {
				r = SlArr(r)
				return SVal{T: Or(Eq(r, Null), Not(Select(x.get(e.old, allocComp()), r))), Ty: TBool}
			}
			return SVal{T: And(Not(Eq(r, Null)), Not(Select(x.get(e.old, allocComp()), r))), Ty: TBool}
		case "zero":
			t := e.eval(args[0]).TyV
			return SVal{T: zeroOf(t), Ty: t}
		case "alloced":
			a := e.eval(args[0])
			r := a.T
			if r.S == SSl {
				r = SlArr(r)
			}
			return SVal{T: Select(x.get(e.st, allocComp()), r), Ty: TBool}
		case "issub":
			return SVal{T: App("isSub", SBool, e.eval(args[0]).T), Ty: TBool}
		case "chanlen", "chancap", "chanclosed":
			a := e.eval(args[0])
			u := under(a.Ty).(*types.Chan)
			switch f.S {
			case "chanlen":
				return SVal{T: Select(x.get(e.st, chanLen(u)), a.T), Ty: TInt}
			case "chancap":
				return SVal{T: Select(x.get(e.st, chanCap(u)), a.T), Ty: TInt}
			}
			return SVal{T: mk("=", SBool, Select(x.get(e.st, chanClosed(u)), a.T), IntLit(1)), Ty: TBool}
		case "chanbuf": // the values sent, in order
			a := e.eval(args[0])
			u := under(a.Ty).(*types.Chan)
			return SVal{T: Select(x.get(e.st, chanBuf(u)), a.T), Ty: &GArr{TInt, u.Elem()}}
		case "dom":
			a := e.eval(args[0])
			m := under(a.Ty).(*types.Map)
			return SVal{T: Select(x.get(e.st, mapDom(m)), a.T), Ty: &GArr{m.Key(), TBool}}
		case "val":
			a := e.eval(args[0])
			m := under(a.Ty).(*types.Map)
			return SVal{T: Select(x.get(e.st, mapVal(m)), a.T), Ty: &GArr{m.Key(), m.Elem()}}
		case "heap": // the whole component of a field: heap(Type.field)
			n := specText(args[0])
			cs := x.compsNamed(e, n)
			if len(cs) != 1 {
				e.fail(s, "heap(%s)", n)
			}
			c := compTab[cs[0]]
			vt := c.elem
			if vt == nil {
				vt = &GNamed{string(arrElem(c.s)), arrElem(c.s)}
			}
			if c.kind == 'm' {
				vt = &GArr{TInt, c.elem}
			}
			return SVal{T: x.get(e.st, c), Ty: &GArr{TRef, fieldTy(vt)}}
		case "pending": // pending(T.mu): read locks whose release is deferred by the enclosing loops so far
			cs := x.compsNamed(e, specText(args[0]))
			fk := x.rootKey
			if e.fr != nil && e.fr.fn != nil {
				fk = e.fr.fn.Key
			}
			return SVal{T: x.get(e.st, pendComp(fk, compTab[cs[0]])), Ty: &GArr{TRef, TInt}}
		case "ord":
			return SVal{T: ordTerm(e.eval(args[0]).T), Ty: TReal}
		case "int":
			return SVal{T: e.adapt(s, e.eval(args[0]), SInt), Ty: TInt}
		case "byte":
			return SVal{T: e.adapt(s, e.eval(args[0]), SBV8), Ty: TByte}
		case "real":
			return SVal{T: e.adapt(s, e.eval(args[0]), SReal), Ty: TReal}
		case "bit": // bit(b, i): bit i (0 = least significant) of a byte
			b, i := e.eval(args[0]), e.eval(args[1])
			return SVal{T: bitOf(b.T, e.adapt(s, i, SInt)), Ty: TBool}
		case "box":
			a := e.eval(args[0])
			return SVal{T: boxTerm(a.T, a.Ty), Ty: types.NewInterfaceType(nil, nil)}
		case "unbox": // unbox(ty(T), a)
			t := e.eval(args[0]).TyV
			a := e.eval(args[1])
			v, _ := x.unbox(e.st, a.T, t)
			return SVal{T: v, Ty: t}
		case "dyntype": // the dynamic type of an interface value, as a number
			return SVal{T: App("dynType", SInt, e.termOf(s, e.eval(args[0]))), Ty: TInt}
		case "istype":
			t := e.eval(args[0]).TyV
			a := e.eval(args[1])
			_, is := x.unbox(e.st, a.T, t)
			return SVal{T: is, Ty: TBool}
		case "str": // str(b): the string of a byte slice
			a := e.eval(args[0])
			m := x.get(e.st, memComp(TByte))
			return SVal{T: bytesStr(Select(m, SlArr(a.T)), SlOff(a.T), SlLen(a.T)), Ty: TStr}
		case "text": // text(m, o, n): the string of n bytes of an array of bytes from o on
			m := e.eval(args[0])
			return SVal{T: bytesStr(m.T, e.adapt(s, e.eval(args[1]), SInt), e.adapt(s, e.eval(args[2]), SInt)), Ty: TStr}
		case "sent", "recvd", "closes", "exhausted", "idle", "heard", "sentval", "recvval", "spawns", "wgadds", "wgdones", "wgwaits", "panics", "onces", "atomadds", "lastload", "cases", "lastpanic", "panicval", "panicking", "lasterr", "doneOf":
			if v, ok := e.specEvent(s, f.S, args); ok {
				return v
			}
		case "calls": // number of calls of a callback (option trace)
			fv := e.eval(args[0])
			return SVal{T: Select(x.get(e.st, comp("T|n", Arr(SFn, SInt), TMath, 't')), e.termOf(s, fv)), Ty: TInt}
		case "callarg": // callarg(f, k, j, ty(T)): argument j of call k
			fv := e.eval(args[0])
			k := e.eval(args[1])
			j := e.eval(args[2]).T.num.Int64()
			t := e.eval(args[3]).TyV
			c := comp(fmt.Sprintf("T|arg%d|%s", j, sortOf(t)), Arr(SFn, Arr(SInt, sortOf(t))), nil, 't')
			return SVal{T: Select(Select(x.get(e.st, c), e.termOf(s, fv)), k.T), Ty: t}
		case "jsonField": // jsonField(text, F, ty(T))
			ty := e.eval(args[2]).TyV
			return SVal{T: jsonField(e.eval(args[0]).T, args[1].S, ty), Ty: ty}
		case "jsonOK": // the text is the encoding of a record
			return SVal{T: App("jsonOK", SBool, e.eval(args[0]).T), Ty: TBool}
		case "runeW":
			runeAxioms()
			return SVal{T: App("runeW", SInt, e.eval(args[0]).T, e.eval(args[1]).T), Ty: TInt}
		case "runeAt":
			runeAxioms()
			return SVal{T: App("runeAt", SInt, e.eval(args[0]).T, e.eval(args[1]).T), Ty: TInt}
		case "sameobj":
			a, b := e.unify(s, e.eval(args[0]), e.eval(args[1]))
			return SVal{T: Eq(a.T, b.T), Ty: TBool}
		case "nil":
		}
		// a local function value or parameter applied
		if v, ok := e.vars[f.S]; ok && v.Ty != nil {
			return e.apply(s, v, args)
		}
		if d, ok := x.set.Defs[f.S]; ok {
			var as []SVal
			for _, a := range args {
				as = append(as, e.eval(a))
			}
			return e.applyDef(s, d, as)
		}
		if v, ok := e.lookupLocal(f.S); ok {
			return e.apply(s, v, args)
		}
		if v, ok := e.params[f.S]; ok {
			return e.apply(s, v, args)
		}
		e.fail(s, "unknown function %s", f.S)
	}
	if f.Op == "sel" {
		v := e.eval(f)
		return e.apply(s, v, args)
	}
	e.fail(s, "call")
	return SVal{}
}

// apply applies a function value (pure callback).
func (e *Env) apply(s *SExpr, f SVal, args []*SExpr) SVal {
	x := e.x
	if f.Clo == nil && f.T != nil && x.cloTerms[f.T] != nil {
		f.Clo = x.cloTerms[f.T]
	}
	if f.Clo != nil {
		// evaluate the closure's body symbolically when it is a pure expression
		var vs []Val
		for _, a := range args {
			v := e.eval(a)
			vs = append(vs, Val{T: v.T, Ty: v.Ty})
		}
		st := e.st.clone()
		x.dry++
		r := x.callClosure(x.root, st, f.Clo, vs, nil)
		x.dry--
		if len(r) == 1 && len(r[0].vs) == 1 {
			return SVal{T: r[0].vs[0].T, Ty: r[0].vs[0].Ty}
		}
		e.fail(s, "closure is not a pure expression")
	}
	sig, ok := under(f.Ty).(*types.Signature)
	if !ok {
		e.fail(s, "%s is not a function", f.Ty)
	}
	ts := []*Term{f.T}
	for i, a := range args {
		v := e.eval(a)
		ts = append(ts, e.adapt(s, v, sortOf(sig.Params().At(i).Type())))
	}
	rt := sig.Results().At(0).Type()
	return SVal{T: App(appName(sig, 0), sortOf(rt), ts...), Ty: rt}
}

func bitOf(b, i *Term) *Term {
	one := mk("#b1", "(_ BitVec 1)")
	if i.num != nil {
		k := i.num.Int64()
		return mk("=", SBool, mk(fmt.Sprintf("(_ extract %d %d)", k, k), "(_ BitVec 1)", b), one)
	}
	r := App("bitof", SBool, b, i)
	v, k := BoundVar("b", SBV8), BoundVar("k", SInt)
	app := App("bitof", SBool, v, k)
	t := False
	for j := 0; j < 8; j++ {
		t = Ite(mk("=", SBool, k, IntLit(int64(j))), mk("=", SBool, mk(fmt.Sprintf("(_ extract %d %d)", j, j), "(_ BitVec 1)", v), one), t)
	}
	addAxiom("bit of a byte", []string{"bitof"}, Forall([]*Term{v, k}, [][]*Term{{app}}, mk("=", SBool, app, t)))
	return r
}

// inferTypes matches a specification type against an actual type.
func inferTypes(e *Env, t *SType, a types.Type, tpar map[string]bool, out map[string]types.Type) {
	if a == nil {
		return
	}
	if t.Kind == "name" && tpar[t.Name] && t.Pkg == "" {
		if _, ok := out[t.Name]; !ok {
			out[t.Name] = a
		}
		return
	}
	switch t.Kind {
	case "ptr":
		if p, ok := under(a).(*types.Pointer); ok {
			inferTypes(e, t.Args[0], p.Elem(), tpar, out)
		}
	case "slice":
		if p, ok := under(a).(*types.Slice); ok {
			inferTypes(e, t.Args[0], p.Elem(), tpar, out)
		}
	case "arr":
		switch p := under(a).(type) {
		case *GArr:
			inferTypes(e, t.Args[0], p.K, tpar, out)
			inferTypes(e, t.Args[1], p.V, tpar, out)
		case *types.Array:
			inferTypes(e, t.Args[1], p.Elem(), tpar, out)
		}
	case "map":
		if p, ok := under(a).(*types.Map); ok {
			inferTypes(e, t.Args[0], p.Key(), tpar, out)
			inferTypes(e, t.Args[1], p.Elem(), tpar, out)
		}
	case "func":
		if f, ok := under(a).(*types.Signature); ok && f.Params().Len() == len(t.Args)-1 && f.Results().Len() == 1 {
			for i := 0; i < f.Params().Len(); i++ {
				inferTypes(e, t.Args[i], f.Params().At(i).Type(), tpar, out)
			}
			inferTypes(e, t.Args[len(t.Args)-1], f.Results().At(0).Type(), tpar, out)
		}
	case "name":
		if n, ok := types.Unalias(a).(*types.Named); ok {
			for i, ta := range t.Args {
				if i < n.TypeArgs().Len() {
					inferTypes(e, ta, n.TypeArgs().At(i), tpar, out)
				}
			}
			if len(t.Args) == 0 && n.TypeArgs().Len() > 0 {
				// "Node" standing for Node[all parameters]
				for i := 0; i < n.TypeArgs().Len(); i++ {
					nm := n.Origin().TypeParams().At(i).Obj().Name()
					if tpar[nm] {
						if _, ok := out[nm]; !ok {
							out[nm] = n.TypeArgs().At(i)
						}
					}
				}
			}
		}
	}
}

func (e *Env) defEnv(s *SExpr, pkg string, tpar []string, params []SParam, args []SVal) (*Env, []types.Type) {
	n := e.clone()
	n.fr = nil
	n.nolocals = true
	n.params = nil
	n.spec = nil
	n.pvars = nil
	n.results = nil
	n.resNames = nil
	n.depth++
	if n.depth > 60 {
		e.fail(s, "definitions nested too deeply")
	}
	if p := e.x.pr.specPkg(pkg); p != nil {
		n.pkg = p
	}
	set := map[string]bool{}
	for _, t := range tpar {
		set[t] = true
	}
	out := map[string]types.Type{}
	for i, p := range params {
		if i < len(args) {
			if args[i].TyV != nil {
				continue
			}
			inferTypes(e, p.Ty, args[i].Ty, set, out)
		}
	}
	n.tps = map[string]types.Type{}
	n.tpOrder = nil
	if len(tpar) == 0 {
		// inherits the type parameters of the context
		n.tps = e.tps
		n.tpOrder = e.tpOrder
	}
	for _, t := range tpar {
		ty, ok := out[t]
		if !ok {
			ty = e.tps[t]
		}
		if ty == nil {
			e.fail(s, "cannot infer type argument %s", t)
		}
		n.tps[t] = ty
		n.tpOrder = append(n.tpOrder, ty)
	}
	n.vars = map[string]SVal{}
	var tys []types.Type
	for i, p := range params {
		ty := n.typ(p.Ty)
		tys = append(tys, ty)
		a := args[i]
		if a.Clo != nil && a.T == nil {
			n.vars[p.Name] = SVal{Clo: a.Clo, Ty: a.Ty}
			continue
		}
		t := e.adapt(s, a, sortOf(ty))
		// a ghost view of the argument's own type keeps more information
		if a.Ty != nil && a.T == t {
			if _, isG := ty.(*GArr); !isG {
				ty = a.Ty
			}
		}
		n.vars[p.Name] = SVal{T: t, Ty: ty}
	}
	return n, tys
}

func (e *Env) applyDef(s *SExpr, d *Def, args []SVal) SVal {
	if len(args) != len(d.Params) {
		e.fail(s, "%s takes %d arguments", d.Name, len(d.Params))
	}
	n, _ := e.defEnv(s, d.Pkg, d.TPar, d.Params, args)
	ret := n.typ(d.Ret)
	if d.Kind == "def" {
		v := n.eval(d.Body)
		if v.T == nil {
			v.T = n.adapt(s, v, sortOf(ret))
		}
		if v.T.S != sortOf(ret) {
			v.T = n.adapt(d.Body, v, sortOf(ret))
		}
		return SVal{T: v.T, Ty: ret}
	}
	name := "d$" + d.Name
	for _, t := range d.TPar {
		name += "$" + tkey(n.tps[t])
	}
	var ts []*Term
	for _, p := range d.Params {
		v := n.vars[p.Name]
		ts = append(ts, n.termOf(s, v))
	}
	t := App(name, sortOf(ret), ts...)
	if d.Kind == "rec" {
		key := sanitize(name)
		if _, ok := recDefs[key]; !ok {
			ne := n.clone()
			recDefs[key] = &recDef{d: d, env: ne}
		}
	}
	if d.Kind == "logic" && len(d.TPar) == 0 {
		e.x.autoAxioms(d.Name)
	}
	return SVal{T: t, Ty: ret}
}

var autoDone = map[string]bool{}

// autoAxioms states the axioms with a trigger that mentions the logic function; they are part of every query with one of its functions.
func (x *Exec) autoAxioms(fn string) {
	var names []string
	for n, l := range x.set.Lemmas {
		if !l.Axiom || !l.Auto || len(l.TPar) > 0 {
			continue
		}
		for _, tr := range l.Trig {
			for _, t := range tr {
				if callsName(t, fn) {
					names = append(names, n)
				}
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		l := x.set.Lemmas[n]
		x.trusted["axiom "+n] = l.Reason
		if autoDone[n] {
			continue
		}
		autoDone[n] = true
		st := &State{locals: map[*types.Var]Val{}, comps: map[string]*Term{}, its: map[int]*Term{}, pos: map[int]*Term{}, vis: map[int]*Term{}}
		e := &Env{x: x, st: st, old: st, nolocals: true, tps: map[string]types.Type{}, vars: map[string]SVal{}, spec: &FuncSpec{Key: "axiom " + n, Loops: map[int]*LoopSpec{}, Opt: map[string]bool{}}}
		if p := x.pr.specPkg(l.Pkg); p != nil {
			e.pkg = p
		}
		var vs []*Term
		for _, p := range l.Params {
			ty := e.typ(p.Ty)
			v := BoundVar("x_"+p.Name, sortOf(ty))
			vs = append(vs, v)
			e.vars[p.Name] = SVal{T: v, Ty: ty}
		}
		var pats [][]*Term
		need := map[string]bool{}
		var ops func(t *Term)
		ops = func(t *Term) {
			if strings.HasPrefix(t.Op, "d$") {
				need[t.Op] = true
			}
			for _, a := range t.Args {
				ops(a)
			}
		}
		for _, tr := range l.Trig {
			var pat []*Term
			for _, t := range tr {
				v := e.eval(t)
				pat = append(pat, v.T)
				ops(v.T)
			}
			pats = append(pats, pat)
		}
		var req, ens []*Term
		for _, r := range l.Requires {
			req = append(req, x.specBool(e, r.E))
		}
		for _, r := range l.Ensures {
			ens = append(ens, x.specBool(e, r.E))
		}
		var ns []string
		for o := range need {
			ns = append(ns, o)
		}
		sort.Strings(ns)
		addAxiom(n, ns, Forall(vs, pats, Implies(And(req...), And(ens...))))
	}
}

type recDef struct {
	d   *Def
	env *Env
}

var recDefs = map[string]*recDef{}
var recUnf = map[*Term]*Term{}

// unfoldRec gives the defining equation of a recursive application.
func unfoldRec(t *Term) *Term {
	if r, ok := recUnf[t]; ok {
		return r
	}
	rd := recDefs[t.Op]
	if rd == nil {
		return nil
	}
	n := rd.env.clone()
	n.vars = map[string]SVal{}
	n.depth = 0
	for i, p := range rd.d.Params {
		n.vars[p.Name] = SVal{T: t.Args[i], Ty: rd.env.vars[p.Name].Ty}
	}
	// recursive functions do not depend on the state
	n.st = &State{locals: map[*types.Var]Val{}, comps: map[string]*Term{}}
	v := n.eval(rd.d.Body)
	if v.T.S != t.S {
		v.T = n.adapt(rd.d.Body, v, t.S)
	}
	eq := mk("=", SBool, t, v.T)
	recUnf[t] = eq
	return eq
}

func specText(s *SExpr) string {
	switch s.Op {
	case "id":
		return s.S
	case "sel":
		return specText(s.Args[0]) + "." + s.S
	case "call":
		var as []string
		for _, a := range s.Args[1:] {
			as = append(as, specText(a))
		}
		return specText(s.Args[0]) + "(" + strings.Join(as, ",") + ")"
	case "idx":
		return specText(s.Args[0]) + "[" + specText(s.Args[1]) + "]"
	case "type":
		return "ty"
	}
	return "?"
}

// compsNamed resolves a component name of a modifies clause.
func (x *Exec) compsNamed(e *Env, name string) []string {
	open := strings.IndexByte(name, '(')
	if open > 0 && strings.HasSuffix(name, ")") {
		inner := name[open+1 : len(name)-1]
		ts := parseTypes(inner)
		var tys []types.Type
		for _, t := range ts {
			tys = append(tys, e.typ(t))
		}
		switch name[:open] {
		case "M":
			return []string{memComp(tys[0]).name}
		case "P":
			return []string{cellComp(tys[0]).name}
		case "Map":
			m := types.NewMap(tys[0], tys[1])
			return []string{mapDom(m).name, mapVal(m).name, mapCard(m).name}
		}
		panic(specErr{"unknown component " + name})
	}
	switch name {
	case "alloc":
		return []string{allocComp().name}
	case "trace":
		var out []string
		for n := range compTab {
			if strings.HasPrefix(n, "T|") {
				out = append(out, n)
			}
		}
		sort.Strings(out)
		return out
	case "sections":
		return []string{comp("$sections", SInt, TMath, 's').name}
	}
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		if g, ok := x.set.GVar[name]; ok {
			return []string{e.ghostVar(g).name}
		}
		panic(specErr{"unknown component " + name})
	}
	ts := parseTypes(name[:i])
	ty := e.typ(ts[0])
	f := name[i+1:]
	if c, _ := e.ghostComp(ty, f); c != nil {
		return []string{c.name}
	}
	su, ok := under(ty).(*types.Struct)
	if !ok {
		panic(specErr{"unknown component " + name})
	}
	for j := 0; j < su.NumFields(); j++ {
		if su.Field(j).Name() == f {
			return []string{fieldComp(ty, su.Field(j)).name}
		}
	}
	panic(specErr{"unknown component " + name})
}

func parseTypes(s string) []*SType {
	toks, err := lexSpec("modifies", s)
	if err != nil {
		panic(specErr{err.Error()})
	}
	for i := range toks {
		toks[i].bol = false
	}
	p := &sparser{file: "modifies", t: toks}
	var out []*SType
	for {
		out = append(out, p.typ())
		if !p.accept(",") {
			break
		}
	}
	return out
}

// modRefs evaluates the reference lists of modifies clauses: (exceptions, everything may change).
func (x *Exec) modRefs(e *Env, ms []*ModClause) ([]*Term, bool) {
	var out []*Term
	for _, m := range ms {
		if m.All {
			return nil, true
		}
		for _, a := range m.At {
			v := e.eval(a)
			t := e.termOf(a, v)
			if t.S == SSl {
				t = SlArr(t)
			}
			out = append(out, t)
		}
	}
	return out, false
}

// shiftArr is the array i -> a[o+i].
func shiftArr(a, o *Term) *Term {
	if o.num != nil && o.num.Sign() == 0 {
		return a
	}
	n := "shift$" + sanitize(string(a.S))
	av, ov, i := BoundVar("a", a.S), BoundVar("o", SInt), BoundVar("i", SInt)
	t := App(n, a.S, av, ov)
	sel := mk("select", arrElem(a.S), t, i)
	addAxiom("shifted sequence", []string{n}, Forall([]*Term{av, ov, i}, [][]*Term{{sel}}, Eq(sel, mk("select", arrElem(a.S), av, Add(ov, i)))))
	// by extensionality
	addAxiom("shifted by nothing", []string{n}, Forall([]*Term{av, ov}, [][]*Term{{t}}, Implies(Eq(ov, IntLit(0)), Eq(t, av))))
	v := BoundVar("v", arrElem(a.S))
	ts := App(n, a.S, mk("store", a.S, av, i, v), ov)
	addAxiom("shifted update", []string{n}, Forall([]*Term{av, ov, i, v}, [][]*Term{{ts}}, Eq(ts, mk("store", a.S, t, Sub(i, ov), v))))
	return App(n, a.S, a, o)
}

// specPkg finds a package by its path or, for a package of the module, by the short name its specification uses.
func (pr *Program) specPkg(name string) *Pkg {
	if p := pr.Pkgs[name]; p != nil {
		return p
	}
	for _, p := range pr.Pkgs {
		if pkgShort(p.Path) == name {
			return p
		}
	}
	if t := pr.Std[name]; t != nil {
		return &Pkg{Path: name, Types: t}
	}
	return nil
}
