package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// Frame is one activation (the function verified, an inlined callee or a closure body).
type Frame struct {
	fn      *FuncInfo
	pkg     *Pkg
	sub     TSubst
	up      *Frame // caller of an inlined function
	def     *Frame // defining frame of a closure
	sig     *types.Signature
	results []*types.Var
	path    string
	callPos token.Pos
	tail    *Frame                    // the function that was inlined for a body that is one call
	argOf   map[*types.Var]*types.Var // of an inlined function: variables of the caller given as arguments, and the parameters
	body    *ast.BlockStmt
	spec    *FuncSpec
	boxed   map[*types.Var]bool
	nloop   int
	depth   int
}

type Obligation struct {
	Fn      string
	Kind    string
	Name    string
	Pos     string
	Tags    []string
	Asm     []*Term
	Goal    *Term
	Expect  string // "unsat" (proof) or "sat" (vacuity check: must not be provable)
	Result  string
	Solver  string
	Ms      int64
	Out     string
	Trivial bool
	Unfold  int
	Inst    *Frame
	Clause  *Clause // the written invariant
	Derived string  // which derived invariant
}

type Exec struct {
	pr        *Program
	set       *SpecSet
	root      *Frame
	rootKey   string
	spare     *spare // of a second proof
	spec      *FuncSpec
	oblig     []*Obligation
	dry       int
	dryBase   *State
	rec       *writeRec
	old       *State
	typed     map[*Term]*Term
	loopOrd   map[string]int
	helperOrd map[string]int
	curNode   ast.Node           // statement being executed
	cloTerms  map[*Term]*Closure // closures that were stored somewhere
	hookSpec  *FuncSpec          // contract of the goroutine or function value being verified
	hookPre   *State             // and its entry state
	goOrd     map[token.Pos]int  // numbers of the go statements
	applying  bool
	hookVars  map[string]SVal // and the variables at that point
	hookBind  map[string]SVal
	hookLit   *ast.FuncLit               // the function literal it is about
	callFr    *Frame                     // where an unknown function is called
	cloSpec   map[*ast.FuncLit]*FuncSpec // local functions with a contract
	cloBusy   map[*ast.FuncLit]*cloRun   // those being verified
	nloops    int
	inlining  map[string]int
	used      map[string]bool // contracts used
	inlined   map[string]bool
	trusted   map[string]string
	notes     map[string]bool
	writes    map[string]map[string]bool
	prove     func(asm []*Term, goal *Term, ms int) bool
	ghostIt   map[string]*Term
	steps     int
	cloSeq    int
	nstates   int
	unfolds   int
	params    map[string]SVal
	rename    map[string]string
	wip       map[string]bool
	lemUsed   map[string]bool
	strict    bool
	pvars     map[string]*types.Var
	lemma     *Lemma
	lemVars   map[string]SVal
	exits     int
	sh        *shared
}

type unsupportedErr struct{ msg string }

func (x *Exec) unsupported(format string, a ...any) {
	panic(unsupportedErr{fmt.Sprintf(format, a...)})
}

type SV struct {
	st *State
	v  Val
}
type SVs struct {
	st *State
	vs []Val
}

type Out struct {
	st    *State
	kind  string // next, break, continue, return
	label string
	vals  []Val
}

func (x *Exec) pos(n ast.Node) string {
	p := x.pr.Fset.Position(n.Pos())
	f := p.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) check(st *State, goal *Term, kind, name string, n ast.Node, tags []string) {
	if st.dead() {
		return
	}
	if x.dry > 0 {
		st.assume(goal)
		return
	}
	o := &Obligation{Fn: x.rootKey, Kind: kind, Name: name, Tags: tags, Goal: goal, Expect: "unsat"}
	if n != nil {
		o.Pos = x.pos(n)
	}
	switch kind {
	case "nil", "index", "slice", "make", "div", "shift", "type-assertion":
		// a run-time panic, allowed under the documented panic condition
		if x.spec != nil && len(x.spec.Panics) > 0 && x.root != nil && goal != True {
			o.Goal = Or(goal, x.panicCond(st))
		}
	}
	if goal == True {
		o.Trivial = true
	} else {
		o.Asm = st.pcList()
	}
	o.Unfold = x.unfolds
	x.oblig = append(x.oblig, o)
	st.assume(goal)
}

// ---- types in a frame ----

func (fr *Frame) typeOf(e ast.Expr) types.Type {
	t := fr.pkg.Info.TypeOf(e)
	if t == nil {
		return nil
	}
	return substT(t, fr.sub)
}

func (fr *Frame) varType(v *types.Var) types.Type { return substT(v.Type(), fr.sub) }

// ---- expressions ----

func (x *Exec) eval1(fr *Frame, st *State, e ast.Expr) (*State, Val) {
	r := x.eval(fr, st, e)
	if len(r) != 1 {
		x.unsupported("expression with several paths where one is needed at %s", x.pos(e))
	}
	return r[0].st, r[0].v
}

func (x *Exec) evalN(fr *Frame, st *State, es []ast.Expr) []SVs {
	cur := []SVs{{st, nil}}
	for _, e := range es {
		var nx []SVs
		for _, c := range cur {
			for _, r := range x.eval(fr, c.st, e) {
				nx = append(nx, SVs{r.st, append(append([]Val(nil), c.vs...), r.v)})
			}
		}
		cur = nx
	}
	return cur
}

func one(st *State, v Val) []SV { return []SV{{st, v}} }

func (x *Exec) constVal(cv constant.Value, ty types.Type) Val {
	return Val{T: x.constTerm(cv, ty), Ty: ty}
}

func (x *Exec) constTerm(cv constant.Value, ty types.Type) *Term {
	if _, isI := under(ty).(*types.Interface); isI {
		if _, tp := types.Unalias(ty).(*types.TypeParam); !tp {
			var t types.Type
			switch cv.Kind() {
			case constant.String:
				t = TStr
			case constant.Bool:
				t = TBool
			default:
				t = TInt
			}
			return x.box(x.constTerm(cv, t), t)
		}
	}
	switch cv.Kind() {
	case constant.Bool:
		return BoolLit(constant.BoolVal(cv))
	case constant.String:
		return x.strLit(constant.StringVal(cv))
	}
	s := sortOf(ty)
	if s == SReal {
		cf := constant.ToFloat(cv)
		n, d := constant.Num(cf), constant.Denom(cf)
		nb, _ := new(big.Int).SetString(n.ExactString(), 10)
		db, _ := new(big.Int).SetString(d.ExactString(), 10)
		if nb == nil || db == nil {
			x.unsupported("float constant %s", cv)
		}
		t := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(nb), db)
		if nb.Sign() < 0 {
			t = "(- " + t + ")"
		}
		return mk(t, SReal)
	}
	ci := constant.ToInt(cv)
	b, ok := new(big.Int).SetString(ci.ExactString(), 10)
	if !ok {
		x.unsupported("constant %s", cv)
	}
	if s == SBV8 {
		return BVLit(int(new(big.Int).Mod(b, big.NewInt(256)).Int64()))
	}
	if s == SInt {
		return BigLit(b)
	}
	x.unsupported("constant %s of type %s", cv, ty)
	return nil
}

var strLits = map[string]*Term{}

func (x *Exec) strLit(s string) *Term { return strLit(s) }

func strLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	var t *Term
	if s == "" {
		t = Const("str.empty", SStr)
	} else {
		t = Const(fmt.Sprintf("strlit!%d", len(strLits)), SStr)
	}
	strLits[s] = t
	fs := []*Term{Eq(App("slen", SInt, t), IntLit(int64(len(s))))}
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			fs = append(fs, Eq(App("sat", SBV8, t, IntLit(int64(i))), BVLit(int(s[i]))))
		}
	}
	addAxiom("string literal", []string{t.Op}, And(fs...))
	return t
}

func init() {
	strLit("")
}

func (x *Exec) eval(fr *Frame, st *State, e ast.Expr) []SV {
	x.steps++
	if x.steps > 2000000 {
		x.unsupported("too many execution steps")
	}
	if tv, ok := fr.pkg.Info.Types[e]; ok && tv.Value != nil {
		return one(st, x.constVal(tv.Value, substT(tv.Type, fr.sub)))
	}
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.eval(fr, st, n.X)
	case *ast.Ident:
		return one(st, x.evalIdent(fr, st, n))
	case *ast.BasicLit:
		x.unsupported("literal %s", n.Value)
	case *ast.FuncLit:
		return one(st, Val{Clo: &Closure{Lit: n, Fr: fr, Sub: fr.sub}, Ty: fr.typeOf(n)})
	case *ast.CompositeLit:
		return x.evalComposite(fr, st, n, fr.typeOf(n))
	case *ast.SelectorExpr:
		return x.evalSelector(fr, st, n)
	case *ast.IndexExpr:
		// generic instantiation f[T] or method expression
		if tv, ok := fr.pkg.Info.Types[n.X]; ok {
			if _, isSig := tv.Type.(*types.Signature); isSig {
				return x.eval(fr, st, n.X)
			}
		}
		bt := under(fr.typeOf(n.X))
		if m, ok := bt.(*types.Map); ok {
			var out []SV
			for _, r := range x.evalN(fr, st, []ast.Expr{n.X, n.Index}) {
				v, _ := x.mapGet(r.st, m, r.vs[0].T, x.coerce(r.st, r.vs[1], m.Key()).T)
				out = append(out, SV{r.st, v})
			}
			return out
		}
		if b, ok := bt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var out []SV
			for _, r := range x.evalN(fr, st, []ast.Expr{n.X, n.Index}) {
				i := x.toInt(r.vs[1].T)
				s := r.vs[0].T
				r.st.assume(And(strFacts(s)...))
				x.check(r.st, And(Le(IntLit(0), i), Lt(i, App("slen", SInt, s))), "index", "string index in range: "+x.src(n), n, nil)
				out = append(out, SV{r.st, Val{T: App("sat", SBV8, s, i), Ty: TByte}})
			}
			return out
		}
		var out []SV
		for _, r := range x.place(fr, st, n) {
			out = append(out, SV{r.st, x.load(r.st, r.p)})
		}
		return out
	case *ast.IndexListExpr:
		return x.eval(fr, st, n.X)
	case *ast.SliceExpr:
		return x.evalSlice(fr, st, n)
	case *ast.StarExpr:
		var out []SV
		for _, r := range x.place(fr, st, n) {
			out = append(out, SV{r.st, x.load(r.st, r.p)})
		}
		return out
	case *ast.TypeAssertExpr:
		var out []SV
		for _, r := range x.eval(fr, st, n.X) {
			t := fr.typeOf(n.Type)
			v, ok := x.unbox(r.st, r.v.T, t)
			x.check(r.st, ok, "type-assertion", "type assertion succeeds: "+x.src(n), n, nil)
			out = append(out, SV{r.st, Val{T: v, Ty: t}})
		}
		return out
	case *ast.UnaryExpr:
		return x.evalUnary(fr, st, n)
	case *ast.BinaryExpr:
		return x.evalBinary(fr, st, n)
	case *ast.CallExpr:
		var out []SV
		for _, r := range x.evalCall(fr, st, n) {
			var v Val
			if len(r.vs) == 1 {
				v = r.vs[0]
			} else if len(r.vs) > 1 {
				x.unsupported("multi-value in single-value context at %s", x.pos(n))
			}
			out = append(out, SV{r.st, v})
		}
		return out
	}
	x.unsupported("expression %T at %s", e, x.pos(e))
	return nil
}

func (x *Exec) src(n ast.Node) string {
	return exprString(n)
}

func (x *Exec) evalIdent(fr *Frame, st *State, n *ast.Ident) Val {
	obj := fr.pkg.Info.ObjectOf(n)
	switch o := obj.(type) {
	case *types.Nil:
		return Val{T: nil, Ty: types.Typ[types.UntypedNil]}
	case *types.Var:
		return x.readVar(fr, st, o)
	case *types.Func:
		return x.funcVal(fr, o, n)
	}
	if n.Name == "true" {
		return Val{T: True, Ty: TBool}
	}
	if n.Name == "false" {
		return Val{T: False, Ty: TBool}
	}
	x.unsupported("identifier %s", n.Name)
	return Val{}
}

func (x *Exec) readVar(fr *Frame, st *State, o *types.Var) Val {
	if v, ok := st.locals[o]; ok {
		if x.isBoxed(fr, o) {
			return x.load(st, x.boxPlace(v, fr.varType(o)))
		}
		return v
	}
	return x.globalVal(st, o)
}

func (x *Exec) boxPlace(v Val, ty types.Type) *Place {
	if _, ok := isStructVal(ty); ok {
		return &Place{kind: "obj", ref: v.T, Ty: ty}
	}
	return &Place{kind: "cell", c: cellComp(ty), ref: v.T, Ty: ty}
}

func (x *Exec) isBoxed(fr *Frame, v *types.Var) bool {
	for f := fr; f != nil; {
		if f.boxed[v] {
			return true
		}
		if f.def != nil {
			f = f.def
		} else {
			f = nil
		}
	}
	return false
}

func (x *Exec) funcVal(fr *Frame, o *types.Func, id *ast.Ident) Val {
	sub := TSubst{}
	if inst, ok := fr.pkg.Info.Instances[id]; ok {
		sig := o.Origin().Type().(*types.Signature)
		for i := 0; i < sig.TypeParams().Len(); i++ {
			sub[sig.TypeParams().At(i)] = substT(inst.TypeArgs.At(i), fr.sub)
		}
	}
	if fi, ok := x.pr.Funcs[o.Origin()]; ok {
		return Val{Clo: &Closure{Fn: fi, Sub: sub}, Ty: fr.typeOf(id)}
	}
	return Val{Clo: &Closure{Std: o, Sub: sub}, Ty: fr.typeOf(id)}
}

func (x *Exec) isGlobal(v *types.Var) bool {
	return v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// globalVal reads a package-level variable; they are treated as constants holding their initial value.
func (x *Exec) globalVal(st *State, v *types.Var) Val {
	if !x.isGlobal(v) {
		x.unsupported("variable %s has no value", v.Name())
	}
	p := x.pr.Pkgs[v.Pkg().Path()]
	if p == nil {
		t := Const("g$"+sanitize(pkgShort(v.Pkg().Path())+"."+v.Name()), sortOf(v.Type()))
		x.assumeType(st, t, v.Type())
		if t.S == SAny {
			st.assume(Not(Eq(t, zeroOf(v.Type()))))
		}
		return Val{T: t, Ty: v.Type()}
	}
	if x.globalWritten(p, v) {
		x.unsupported("package variable %s is changed after its initialization", v.Name())
	}
	if v.Exported() {
		x.notes["package variable "+pkgShort(v.Pkg().Path())+"."+v.Name()+" is assumed to keep its initial value (no code of its package changes it)"] = true
	}
	for _, in := range p.Info.InitOrder {
		for i, l := range in.Lhs {
			if l != v {
				continue
			}
			if len(in.Lhs) == 1 {
				_ = i
				return x.globalInit(st, p, v, in.Rhs)
			}
		}
	}
	t := Const("g$"+sanitize(pkgShort(v.Pkg().Path())+"."+v.Name()), sortOf(v.Type()))
	return Val{T: t, Ty: v.Type()}
}

// globalWritten: the package assigns to the variable or takes its address.
func (x *Exec) globalWritten(p *Pkg, v *types.Var) bool {
	if w, ok := x.pr.written[v]; ok {
		return w
	}
	is := func(e ast.Expr) bool {
		for {
			switch n := ast.Unparen(e).(type) {
			case *ast.Ident:
				return p.Info.ObjectOf(n) == v
			case *ast.IndexExpr: // an element of an array
				if _, ok := under(v.Type()).(*types.Array); !ok {
					return false
				}
				e = n.X
				continue
			}
			return false
		}
	}
	w := false
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					w = w || is(l)
				}
			case *ast.IncDecStmt:
				w = w || is(s.X)
			case *ast.UnaryExpr:
				w = w || s.Op == token.AND && is(s.X)
			case *ast.RangeStmt:
				w = w || s.Key != nil && is(s.Key) || s.Value != nil && is(s.Value)
			}
			return true
		})
	}
	if x.pr.written == nil {
		x.pr.written = map[*types.Var]bool{}
	}
	x.pr.written[v] = w
	return w
}

func (x *Exec) globalInit(st *State, p *Pkg, v *types.Var, rhs ast.Expr) Val {
	fr := &Frame{pkg: p, path: "global"}
	switch n := rhs.(type) {
	case *ast.Ident:
		if f, ok := p.Info.ObjectOf(n).(*types.Func); ok {
			return x.funcVal(fr, f, n)
		}
	case *ast.BasicLit, *ast.FuncLit:
		r := x.eval(fr, st, n)
		return r[0].v
	case *ast.CallExpr:
		// a call of a function whose contract says what its result is
		var f *types.Func
		switch fn := ast.Unparen(n.Fun).(type) {
		case *ast.Ident:
			f, _ = p.Info.ObjectOf(fn).(*types.Func)
		case *ast.SelectorExpr:
			f, _ = p.Info.ObjectOf(fn.Sel).(*types.Func)
		}
		if f != nil && f.Pkg() != nil {
			if sp := x.set.Funcs[f.Pkg().Path()+"."+f.Name()]; sp != nil && sp.Opt["initial"] {
				if rs := x.eval(fr, st, n); len(rs) == 1 && rs[0].st == st {
					t := Const("g$"+sanitize(pkgShort(v.Pkg().Path())+"."+v.Name()), sortOf(v.Type()))
					st.assume(Eq(t, rs[0].v.T))
					x.assumeType(st, t, v.Type())
					return Val{T: t, Ty: v.Type()}
				}
			}
		}
	case *ast.CompositeLit:
		if at, ok := under(v.Type()).(*types.Array); ok {
			t := Const("g$"+sanitize(pkgShort(v.Pkg().Path())+"."+v.Name()), sortOf(v.Type()))
			vals := make([]*Term, at.Len())
			for i := range vals {
				vals[i] = zeroOf(at.Elem())
			}
			idx := int64(0)
			okAll := true
			for _, el := range n.Elts {
				val := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					ci, _ := constant.Int64Val(constant.ToInt(p.Info.Types[kv.Key].Value))
					idx = ci
					val = kv.Value
				}
				tv := p.Info.Types[val]
				if tv.Value == nil {
					okAll = false
					break
				}
				vals[idx] = x.constTerm(tv.Value, at.Elem())
				idx++
			}
			if okAll {
				var fs []*Term
				for i, q := range vals {
					fs = append(fs, Eq(mk("select", arrElem(t.S), t, IntLit(int64(i))), q))
				}
				addAxiom("table "+v.Name(), []string{t.Op}, And(fs...))
				return Val{T: t, Ty: v.Type()}
			}
		}
	}
	if tv, ok := p.Info.Types[rhs]; ok && tv.Value != nil {
		return x.constVal(tv.Value, v.Type())
	}
	t := Const("g$"+sanitize(pkgShort(v.Pkg().Path())+"."+v.Name()), sortOf(v.Type()))
	if t.S == SAny {
		if c, ok := rhs.(*ast.CallExpr); ok && (exprString(c.Fun) == "errors.New" || exprString(c.Fun) == "fmt.Errorf") {
			st.assume(Not(Eq(t, zeroOf(v.Type()))))
		}
	}
	x.assumeType(st, t, v.Type())
	if t.S == SRef && isAllocation(rhs) {
		// allocated when the program started, before anything the function allocates
		st.assume(Not(Eq(t, Null)))
		if x.old != nil {
			st.assume(Select(x.get(x.old, allocComp()), t))
		}
		st.assume(Select(x.get(st, allocComp()), t))
	}
	return Val{T: t, Ty: v.Type()}
}

// isAllocation: new(T) or &T{..}, possibly converted to another pointer type.
func isAllocation(e ast.Expr) bool {
	switch n := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		_, lit := ast.Unparen(n.X).(*ast.CompositeLit)
		return n.Op == token.AND && lit
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "new" {
			return true
		}
		if exprString(n.Fun) == "unsafe.Pointer" && len(n.Args) == 1 {
			return isAllocation(n.Args[0])
		}
	}
	return false
}

// coerce adapts a value to a target type (nil, interface boxing).
func (x *Exec) coerce(st *State, v Val, ty types.Type) Val {
	if ty == nil {
		return v
	}
	if v.T == nil && v.Clo == nil && v.Place == nil {
		return Val{T: zeroOf(ty), Ty: ty}
	}
	_, tpTarget := types.Unalias(ty).(*types.TypeParam)
	if _, isI := under(ty).(*types.Interface); isI && !tpTarget {
		if v.Ty != nil {
			_, tp := types.Unalias(v.Ty).(*types.TypeParam)
			if _, srcI := under(v.Ty).(*types.Interface); !srcI || tp {
				if v.Clo != nil && v.T == nil {
					v.T = x.closureTerm(v.Clo)
				}
				return Val{T: x.box(v.T, v.Ty), Ty: ty}
			}
		}
		return Val{T: v.T, Ty: ty}
	}
	if v.T != nil && !tpTarget {
		ts := sortOf(ty)
		if v.T.S != ts {
			if v.T.num != nil && ts == SBV8 {
				return Val{T: BVLit(int(new(big.Int).Mod(v.T.num, big.NewInt(256)).Int64())), Ty: ty}
			}
			if v.T.num != nil && ts == SReal {
				return Val{T: mk(v.T.num.String()+".0", SReal), Ty: ty}
			}
		}
	}
	v.Ty = ty
	return v
}

func boxName(ty types.Type) string { return sanitize("box$" + tkey(ty)) }

func (x *Exec) box(t *Term, ty types.Type) *Term {
	return boxTerm(t, ty)
}
func boxTerm(t *Term, ty types.Type) *Term {
	n := boxName(ty)
	b := App(n, SAny, t)
	v := BoundVar("v", t.S)
	bv := App(n, SAny, v)
	ub := App("un"+n, t.S, bv)
	isT := App("is"+n, SBool, bv)
	addAxiom("boxing "+n, []string{n}, Forall([]*Term{v}, [][]*Term{{bv}}, And(Eq(ub, v), isT, Not(Eq(bv, Const("any.nil", SAny))))))
	return b
}

func (x *Exec) unbox(st *State, a *Term, ty types.Type) (*Term, *Term) {
	if _, isI := under(ty).(*types.Interface); isI {
		if _, tp := types.Unalias(ty).(*types.TypeParam); !tp {
			is := App("implements$"+tkey(ty), SBool, a)
			if tkey(ty) == "error" {
				w := BoundVar("e", SAny)
				_ = w
			}
			return a, And(is, Not(Eq(a, Const("any.nil", SAny))))
		}
	}
	s := sortOf(ty)
	n := boxName(ty)
	boxTerm(Const("zero_probe$"+n, s), ty) // registers the axioms
	v := App("un"+n, s, a)
	is := App("is"+n, SBool, a)
	w := BoundVar("a", SAny)
	isw := App("is"+n, SBool, w)
	addAxiom("unboxing "+n, []string{"is" + n}, Forall([]*Term{w}, [][]*Term{{isw}}, Implies(isw, And(Eq(App(n, SAny, App("un"+n, s, w)), w), Eq(App("dynType", SInt, w), Const("tag$"+n, SInt))))))
	return v, is
}

func (x *Exec) closureTerm(c *Closure) *Term {
	if c.Fn != nil && c.Recv == nil {
		return Const("fn$"+sanitize(c.Fn.Key), SFn)
	}
	x.cloSeq++
	t := Const(fmt.Sprintf("clo!%d", x.cloSeq), SFn)
	if x.cloTerms == nil {
		x.cloTerms = map[*Term]*Closure{}
	}
	x.cloTerms[t] = c
	addAxiom("closure", []string{t.Op}, Not(Eq(t, Const("fn.nil", SFn))))
	return t
}

func (x *Exec) toInt(t *Term) *Term {
	if t.S == SBV8 {
		return bvToInt(t)
	}
	return t
}

func bvToInt(t *Term) *Term {
	if t.num != nil {
		return BigLit(t.num)
	}
	n := App("b2i", SInt, t)
	v := BoundVar("b", SBV8)
	av := App("b2i", SInt, v)
	var sum []*Term
	for i := 0; i < 8; i++ {
		bit := mk("=", SBool, mk(fmt.Sprintf("(_ extract %d %d)", i, i), "(_ BitVec 1)", v), mk("#b1", "(_ BitVec 1)"))
		sum = append(sum, Ite(bit, IntLit(1<<i), IntLit(0)))
	}
	def := mk("+", SInt, sum...)
	addAxiom("byte value", []string{"b2i"}, Forall([]*Term{v}, [][]*Term{{av}}, And(mk("=", SBool, av, def), Le(IntLit(0), av), Le(av, IntLit(255)), mk("=", SBool, App("i2b", SBV8, av), v))))
	return n
}

// intToBV takes the low 8 bits of an integer.
func intToBV(t *Term) *Term {
	if t.num != nil {
		return BVLit(int(new(big.Int).Mod(t.num, big.NewInt(256)).Int64()))
	}
	if t.Op == "b2i" {
		return t.Args[0]
	}
	r := App("i2b", SBV8, t)
	v := BoundVar("n", SInt)
	bv := App("i2b", SBV8, v)
	bvToInt(BoundVar("dummy", SBV8))
	addAxiom("low byte", []string{"i2b"}, Forall([]*Term{v}, [][]*Term{{bv}}, mk("=", SBool, App("b2i", SInt, bv), Mod(v, IntLit(256)))))
	return r
}

type SP struct {
	st *State
	p  *Place
}

// deref checks that a pointer is not nil.
func (x *Exec) deref(st *State, ref *Term, n ast.Node) {
	x.check(st, Not(Eq(ref, Null)), "nil", "no nil dereference: "+x.src(n), n, nil)
}

// place evaluates an addressable expression.
func (x *Exec) place(fr *Frame, st *State, e ast.Expr) []SP {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.place(fr, st, n.X)
	case *ast.Ident:
		if n.Name == "_" {
			return []SP{{st, &Place{kind: "blank"}}}
		}
		o, ok := fr.pkg.Info.ObjectOf(n).(*types.Var)
		if !ok {
			x.unsupported("assignment to %s", n.Name)
		}
		if v, ok := st.locals[o]; ok && x.isBoxed(fr, o) {
			return []SP{{st, x.boxPlace(v, fr.varType(o))}}
		}
		return []SP{{st, &Place{kind: "var", v: o, Ty: fr.varType(o)}}}
	case *ast.StarExpr:
		var out []SP
		for _, r := range x.eval(fr, st, n.X) {
			out = append(out, SP{r.st, x.derefPlace(r.st, r.v, fr.typeOf(n.X), n)})
		}
		return out
	case *ast.SelectorExpr:
		sel, ok := fr.pkg.Info.Selections[n]
		if !ok {
			// package-qualified variable
			o, ok := fr.pkg.Info.ObjectOf(n.Sel).(*types.Var)
			if !ok {
				x.unsupported("selector %s", x.src(n))
			}
			return []SP{{st, &Place{kind: "var", v: o, Ty: o.Type()}}}
		}
		if sel.Kind() != types.FieldVal {
			x.unsupported("method value as place")
		}
		return x.fieldPath(fr, st, n, sel)
	case *ast.IndexExpr:
		bt := under(fr.typeOf(n.X))
		if pt, ok := bt.(*types.Pointer); ok {
			bt = under(pt.Elem())
		}
		switch b := bt.(type) {
		case *types.Slice:
			var out []SP
			for _, r := range x.evalN(fr, st, []ast.Expr{n.X, n.Index}) {
				s, i := r.vs[0].T, x.toInt(r.vs[1].T)
				x.assumeType(r.st, s, fr.typeOf(n.X))
				x.check(r.st, And(Le(IntLit(0), i), Lt(i, SlLen(s))), "index", "index in range: "+x.src(n), n, nil)
				x.seqFact(r.st, s, i, b.Elem())
				out = append(out, SP{r.st, &Place{kind: "mem", c: memComp(b.Elem()), ref: SlArr(s), idx: Add(SlOff(s), i), Ty: b.Elem()}})
			}
			return out
		case *types.Array:
			var out []SP
			for _, p := range x.place(fr, st, n.X) {
				for _, r := range x.eval(fr, p.st, n.Index) {
					i := x.toInt(r.v.T)
					x.check(r.st, And(Le(IntLit(0), i), Lt(i, IntLit(b.Len()))), "index", "index in range: "+x.src(n), n, nil)
					out = append(out, SP{r.st, &Place{kind: "elem", base: p.p, idx: i, Ty: b.Elem()}})
				}
			}
			return out
		case *types.Map:
			var out []SP
			for _, r := range x.evalN(fr, st, []ast.Expr{n.X, n.Index}) {
				out = append(out, SP{r.st, &Place{kind: "map", mt: b, ref: r.vs[0].T, idx: x.coerce(r.st, r.vs[1], b.Key()).T, Ty: b.Elem()}})
			}
			return out
		}
	case *ast.CompositeLit, *ast.CallExpr, *ast.TypeAssertExpr:
		// value, e.g. f().x: hold it in a temporary
		var out []SP
		for _, r := range x.eval(fr, st, e) {
			tv := types.NewVar(token.NoPos, fr.pkg.Types, "$tmp", fr.typeOf(e))
			r.st.locals[tv] = r.v
			out = append(out, SP{r.st, &Place{kind: "var", v: tv, Ty: fr.typeOf(e)}})
		}
		return out
	}
	x.unsupported("place %T at %s", e, x.pos(e))
	return nil
}

func (x *Exec) derefPlace(st *State, v Val, pty types.Type, n ast.Node) *Place {
	if v.Place != nil {
		return v.Place
	}
	pt, ok := under(pty).(*types.Pointer)
	if !ok {
		x.unsupported("dereference of %s", pty)
	}
	x.deref(st, v.T, n)
	if _, ok := isStructVal(pt.Elem()); ok {
		return &Place{kind: "obj", ref: v.T, Ty: pt.Elem()}
	}
	return &Place{kind: "cell", c: cellComp(pt.Elem()), ref: v.T, Ty: pt.Elem()}
}

// fieldPath follows a (possibly promoted) field selection.
func (x *Exec) fieldPath(fr *Frame, st *State, n *ast.SelectorExpr, sel *types.Selection) []SP {
	var cur []SP
	rt := fr.typeOf(n.X)
	if pt, ok := under(rt).(*types.Pointer); ok {
		for _, r := range x.eval(fr, st, n.X) {
			if r.v.Place != nil {
				cur = append(cur, SP{r.st, r.v.Place})
				continue
			}
			x.deref(r.st, r.v.T, n)
			cur = append(cur, SP{r.st, &Place{kind: "obj", ref: r.v.T, Ty: pt.Elem()}})
		}
	} else {
		cur = x.place(fr, st, n.X)
	}
	for k, ix := range sel.Index() {
		var nx []SP
		for _, c := range cur {
			ty := c.p.Ty
			p := c.p
			if k > 0 {
				if pt, ok := under(ty).(*types.Pointer); ok {
					v := x.load(c.st, p)
					x.deref(c.st, v.T, n)
					p = &Place{kind: "obj", ref: v.T, Ty: pt.Elem()}
					ty = pt.Elem()
				}
			}
			s, ok := under(ty).(*types.Struct)
			if !ok {
				x.unsupported("field of %s", ty)
			}
			f := s.Field(ix)
			if p.kind == "obj" {
				nx = append(nx, SP{c.st, x.fieldOf(c.st, p.ref, ty, f)})
			} else {
				nx = append(nx, SP{c.st, &Place{kind: "dt", base: p, fi: ix, Ty: f.Type()}})
			}
		}
		cur = nx
	}
	for _, c := range cur {
		x.guardAccess(fr, c.st, c.p, n)
	}
	return cur
}

func (x *Exec) fieldOf(st *State, ref *Term, ty types.Type, f *types.Var) *Place {
	p := fieldPlace(ref, ty, f)
	if p.kind == "obj" {
		a := x.get(st, allocComp())
		st.assume(Implies(Select(a, ref), Select(a, p.ref)))
	}
	return p
}

func (x *Exec) evalSelector(fr *Frame, st *State, n *ast.SelectorExpr) []SV {
	sel, ok := fr.pkg.Info.Selections[n]
	if !ok {
		switch o := fr.pkg.Info.ObjectOf(n.Sel).(type) {
		case *types.Var:
			return one(st, x.globalVal(st, o))
		case *types.Func:
			return one(st, x.funcVal(fr, o, n.Sel))
		}
		x.unsupported("selector %s", x.src(n))
	}
	if sel.Kind() == types.FieldVal {
		var out []SV
		// field of a struct value that is not addressable
		for _, p := range x.place(fr, st, n) {
			out = append(out, SV{p.st, x.load(p.st, p.p)})
		}
		return out
	}
	if sel.Kind() == types.MethodVal {
		var out []SV
		for _, r := range x.eval(fr, st, n.X) {
			rv := r.v
			if fi, ok := x.pr.Funcs[sel.Obj().(*types.Func).Origin()]; ok {
				sub := x.recvSubst(fi, fr.typeOf(n.X))
				out = append(out, SV{r.st, Val{Clo: &Closure{Fn: fi, Sub: sub, Recv: &rv}, Ty: fr.typeOf(n)}})
				continue
			}
			x.unsupported("method value %s", x.src(n))
		}
		return out
	}
	x.unsupported("selector %s", x.src(n))
	return nil
}

// recvSubst maps the receiver type parameters of a method to the arguments of the receiver's type.
func (x *Exec) recvSubst(fi *FuncInfo, rt types.Type) TSubst {
	sub := TSubst{}
	sig := fi.Obj.Type().(*types.Signature)
	rt = types.Unalias(rt)
	if p, ok := rt.(*types.Pointer); ok {
		rt = types.Unalias(p.Elem())
	}
	if n, ok := rt.(*types.Named); ok && sig.RecvTypeParams() != nil {
		for i := 0; i < sig.RecvTypeParams().Len(); i++ {
			if n.TypeArgs().Len() > i {
				sub[sig.RecvTypeParams().At(i)] = n.TypeArgs().At(i)
			}
		}
	}
	return sub
}

func (x *Exec) mapGet(st *State, m *types.Map, ref, k *Term) (Val, *Term) {
	x.assumeType(st, ref, m)
	x.guardRef(st, ref, false, "entries")
	in := Select(Select(x.get(st, mapDom(m)), ref), k)
	raw := Select(Select(x.get(st, mapVal(m)), ref), k)
	for _, f := range x.typeFacts(st, raw, m.Elem()) {
		st.assume(Implies(in, f))
	}
	return Val{T: Ite(in, raw, zeroOf(m.Elem())), Ty: m.Elem()}, in
}

func (x *Exec) evalUnary(fr *Frame, st *State, n *ast.UnaryExpr) []SV {
	switch n.Op {
	case token.ARROW:
		if x.threads() {
			var out []SV
			for _, r := range x.eval(fr, st, n.X) {
				for _, q := range x.recvBoth(fr, r.st, r.v, n) {
					out = append(out, SV{q.st, q.vs[0]})
				}
			}
			return out
		}
	case token.AND:
		if cl, ok := ast.Unparen(n.X).(*ast.CompositeLit); ok {
			ty := fr.typeOf(cl)
			var out []SV
			for _, r := range x.evalComposite(fr, st, cl, ty) {
				if _, ok := isStructVal(ty); ok {
					ref := x.newStruct(r.st, ty, r.v.T)
					out = append(out, SV{r.st, Val{T: ref, Ty: fr.typeOf(n)}})
				} else {
					ref := x.newObj(r.st, "cell")
					c := cellComp(ty)
					x.put(r.st, c, ref, Store(x.get(r.st, c), ref, r.v.T))
					out = append(out, SV{r.st, Val{T: ref, Ty: fr.typeOf(n)}})
				}
			}
			return out
		}
		var out []SV
		for _, p := range x.place(fr, st, n.X) {
			switch p.p.kind {
			case "obj":
				out = append(out, SV{p.st, Val{T: p.p.ref, Ty: fr.typeOf(n)}})
			case "cell":
				out = append(out, SV{p.st, Val{T: p.p.ref, Ty: fr.typeOf(n)}})
			default:
				out = append(out, SV{p.st, Val{Place: p.p, Ty: fr.typeOf(n)}})
			}
		}
		return out
	case token.NOT:
		var out []SV
		for _, r := range x.eval(fr, st, n.X) {
			out = append(out, SV{r.st, Val{T: Not(r.v.T), Ty: r.v.Ty}})
		}
		return out
	case token.SUB:
		var out []SV
		ty := fr.typeOf(n)
		for _, r := range x.eval(fr, st, n.X) {
			switch r.v.T.S {
			case SInt:
				out = append(out, SV{r.st, Val{T: x.wrap(r.st, Neg(r.v.T), ty, n), Ty: ty}})
			case SBV8:
				out = append(out, SV{r.st, Val{T: mk("bvneg", SBV8, r.v.T), Ty: ty}})
			default:
				out = append(out, SV{r.st, Val{T: mk("-", r.v.T.S, r.v.T), Ty: ty}})
			}
		}
		return out
	case token.ADD:
		return x.eval(fr, st, n.X)
	case token.XOR:
		var out []SV
		ty := fr.typeOf(n)
		for _, r := range x.eval(fr, st, n.X) {
			if r.v.T.S == SBV8 {
				out = append(out, SV{r.st, Val{T: mk("bvnot", SBV8, r.v.T), Ty: ty}})
				continue
			}
			b, _ := under(ty).(*types.Basic)
			_, hi, signed, _, ok := intRange(b)
			if !ok {
				x.unsupported("^ on %s", ty)
			}
			if signed {
				out = append(out, SV{r.st, Val{T: Sub(IntLit(-1), r.v.T), Ty: ty}})
			} else {
				out = append(out, SV{r.st, Val{T: Sub(BigLit(hi), r.v.T), Ty: ty}})
			}
		}
		return out
	}
	x.unsupported("unary %s", n.Op)
	return nil
}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

// wrap reduces the mathematical result of an operation to the type: modulo for unsigned types,
// an overflow obligation for signed ones.
func (x *Exec) wrap(st *State, t *Term, ty types.Type, n ast.Node) *Term {
	b, ok := under(ty).(*types.Basic)
	if !ok {
		if _, tp := types.Unalias(ty).(*types.TypeParam); tp {
			return t
		}
		x.unsupported("arithmetic on %s", ty)
	}
	lo, hi, signed, w, ok := intRange(b)
	if !ok {
		return t
	}
	if b.Info()&types.IsUntyped != 0 {
		return t
	}
	if t.num != nil && t.num.Cmp(lo) >= 0 && t.num.Cmp(hi) <= 0 {
		return t
	}
	if signed {
		if x.rootSpecOpt("nooverflow") {
			st.assume(And(Le(BigLit(lo), t), Le(t, BigLit(hi))))
			x.notes["signed overflow assumed absent in "+x.rootKey+" (option nooverflow)"] = true
			return t
		}
		x.check(st, And(Le(BigLit(lo), t), Le(t, BigLit(hi))), "overflow", "no signed overflow: "+x.src(n), n, nil)
		return t
	}
	r := NewConst("u", SInt)
	st.assume(Implies(And(Le(IntLit(0), t), Le(t, BigLit(hi))), Eq(r, t)))
	st.assume(Eq(r, Mod(t, BigLit(pow2(w)))))
	st.assume(And(Le(IntLit(0), r), Le(r, BigLit(hi))))
	return r
}

func (x *Exec) rootSpecOpt(o string) bool { return x.spec != nil && x.spec.Opt[o] }

func (x *Exec) evalBinary(fr *Frame, st *State, n *ast.BinaryExpr) []SV {
	if n.Op == token.LAND || n.Op == token.LOR {
		var out []SV
		for _, l := range x.eval(fr, st, n.X) {
			a := l.v.T
			if a == True && n.Op == token.LOR || a == False && n.Op == token.LAND {
				out = append(out, SV{l.st, Val{T: a, Ty: TBool}})
				continue
			}
			guard := a
			if n.Op == token.LOR {
				guard = Not(a)
			}
			// evaluate the right operand under the guard
			c := l.st.clone()
			c.assume(guard)
			mark := c.pc
			rs := x.eval(fr, c, n.Y)
			if len(rs) == 1 && sameState(rs[0].st, l.st, c) {
				// pure: fold facts as implications
				var fs []*Term
				for p := rs[0].st.pc; p != nil && p != mark; p = p.up {
					fs = append(fs, p.t)
				}
				for i := len(fs) - 1; i >= 0; i-- {
					l.st.assume(Implies(guard, fs[i]))
				}
				var r *Term
				if n.Op == token.LAND {
					r = And(a, rs[0].v.T)
				} else {
					r = Or(a, rs[0].v.T)
				}
				out = append(out, SV{l.st, Val{T: r, Ty: TBool}})
				continue
			}
			s2 := l.st.clone()
			s2.assume(Not(guard))
			if !s2.dead() {
				out = append(out, SV{s2, Val{T: BoolLit(n.Op == token.LOR), Ty: TBool}})
			}
			out = append(out, rs...)
		}
		return out
	}
	var out []SV
	lt, rt := fr.typeOf(n.X), fr.typeOf(n.Y)
	for _, r := range x.evalN(fr, st, []ast.Expr{n.X, n.Y}) {
		a, b := r.vs[0], r.vs[1]
		if n.Op == token.EQL || n.Op == token.NEQ {
			t := x.equal(fr, r.st, a, b, lt, rt, n)
			if n.Op == token.NEQ {
				t = Not(t)
			}
			out = append(out, SV{r.st, Val{T: t, Ty: TBool}})
			continue
		}
		if n.Op == token.SHL || n.Op == token.SHR {
			ty := fr.typeOf(n)
			out = append(out, SV{r.st, Val{T: x.shift(r.st, n.Op, a.T, b.T, ty, rt, n), Ty: ty}})
			continue
		}
		ty := lt
		if bb, ok := types.Unalias(lt).(*types.Basic); ok && bb.Info()&types.IsUntyped != 0 {
			ty = rt
		}
		at, bt := a.T, b.T
		if at.S != bt.S {
			if at.num != nil {
				at = x.coerce(r.st, a, ty).T
			}
			if bt.num != nil {
				bt = x.coerce(r.st, b, ty).T
			}
		}
		switch n.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			out = append(out, SV{r.st, Val{T: x.compare(n.Op, at, bt, ty), Ty: TBool}})
		default:
			out = append(out, SV{r.st, Val{T: x.arith(r.st, n.Op, at, bt, fr.typeOf(n), n), Ty: fr.typeOf(n)}})
		}
	}
	return out
}

// sameState: evaluating from base produced no change except path facts.
func sameState(s, base, started *State) bool {
	for k, v := range s.comps {
		if _, ok := base.comps[k]; !ok && !(len(v.Args) == 0 && (strings.HasPrefix(v.Op, "H0$") || strings.HasPrefix(v.Op, "dry$"))) {
			return false // first touched by a change
		}
	}
	if len(s.comps) != len(base.comps) {
		for k, v := range s.comps {
			if b, ok := base.comps[k]; ok && b != v {
				return false
			}
		}
	} else {
		for k, v := range s.comps {
			if b, ok := base.comps[k]; !ok || b != v {
				return false
			}
		}
	}
	for k, v := range base.locals {
		if w := s.locals[k]; w.T != v.T || w.Place != v.Place || w.Clo != v.Clo {
			return false
		}
	}
	if len(s.defers) != len(base.defers) {
		return false
	}
	// components first touched while evaluating have their initial value: share them
	for k, v := range s.comps {
		if _, ok := base.comps[k]; !ok {
			base.comps[k] = v
		}
	}
	return true
}

func (x *Exec) equal(fr *Frame, st *State, a, b Val, lt, rt types.Type, n ast.Node) *Term {
	isNil := func(v Val) bool { return v.T == nil && v.Clo == nil && v.Place == nil }
	if isNil(a) {
		a, b, lt, rt = b, a, rt, lt
	}
	if isNil(b) {
		if a.Place != nil || a.Clo != nil {
			return False
		}
		if a.T.S == SSl {
			return Eq(SlArr(a.T), Null)
		}
		return Eq(a.T, zeroOf(lt))
	}
	_, lI := under(lt).(*types.Interface)
	_, rI := under(rt).(*types.Interface)
	_, ltp := types.Unalias(lt).(*types.TypeParam)
	_, rtp := types.Unalias(rt).(*types.TypeParam)
	if lI && !ltp && !(rI && !rtp) {
		b = x.coerce(st, b, lt)
	} else if rI && !rtp && !(lI && !ltp) {
		a = x.coerce(st, a, rt)
	}
	at, bt := a.T, b.T
	if at.S != bt.S {
		if at.num != nil {
			at = x.coerce(st, a, rt).T
		} else if bt.num != nil {
			bt = x.coerce(st, b, lt).T
		}
	}
	if at.S == SStr {
		st.assume(strExt(at, bt))
	}
	return Eq(at, bt)
}

// strExt: two different strings differ in length or at some position.
func strExt(a, b *Term) *Term {
	if a == b {
		return True
	}
	d := App("strdiff", SInt, a, b)
	la, lb := App("slen", SInt, a), App("slen", SInt, b)
	return Or(Eq(a, b), Not(Eq(la, lb)), And(Le(IntLit(0), d), Lt(d, la), Not(Eq(App("sat", SBV8, a, d), App("sat", SBV8, b, d)))))
}

func ordTerm(t *Term) *Term {
	n := "ord$" + sanitize(string(t.S))
	o := App(n, SReal, t)
	v, w := BoundVar("a", t.S), BoundVar("b", t.S)
	ov, ow := App(n, SReal, v), App(n, SReal, w)
	addAxiom("order embedding", []string{n}, Forall([]*Term{v, w}, [][]*Term{{ov, ow}}, Implies(Eq(ov, ow), Eq(v, w))))
	return o
}

func (x *Exec) compare(op token.Token, a, b *Term, ty types.Type) *Term {
	switch a.S {
	case SInt, SReal:
		switch op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		default:
			return Le(b, a)
		}
	case SBV8:
		if a.num != nil && b.num != nil {
			return x.compare(op, BigLit(a.num), BigLit(b.num), ty)
		}
		switch op {
		case token.LSS:
			return mk("bvult", SBool, a, b)
		case token.LEQ:
			return mk("bvule", SBool, a, b)
		case token.GTR:
			return mk("bvult", SBool, b, a)
		default:
			return mk("bvule", SBool, b, a)
		}
	}
	return x.compare(op, ordTerm(a), ordTerm(b), ty)
}

func bvop(op string, a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		p, q := a.num.Int64(), b.num.Int64()
		switch op {
		case "bvadd":
			return BVLit(int(p + q))
		case "bvsub":
			return BVLit(int(p - q))
		case "bvand":
			return BVLit(int(p & q))
		case "bvor":
			return BVLit(int(p | q))
		case "bvxor":
			return BVLit(int(p ^ q))
		}
	}
	return mk(op, SBV8, a, b)
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, ty types.Type, n ast.Node) *Term {
	switch a.S {
	case SBV8:
		switch op {
		case token.ADD:
			return bvop("bvadd", a, b)
		case token.SUB:
			return bvop("bvsub", a, b)
		case token.MUL:
			return bvop("bvmul", a, b)
		case token.AND:
			return bvop("bvand", a, b)
		case token.OR:
			return bvop("bvor", a, b)
		case token.XOR:
			return bvop("bvxor", a, b)
		case token.AND_NOT:
			return bvop("bvand", a, mk("bvnot", SBV8, b))
		case token.QUO:
			x.check(st, Not(Eq(b, BVLit(0))), "div", "division by zero: "+x.src(n), n, nil)
			return mk("bvudiv", SBV8, a, b)
		case token.REM:
			x.check(st, Not(Eq(b, BVLit(0))), "div", "division by zero: "+x.src(n), n, nil)
			return mk("bvurem", SBV8, a, b)
		}
	case SInt:
		switch op {
		case token.ADD:
			return x.wrap(st, Add(a, b), ty, n)
		case token.SUB:
			return x.wrap(st, Sub(a, b), ty, n)
		case token.MUL:
			return x.wrap(st, x.mul(st, a, b), ty, n)
		case token.QUO, token.REM:
			x.check(st, Not(Eq(b, IntLit(0))), "div", "division by zero: "+x.src(n), n, nil)
			q, r := x.divmod(st, a, b, ty)
			if op == token.QUO {
				return q
			}
			return r
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return x.bitop(st, op, a, b, ty)
		}
	case SReal:
		switch op {
		case token.ADD:
			return mk("+", SReal, a, b)
		case token.SUB:
			return mk("-", SReal, a, b)
		case token.MUL:
			return mk("*", SReal, a, b)
		case token.QUO:
			return mk("/", SReal, a, b)
		}
	case SStr:
		if op == token.ADD {
			return strCat(a, b)
		}
	}
	x.unsupported("operator %s on %s", op, a.S)
	return nil
}

func strCat(a, b *Term) *Term {
	r := App("scat", SStr, a, b)
	s, t, i := BoundVar("s", SStr), BoundVar("t", SStr), BoundVar("i", SInt)
	c := App("scat", SStr, s, t)
	sl, tl := App("slen", SInt, s), App("slen", SInt, t)
	addAxiom("concat length", []string{"scat"}, Forall([]*Term{s, t}, [][]*Term{{c}}, Eq(App("slen", SInt, c), Add(sl, tl))))
	at := App("sat", SBV8, c, i)
	addAxiom("concat bytes", []string{"scat"}, Forall([]*Term{s, t, i}, [][]*Term{{at}}, And(
		Implies(And(Le(IntLit(0), i), Lt(i, sl)), Eq(at, App("sat", SBV8, s, i))),
		Implies(And(Le(sl, i), Lt(i, Add(sl, tl))), Eq(at, App("sat", SBV8, t, Sub(i, sl)))))))
	return r
}

func (x *Exec) mul(st *State, a, b *Term) *Term {
	if a.num != nil || b.num != nil {
		return Mul(a, b)
	}
	p := Mul(a, b)
	// bounds of a product of non-negative factors
	z := IntLit(0)
	st.assume(Implies(And(Le(z, a), Le(z, b)), Le(z, p)))
	return p
}

// divmod: Go's truncated division.
func (x *Exec) divmod(st *State, a, b *Term, ty types.Type) (*Term, *Term) {
	if a.num != nil && b.num != nil {
		q, r := new(big.Int).QuoRem(a.num, b.num, new(big.Int))
		return BigLit(q), BigLit(r)
	}
	q, r := App("gdiv", SInt, a, b), App("gmod", SInt, a, b)
	if b.num != nil && b.num.Sign() > 0 {
		k := b
		st.assume(Eq(a, Add(Mul(k, q), r)))
		st.assume(And(Lt(Neg(k), r), Lt(r, k)))
		st.assume(Implies(Le(IntLit(0), a), And(Le(IntLit(0), r), Le(IntLit(0), q), Eq(q, Div(a, k)), Eq(r, Mod(a, k)))))
		st.assume(Implies(Lt(a, IntLit(0)), And(Le(r, IntLit(0)), Le(q, IntLit(0)))))
		return q, r
	}
	z := IntLit(0)
	p := Mul(b, q)
	st.assume(Eq(a, Add(p, r)))
	st.assume(Implies(And(Le(z, a), Lt(z, b)), And(Le(z, r), Lt(r, b), Le(z, q), Le(q, a), Le(r, a))))
	return q, r
}

func isMask(t *Term) (uint, bool) {
	if t.num == nil || t.num.Sign() <= 0 {
		return 0, false
	}
	n := new(big.Int).Add(t.num, big.NewInt(1))
	k := uint(n.BitLen() - 1)
	if n.Cmp(pow2(k)) == 0 {
		return k, true
	}
	return 0, false
}

func (x *Exec) bitop(st *State, op token.Token, a, b *Term, ty types.Type) *Term {
	if a.num != nil && b.num != nil && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			return BigLit(r.And(a.num, b.num))
		case token.OR:
			return BigLit(r.Or(a.num, b.num))
		case token.XOR:
			return BigLit(r.Xor(a.num, b.num))
		case token.AND_NOT:
			return BigLit(r.AndNot(a.num, b.num))
		}
	}
	if op == token.AND {
		if k, ok := isMask(b); ok {
			return x.modOf(st, a, k)
		}
		if k, ok := isMask(a); ok {
			return x.modOf(st, b, k)
		}
	}
	names := map[token.Token]string{token.AND: "iand", token.OR: "ior", token.XOR: "ixor", token.AND_NOT: "iandnot"}
	r := App(names[op], SInt, a, b)
	z := IntLit(0)
	nn := And(Le(z, a), Le(z, b))
	switch op {
	case token.AND:
		st.assume(Implies(nn, And(Le(z, r), Le(r, a), Le(r, b))))
		st.assume(Implies(Le(z, a), And(Le(z, r), Le(r, a))))
		st.assume(Implies(Le(z, b), And(Le(z, r), Le(r, b))))
	case token.OR:
		st.assume(Implies(nn, And(Le(a, r), Le(b, r), Le(r, Add(a, b)))))
	case token.XOR:
		st.assume(Implies(nn, And(Le(z, r), Le(r, Add(a, b)))))
	case token.AND_NOT:
		st.assume(Implies(nn, And(Le(z, r), Le(r, a))))
	}
	if bb, ok := under(ty).(*types.Basic); ok {
		if lo, hi, _, _, ok := intRange(bb); ok {
			st.assume(And(Le(BigLit(lo), r), Le(r, BigLit(hi))))
		}
	}
	return r
}

// modOf is a & (2^k-1): the non-negative residue.
func (x *Exec) modOf(st *State, a *Term, k uint) *Term {
	if a.num != nil {
		return Mod(a, BigLit(pow2(k)))
	}
	r := Mod(a, BigLit(pow2(k)))
	st.assume(And(Le(IntLit(0), r), Lt(r, BigLit(pow2(k)))))
	return r
}

// byteShift is the byte a shifted by the mathematical integer bi (o is bvshl or bvlshr).
func byteShift(o string, a, bi *Term) *Term {
	if bi.num != nil {
		if bi.num.Cmp(big.NewInt(8)) >= 0 {
			return BVLit(0)
		}
		return mk(o, SBV8, a, BVLit(int(bi.num.Int64())))
	}
	return App("sh$"+o, SBV8, a, bi).withAxioms(func() {
		v, k := BoundVar("b", SBV8), BoundVar("k", SInt)
		app := App("sh$"+o, SBV8, v, k)
		t := BVLit(0)
		for i := 7; i >= 0; i-- {
			t = Ite(mk("=", SBool, k, IntLit(int64(i))), mk(o, SBV8, v, BVLit(i)), t)
		}
		addAxiom("byte shift "+o, []string{"sh$" + o}, Forall([]*Term{v, k}, [][]*Term{{app}}, mk("=", SBool, app, t)))
	})
}

func (x *Exec) shift(st *State, op token.Token, a, b *Term, ty, bty types.Type, n ast.Node) *Term {
	bi := b
	if b.S == SBV8 {
		if a.S == SBV8 {
			// both 8 bits wide: the bit-vector shift has Go's meaning (zero when >= 8)
			if op == token.SHL {
				return mk("bvshl", SBV8, a, b)
			}
			return mk("bvlshr", SBV8, a, b)
		}
		bi = bvToInt(b)
	}
	if bb, ok := under(bty).(*types.Basic); ok && bb.Info()&types.IsUnsigned == 0 && bi.num == nil {
		x.check(st, Le(IntLit(0), bi), "shift", "shift count not negative: "+x.src(n), n, nil)
	}
	if a.S == SBV8 {
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
		}
		return byteShift(o, a, bi)
	}
	if bi.num == nil {
		// unknown shift count
		f := "ishl"
		if op == token.SHR {
			f = "ishr"
		}
		r := App(f, SInt, a, bi)
		if bb, ok := under(ty).(*types.Basic); ok {
			if lo, hi, _, _, ok := intRange(bb); ok {
				st.assume(And(Le(BigLit(lo), r), Le(r, BigLit(hi))))
			}
		}
		if op == token.SHR {
			st.assume(Implies(Le(IntLit(0), a), And(Le(IntLit(0), r), Le(r, a))))
		} else if bb, ok := under(ty).(*types.Basic); ok {
			_, hi, _, w, ok := intRange(bb)
			if ok && w >= 32 {
				// powers of two are tabulated
				t := IntLit(0)
				for i := int(w) - 1; i >= 0; i-- {
					t = Ite(mk("=", SBool, bi, IntLit(int64(i))), BigLit(pow2(uint(i))), t)
				}
				p := NewConst("pow2", SInt)
				st.assume(Eq(p, t))
				if a.num != nil && a.num.Cmp(big.NewInt(1)) == 0 {
					st.assume(Implies(Le(p, BigLit(hi)), Eq(r, p)))
				}
			}
		}
		return r
	}
	k := uint(bi.num.Uint64())
	if op == token.SHR {
		if a.num != nil {
			return Div(a, BigLit(pow2(k)))
		}
		q := Div(a, BigLit(pow2(k)))
		c := BigLit(pow2(k))
		st.assume(And(Le(Mul(c, q), a), Lt(a, Add(Mul(c, q), c))))
		return q
	}
	return x.wrap(st, Mul(BigLit(pow2(k)), a), ty, n)
}

func (t *Term) withAxioms(f func()) *Term { f(); return t }

// seqFact names element i of the slice s as the specification does, seq(s)[i], so that its quantified facts apply.
func (x *Exec) seqFact(st *State, s, i *Term, el types.Type) {
	off := SlOff(s)
	if off.num != nil && off.num.Sign() == 0 {
		return
	}
	a := Select(x.get(st, memComp(el)), SlArr(s))
	sh := shiftArr(a, off)
	if sh == a {
		return
	}
	st.assume(mk("=", SBool, mk("select", arrElem(a.S), sh, i), Select(a, Add(off, i))))
}
