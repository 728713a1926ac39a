package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// boxedVars finds locals whose address is taken, so that they live on the heap.
func (x *Exec) boxedVars(p *Pkg, d *ast.FuncDecl) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	if d.Body == nil {
		return out
	}
	root := func(e ast.Expr) *types.Var {
		for {
			switch n := ast.Unparen(e).(type) {
			case *ast.Ident:
				v, _ := p.Info.ObjectOf(n).(*types.Var)
				if v != nil && !x.isGlobal(v) {
					return v
				}
				return nil
			case *ast.SelectorExpr:
				if t := p.Info.TypeOf(n.X); t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return nil
					}
				}
				e = n.X
			default:
				return nil
			}
		}
	}
	ast.Inspect(d, func(n ast.Node) bool {
		switch e := n.(type) {
		case *ast.UnaryExpr:
			if e.Op == token.AND {
				if v := root(e.X); v != nil {
					if _, ok := isStructVal(v.Type()); ok {
						out[v] = true
					} else if _, ok := ast.Unparen(e.X).(*ast.Ident); ok {
						out[v] = true
					}
				}
			}
		case *ast.SliceExpr: // a slice of an array variable shares its elements
			if t := p.Info.TypeOf(e.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
						if v := root(id); v != nil {
							out[v] = true
						}
					}
				}
			}
		case *ast.SelectorExpr:
			// pointer method on an addressable struct variable
			if s, ok := p.Info.Selections[e]; ok && s.Kind() == types.MethodVal {
				f := s.Obj().(*types.Func)
				sig := f.Type().(*types.Signature)
				if sig.Recv() != nil {
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						if _, xp := p.Info.TypeOf(e.X).Underlying().(*types.Pointer); !xp {
							if v := root(e.X); v != nil {
								if _, ok := isStructVal(v.Type()); ok {
									out[v] = true
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	return out
}

// block executes statements in sequence from several states.
func (x *Exec) block(fr *Frame, sts []*State, list []ast.Stmt) []Out {
	var done []Out
	cur := sts
	for _, s := range list {
		var nx []*State
		for _, st := range cur {
			if st.dead() {
				continue
			}
			for _, o := range x.stmt(fr, st, s, "") {
				if o.st.pan != nil {
					o.kind, o.label = "panic", ""
				}
				if o.kind == "next" {
					nx = append(nx, o.st)
				} else {
					done = append(done, o)
				}
			}
		}
		cur = nx
		if len(cur) > 4000 {
			x.unsupported("too many paths")
		}
		if len(cur) == 0 {
			break
		}
	}
	for _, st := range cur {
		done = append(done, Out{st: st, kind: "next"})
	}
	return done
}

func next(st *State) []Out { return []Out{{st: st, kind: "next"}} }

func (x *Exec) branch(fr *Frame, st *State, cond *Term) (*State, *State) {
	t, f := st, st.clone()
	t.assume(cond)
	f.assume(Not(cond))
	return t, f
}

func (x *Exec) stmt(fr *Frame, st *State, s ast.Stmt, label string) []Out {
	x.curNode = s
	if st.pan != nil {
		return []Out{{st: st, kind: "panic"}}
	}
	switch n := s.(type) {
	case *ast.EmptyStmt:
		return next(st)
	case *ast.BlockStmt:
		return x.block(fr, []*State{st}, n.List)
	case *ast.ExprStmt:
		var out []Out
		if c, ok := ast.Unparen(n.X).(*ast.CallExpr); ok {
			for _, r := range x.evalCall(fr, st, c) {
				out = append(out, Out{st: r.st, kind: "next"})
			}
			return out
		}
		for _, r := range x.eval(fr, st, n.X) {
			out = append(out, Out{st: r.st, kind: "next"})
		}
		return out
	case *ast.LabeledStmt:
		return x.stmt(fr, st, n.Stmt, n.Label.Name)
	case *ast.DeclStmt:
		return x.declStmt(fr, st, n)
	case *ast.AssignStmt:
		return x.assign(fr, st, n)
	case *ast.IncDecStmt:
		var out []Out
		for _, p := range x.place(fr, st, n.X) {
			v := x.load(p.st, p.p)
			op := token.ADD
			if n.Tok == token.DEC {
				op = token.SUB
			}
			ty := fr.typeOf(n.X)
			oneT := IntLit(1)
			if v.T.S == SBV8 {
				oneT = BVLit(1)
			} else if v.T.S == SReal {
				oneT = mk("1.0", SReal)
			}
			if p.p.kind == "map" {
				x.unsupported("increment of a map element")
			}
			x.storeChecked(fr, p.st, p.p, Val{T: x.arith(p.st, op, v.T, oneT, ty, n.X), Ty: ty}, n.X)
			out = append(out, Out{st: p.st, kind: "next"})
		}
		return out
	case *ast.IfStmt:
		return x.ifStmt(fr, st, n)
	case *ast.ForStmt:
		return x.forStmt(fr, st, n, label)
	case *ast.RangeStmt:
		return x.rangeStmt(fr, st, n, label)
	case *ast.SwitchStmt:
		return x.switchStmt(fr, st, n, label)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(fr, st, n, label)
	case *ast.ReturnStmt:
		return x.returnStmt(fr, st, n)
	case *ast.BranchStmt:
		l := ""
		if n.Label != nil {
			l = n.Label.Name
		}
		switch n.Tok {
		case token.BREAK:
			return []Out{{st: st, kind: "break", label: l}}
		case token.CONTINUE:
			return []Out{{st: st, kind: "continue", label: l}}
		}
		x.unsupported("%s at %s", n.Tok, x.pos(n))
	case *ast.DeferStmt:
		// evaluate the function value and arguments now for literals; a method call with constant receiver is evaluated late
		if lit, ok := ast.Unparen(n.Call.Fun).(*ast.FuncLit); ok {
			var out []Out
			for _, r := range x.evalN(fr, st, n.Call.Args) {
				v := Val{Clo: &Closure{Lit: lit, Fr: fr, Sub: fr.sub}, Ty: fr.typeOf(lit)}
				r.st.defers = append(append([]deferred(nil), r.st.defers...), deferred{fr: fr, call: n.Call, args: r.vs, fn: &v})
				out = append(out, Out{st: r.st, kind: "next"})
			}
			return out
		}
		if pd := x.loopDefer(fr, n); pd != nil {
			// deferred read-unlock in a loop: counted per mutex, released together at the end of the function
			var out []Out
			for _, c := range x.resolve(fr, st, n.Call.Fun, n.Call) {
				p := c.c.recvPlace
				if p == nil || p.kind != "heap" || p.c != pd.mux {
					x.unsupported("deferred unlock at %s", x.pos(n))
				}
				cur := x.get(c.st, pd.pend)
				x.put(c.st, pd.pend, p.ref, Store(cur, p.ref, Add(Select(cur, p.ref), IntLit(1))))
				out = append(out, Out{st: c.st, kind: "next"})
			}
			return out
		}
		if id, ok := ast.Unparen(n.Call.Fun).(*ast.Ident); ok && id.Name == "close" && fr.fn.Pkg.Info.Uses[id] == types.Universe.Lookup("close") {
			var out []Out
			for _, r := range x.evalN(fr, st, n.Call.Args) {
				r.st.defers = append(append([]deferred(nil), r.st.defers...), deferred{fr: fr, call: n.Call, args: r.vs})
				out = append(out, Out{st: r.st, kind: "next"})
			}
			return out
		}
		if len(n.Call.Args) > 0 {
			var out []Out
			for _, c := range x.resolve(fr, st, n.Call.Fun, n.Call) {
				for _, a := range x.evalArgs(fr, c.st, n.Call, c.c) {
					a.st.defers = append(append([]deferred(nil), a.st.defers...), deferred{fr: fr, call: n.Call, args: a.vs, c: c.c})
					out = append(out, Out{st: a.st, kind: "next"})
				}
			}
			return out
		}
		st.defers = append(append([]deferred(nil), st.defers...), deferred{fr: fr, call: n.Call})
		return next(st)
	case *ast.SendStmt:
		var out []Out
		for _, r := range x.evalN(fr, st, []ast.Expr{n.Chan, n.Value}) {
			if x.threads() {
				x.thSend(fr, r.st, r.vs[0], r.vs[1], n)
			} else {
				x.sendChan(r.st, n, r.vs[0], r.vs[1])
			}
			out = append(out, Out{st: r.st, kind: "next"})
		}
		return out
	case *ast.GoStmt:
		if x.threads() {
			return x.goStmt(fr, st, n)
		}
		if !x.rootSpecOpt("gosync") {
			x.unsupported("concurrency statement at %s", x.pos(n))
		}
		x.notes["a goroutine started by "+x.rootKey+" is taken to run to its end at once"] = true
		return x.stmt(fr, st, &ast.ExprStmt{X: n.Call}, "")
	case *ast.SelectStmt:
		if x.threads() {
			return x.selectStmt(fr, st, n, label)
		}
		x.unsupported("concurrency statement at %s", x.pos(n))
	}
	x.unsupported("statement %T at %s", s, x.pos(s))
	return nil
}

func (x *Exec) storeChecked(fr *Frame, st *State, p *Place, v Val, n ast.Node) {
	if p.kind == "heap" {
		x.guardCheck(st, p, n, true)
	}
	if p.kind == "map" {
		x.check(st, Not(Eq(p.ref, Null)), "nil", "no write to a nil map: "+x.src(n), n, nil)
	}
	x.store(st, p, v)
}

func (x *Exec) declStmt(fr *Frame, st *State, n *ast.DeclStmt) []Out {
	gd, ok := n.Decl.(*ast.GenDecl)
	if !ok || gd.Tok != token.VAR {
		return next(st)
	}
	cur := []*State{st}
	for _, sp := range gd.Specs {
		vs := sp.(*ast.ValueSpec)
		var nx []*State
		for _, s := range cur {
			if len(vs.Values) == 0 {
				for _, nm := range vs.Names {
					if v, ok := fr.pkg.Info.Defs[nm].(*types.Var); ok {
						x.declare(fr, s, v, Val{T: zeroOf(fr.varType(v)), Ty: fr.varType(v)})
					}
				}
				nx = append(nx, s)
				continue
			}
			for _, r := range x.evalRHS(fr, s, vs.Values, len(vs.Names)) {
				for i, nm := range vs.Names {
					if v, ok := fr.pkg.Info.Defs[nm].(*types.Var); ok && nm.Name != "_" {
						x.declare(fr, r.st, v, x.coerce(r.st, r.vs[i], fr.varType(v)))
					}
				}
				nx = append(nx, r.st)
			}
		}
		cur = nx
	}
	var out []Out
	for _, s := range cur {
		out = append(out, Out{st: s, kind: "next"})
	}
	return out
}

// evalRHS evaluates right-hand sides, expanding a multi-value expression.
func (x *Exec) evalRHS(fr *Frame, st *State, es []ast.Expr, want int) []SVs {
	if len(es) == 1 && want > 1 {
		switch e := ast.Unparen(es[0]).(type) {
		case *ast.CallExpr:
			return x.evalCall(fr, st, e)
		case *ast.IndexExpr:
			m := under(fr.typeOf(e.X)).(*types.Map)
			var out []SVs
			for _, r := range x.evalN(fr, st, []ast.Expr{e.X, e.Index}) {
				v, in := x.mapGet(r.st, m, r.vs[0].T, x.coerce(r.st, r.vs[1], m.Key()).T)
				out = append(out, SVs{r.st, []Val{v, {T: in, Ty: TBool}}})
			}
			return out
		case *ast.TypeAssertExpr:
			var out []SVs
			for _, r := range x.eval(fr, st, e.X) {
				t := fr.typeOf(e.Type)
				v, ok := x.unbox(r.st, r.v.T, t)
				x.typeFactsIf(r.st, ok, v, t)
				out = append(out, SVs{r.st, []Val{{T: Ite(ok, v, zeroOf(t)), Ty: t}, {T: ok, Ty: TBool}}})
			}
			return out
		}
		if u, ok := ast.Unparen(es[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && x.threads() {
			var out []SVs
			for _, r := range x.eval(fr, st, u.X) {
				out = append(out, x.recvBoth(fr, r.st, r.v, u)...)
			}
			return out
		}
		x.unsupported("multi-value expression at %s", x.pos(es[0]))
	}
	return x.fixTypes(fr, es, x.evalN(fr, st, es))
}

func (x *Exec) typeFactsIf(st *State, c, v *Term, t types.Type) {
	for _, f := range x.typeFacts(st, v, t) {
		st.assume(Implies(c, f))
	}
}

func (x *Exec) assign(fr *Frame, st *State, n *ast.AssignStmt) []Out {
	var out []Out
	if n.Tok != token.ASSIGN && n.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
			token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[n.Tok]
		ty := fr.typeOf(n.Lhs[0])
		for _, p := range x.place(fr, st, n.Lhs[0]) {
			for _, r := range x.eval(fr, p.st, n.Rhs[0]) {
				if p.p.kind == "map" {
					x.unsupported("op-assign to a map element at %s", x.pos(n))
				}
				v := x.load(r.st, p.p)
				var t *Term
				if op == token.SHL || op == token.SHR {
					t = x.shift(r.st, op, v.T, r.v.T, ty, fr.typeOf(n.Rhs[0]), n.Lhs[0])
				} else {
					b := r.v
					if b.T.S != v.T.S {
						b = x.coerce(r.st, b, ty)
					}
					t = x.arith(r.st, op, v.T, b.T, ty, n.Lhs[0])
				}
				x.storeChecked(fr, r.st, p.p, Val{T: t, Ty: ty}, n.Lhs[0])
				out = append(out, Out{st: r.st, kind: "next"})
			}
		}
		return out
	}
	// places of existing variables first, then values, then stores
	type pend struct {
		st *State
		ps []*Place
	}
	cur := []pend{{st, nil}}
	for _, l := range n.Lhs {
		var nx []pend
		for _, c := range cur {
			if id, ok := ast.Unparen(l).(*ast.Ident); ok {
				if id.Name == "_" {
					nx = append(nx, pend{c.st, append(append([]*Place(nil), c.ps...), &Place{kind: "blank"})})
					continue
				}
				if n.Tok == token.DEFINE {
					if _, isDef := fr.pkg.Info.Defs[id].(*types.Var); isDef {
						nx = append(nx, pend{c.st, append(append([]*Place(nil), c.ps...), nil)})
						continue
					}
				}
			}
			for _, p := range x.place(fr, c.st, l) {
				nx = append(nx, pend{p.st, append(append([]*Place(nil), c.ps...), p.p)})
			}
		}
		cur = nx
	}
	for _, c := range cur {
		for _, r := range x.evalRHS(fr, c.st, n.Rhs, len(n.Lhs)) {
			if len(r.vs) != len(n.Lhs) {
				x.unsupported("assignment count at %s", x.pos(n))
			}
			for i, p := range c.ps {
				if p == nil {
					id := ast.Unparen(n.Lhs[i]).(*ast.Ident)
					v := fr.pkg.Info.Defs[id].(*types.Var)
					x.declare(fr, r.st, v, x.coerce(r.st, r.vs[i], fr.varType(v)))
					continue
				}
				if p.kind == "blank" {
					continue
				}
				x.storeChecked(fr, r.st, p, x.coerce(r.st, r.vs[i], p.Ty), n.Lhs[i])
			}
			if len(n.Lhs) == 1 && len(r.vs) == 1 && r.vs[0].Clo != nil && r.vs[0].Clo.Lit != nil {
				if id, ok := ast.Unparen(n.Lhs[0]).(*ast.Ident); ok {
					x.localContract(fr, r.st, id, r.vs[0].Clo)
				}
			}
			out = append(out, Out{st: r.st, kind: "next"})
		}
	}
	return out
}

func (x *Exec) ifStmt(fr *Frame, st *State, n *ast.IfStmt) []Out {
	sts := []*State{st}
	var out []Out
	if n.Init != nil {
		sts = nil
		for _, o := range x.stmt(fr, st, n.Init, "") {
			if o.kind == "next" {
				sts = append(sts, o.st)
			} else {
				out = append(out, o)
			}
		}
	}
	for _, s := range sts {
		for _, r := range x.eval(fr, s, n.Cond) {
			base := r.st.pc
			t, f := x.branch(fr, r.st, r.v.T)
			var ot, of []Out
			if !t.dead() {
				ot = x.block(fr, []*State{t}, n.Body.List)
			}
			if !f.dead() {
				if n.Else != nil {
					of = x.stmt(fr, f, n.Else, "")
				} else {
					of = next(f)
				}
			}
			if m := x.tryMerge(fr, r.v.T, base, ot, of); m != nil {
				out = append(out, *m)
				continue
			}
			out = append(out, ot...)
			out = append(out, of...)
		}
	}
	return out
}

// tryMerge joins the two branches of an if statement into one state.
func (x *Exec) tryMerge(fr *Frame, cond *Term, base *PC, a, b []Out) *Out {
	if x.spec == nil || x.spec.Opt["nomerge"] {
		return nil
	}
	var na, nb *State
	var rest int
	for _, o := range a {
		if o.st.dead() {
			continue
		}
		if o.kind == "next" && na == nil {
			na = o.st
		} else {
			rest++
		}
	}
	for _, o := range b {
		if o.st.dead() {
			continue
		}
		if o.kind == "next" && nb == nil {
			nb = o.st
		} else {
			rest++
		}
	}
	if rest > 0 || na == nil || nb == nil {
		return nil
	}
	if !x.spec.Opt["merge"] {
		// merge only when the branches differ in plain local values
		if !cheapMerge(na, nb) {
			return nil
		}
	}
	if len(na.defers) != len(nb.defers) {
		return nil
	}
	// differing closures cannot be merged
	for v, p := range na.locals {
		q, ok := nb.locals[v]
		if !ok {
			continue
		}
		if p.Clo != q.Clo || p.Place != q.Place {
			return nil
		}
		if p.T != nil && q.T != nil && p.T.S != q.T.S {
			return nil
		}
	}
	m := na.clone()
	fa, fb := pcSince(na.pc, base), pcSince(nb.pc, base)
	m.pc = base
	for _, t := range fa {
		if t != cond {
			m.assume(Implies(cond, t))
		}
	}
	nc := Not(cond)
	for _, t := range fb {
		if t != nc {
			m.assume(Implies(nc, t))
		}
	}
	for v, p := range na.locals {
		q, ok := nb.locals[v]
		if !ok {
			delete(m.locals, v)
			continue
		}
		if p.T != q.T && p.T != nil && q.T != nil {
			p.T = x.nameIte(m, Ite(cond, p.T, q.T))
			m.locals[v] = p
		}
	}
	for _, n := range unionKeys(na.comps, nb.comps) {
		c := compTab[n]
		p, q := x.get(na, c), x.get(nb, c)
		if p != q {
			if c.s != SInt && c.s != SBool {
				k := NewConst("mg$"+n, c.s)
				m.assume(mk("=", SBool, k, mk("ite", c.s, cond, p, q)))
				x.compFacts(m, c, k)
				m.comps[n] = k
			} else {
				m.comps[n] = Ite(cond, p, q)
			}
		} else {
			m.comps[n] = p
		}
	}
	mergeInt := func(a, b, out map[int]*Term) bool {
		for k, p := range a {
			q, ok := b[k]
			if !ok {
				delete(out, k)
				continue
			}
			if p != q {
				out[k] = Ite(cond, p, q)
			}
		}
		return true
	}
	mergeInt(na.its, nb.its, m.its)
	mergeInt(na.pos, nb.pos, m.pos)
	mergeInt(na.vis, nb.vis, m.vis)
	return &Out{st: m, kind: "next"}
}

func (x *Exec) nameIte(st *State, t *Term) *Term {
	if t.size < 12 || t.S == SBool || len(t.Args) == 0 {
		return t
	}
	c := NewConst("v", t.S)
	st.assume(mk("=", SBool, c, t))
	return c
}

func cheapMerge(a, b *State) bool {
	n := 0
	for _, k := range unionKeys(a.comps, b.comps) {
		p, q := a.comps[k], b.comps[k]
		if p == nil || q == nil {
			continue
		}
		if p != q {
			return false
		}
	}
	for v, p := range a.locals {
		if q, ok := b.locals[v]; ok && p.T != q.T {
			n++
		}
	}
	return n <= 3
}

func unionKeys(a, b map[string]*Term) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func pcSince(p, base *PC) []*Term {
	var out []*Term
	for q := p; q != nil && q != base; q = q.up {
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) switchStmt(fr *Frame, st *State, n *ast.SwitchStmt, label string) []Out {
	var out []Out
	sts := []*State{st}
	if n.Init != nil {
		sts = nil
		for _, o := range x.stmt(fr, st, n.Init, "") {
			if o.kind == "next" {
				sts = append(sts, o.st)
			} else {
				out = append(out, o)
			}
		}
	}
	finish := func(os []Out) {
		for _, o := range os {
			if o.kind == "break" && (o.label == "" || o.label == label) {
				o.kind, o.label = "next", ""
			}
			out = append(out, o)
		}
	}
	for _, s0 := range sts {
		var tags []SV
		if n.Tag != nil {
			tags = x.eval(fr, s0, n.Tag)
		} else {
			tags = []SV{{s0, Val{T: True, Ty: TBool}}}
		}
		for _, tg := range tags {
			cur := []*State{tg.st}
			var def *ast.CaseClause
			clauses := n.Body.List
			bodyFrom := func(i int, st *State) []Out {
				// fallthrough chains
				sts := []*State{st}
				var res []Out
				for ; i < len(clauses); i++ {
					cc := clauses[i].(*ast.CaseClause)
					list := cc.Body
					ft := false
					if k := len(list); k > 0 {
						if b, ok := list[k-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
							ft = true
							list = list[:k-1]
						}
					}
					os := x.block(fr, sts, list)
					if !ft {
						return append(res, os...)
					}
					sts = nil
					for _, o := range os {
						if o.kind == "next" {
							sts = append(sts, o.st)
						} else {
							res = append(res, o)
						}
					}
				}
				return res
			}
			defIdx := -1
			for i, c := range clauses {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
					defIdx = i
					continue
				}
				var nx []*State
				for _, s := range cur {
					type ev struct {
						st *State
						c  *Term
					}
					evs := []ev{{s, False}}
					for _, e := range cc.List {
						var ne []ev
						for _, v := range evs {
							for _, r := range x.eval(fr, v.st, e) {
								var t *Term
								if n.Tag == nil {
									t = r.v.T
								} else {
									t = x.equal(fr, r.st, tg.v, r.v, fr.typeOf(n.Tag), fr.typeOf(e), e)
								}
								ne = append(ne, ev{r.st, Or(v.c, t)})
							}
						}
						evs = ne
					}
					for _, v := range evs {
						t, f := x.branch(fr, v.st, v.c)
						if !t.dead() {
							finish(bodyFrom(i, t))
						}
						if !f.dead() {
							nx = append(nx, f)
						}
					}
				}
				cur = nx
			}
			for _, s := range cur {
				if def != nil {
					finish(bodyFrom(defIdx, s))
				} else {
					out = append(out, Out{st: s, kind: "next"})
				}
			}
		}
	}
	return out
}

func (x *Exec) typeSwitch(fr *Frame, st *State, n *ast.TypeSwitchStmt, label string) []Out {
	var out []Out
	if n.Init != nil {
		x.unsupported("type switch init")
	}
	var e ast.Expr
	switch a := n.Assign.(type) {
	case *ast.ExprStmt:
		e = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		e = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	for _, r := range x.eval(fr, st, e) {
		cur := []*State{r.st}
		var def *ast.CaseClause
		run := func(cc *ast.CaseClause, s *State, v Val) {
			if obj, ok := fr.pkg.Info.Implicits[cc].(*types.Var); ok {
				x.declare(fr, s, obj, v)
			}
			for _, o := range x.block(fr, []*State{s}, cc.Body) {
				if o.kind == "break" && (o.label == "" || o.label == label) {
					o.kind, o.label = "next", ""
				}
				out = append(out, o)
			}
		}
		for _, c := range n.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = cc
				continue
			}
			var nx []*State
			for _, s := range cur {
				cond := False
				v := r.v
				for _, te := range cc.List {
					if id, ok := te.(*ast.Ident); ok && id.Name == "nil" {
						cond = Or(cond, Eq(r.v.T, Const("any.nil", SAny)))
						continue
					}
					t := fr.typeOf(te)
					tv, is := x.unbox(s, r.v.T, t)
					cond = Or(cond, is)
					if len(cc.List) == 1 {
						v = Val{T: tv, Ty: t}
					}
				}
				t, f := x.branch(fr, s, cond)
				if !t.dead() {
					if len(cc.List) == 1 {
						x.assumeType(t, v.T, v.Ty)
					}
					run(cc, t, v)
				}
				if !f.dead() {
					nx = append(nx, f)
				}
			}
			cur = nx
		}
		for _, s := range cur {
			if def != nil {
				run(def, s, r.v)
			} else {
				out = append(out, Out{st: s, kind: "next"})
			}
		}
	}
	return out
}

func (x *Exec) returnStmt(fr *Frame, st *State, n *ast.ReturnStmt) []Out {
	sig := fr.sig
	nres := sig.Results().Len()
	if len(n.Results) == 0 {
		var vs []Val
		if nres > 0 {
			vs = x.namedResults(fr, st)
		}
		return []Out{{st: st, kind: "return", vals: vs}}
	}
	var out []Out
	for _, r := range x.evalRHS(fr, st, n.Results, nres) {
		var vs []Val
		for i, v := range r.vs {
			rt := substT(sig.Results().At(i).Type(), fr.sub)
			vs = append(vs, x.coerce(r.st, v, rt))
		}
		// named results are assigned, so that deferred calls see them
		if len(fr.results) == nres {
			for i, rv := range fr.results {
				x.setVar(fr, r.st, rv, vs[i])
			}
		}
		out = append(out, Out{st: r.st, kind: "return", vals: vs})
	}
	return out
}

// ---- loops ----

type loopCtx struct {
	fr     *Frame
	node   ast.Stmt
	num    int
	own    *LoopSpec // from the enclosing (possibly inlined) function's own contract
	root   *LoopSpec // from the contract of the function being verified
	label  string
	traced bool
	ownFr  *Frame // the inlined function with the contract own
}

func mentions(e *SExpr, id string) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" && e.S == id {
		return true
	}
	for _, a := range e.Args {
		if mentions(a, id) {
			return true
		}
	}
	return false
}

// loopSpec numbers loops: in the function verified, loops count in order of first execution, loops of inlined
// helpers and closures included, unless the helper has loop contracts of its own.
func (x *Exec) loopSpec(fr *Frame, n ast.Stmt, label string) *loopCtx {
	lc := &loopCtx{fr: fr, node: n, label: label, traced: x.rootSpecOpt("trace")}
	key := fmt.Sprintf("%s#%d", fr.path, n.Pos())
	f := fr
	for f.def != nil {
		f = f.def
	}
	// own contract of an inlined callee
	if f.up != nil && f.spec != nil && len(f.spec.Loops) > 0 {
		k := sourceOrdinal(f.fn.Decl, n)
		if missingLoops(f) {
			k = x.helperLoop(f, key)
		}
		lc.own, lc.ownFr = f.spec.Loops[k], f
		if !f.spec.Opt["shareloops"] {
			lc.num = 1000 + k
			return lc
		}
	}
	// a loop of a helper of an inlined callee with a contract
	for g := f; g.up != nil && g.spec == nil; {
		g = g.up
		for g.def != nil {
			g = g.def
		}
		if g.up == nil || g.spec == nil || len(g.spec.Loops) == 0 || g.spec.Opt["shareloops"] {
			continue
		}
		if !missingLoops(g) {
			break
		}
		k := x.helperLoop(g, key)
		lc.own, lc.ownFr = g.spec.Loops[k], g
		lc.num = 1000 + k
		return lc
	}
	num, ok := x.loopOrd[key]
	if !ok {
		x.nloops++
		num = x.nloops
		x.loopOrd[key] = num
	}
	lc.num = num
	if x.spec != nil {
		lc.root = x.spec.Loops[num]
	}
	return lc
}

// missingLoops: the contract speaks of more loops than the function has (some are in helpers).
func missingLoops(f *Frame) bool {
	k := sourceLoops(f.fn.Decl)
	for n := range f.spec.Loops {
		if n > k {
			return true
		}
	}
	return false
}

// helperLoop numbers the loops of f and its helpers in order of execution.
func (x *Exec) helperLoop(f *Frame, key string) int {
	id := f.path + "|" + key
	k := x.helperOrd[id]
	if k == 0 {
		x.helperOrd[f.path]++
		k = x.helperOrd[f.path]
		x.helperOrd[id] = k
	}
	return k
}

func sourceLoops(d *ast.FuncDecl) int {
	k := 0
	ast.Inspect(d, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			k++
		}
		return true
	})
	return k
}

func sourceOrdinal(d *ast.FuncDecl, n ast.Stmt) int {
	k, res := 0, 0
	ast.Inspect(d, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			k++
			if m == ast.Node(n) {
				res = k
			}
		}
		return true
	})
	return res
}

// ownVars: the parameters of the inlined function, by their names in its contract.
func (lc *loopCtx) ownVars() (map[string]*types.Var, *Frame) {
	f := lc.ownFr
	if f == nil || lc.own == nil || lc.root != nil || f.fn == nil || len(f.spec.CParams) == 0 {
		return nil, nil
	}
	recv, ps := declaredParams(f.fn)
	rn, ns := paramNames(f.spec, recv, ps)
	m := map[string]*types.Var{}
	if recv != nil {
		m[rn] = recv
	}
	for i, p := range ps {
		m[ns[i]] = p
	}
	return m, f
}

// spares are the invariants that a second proof may try.
func (lc *loopCtx) spares() []*Clause {
	var out []*Clause
	if lc.own != nil {
		out = append(out, lc.own.Spare...)
	}
	if lc.root != nil && lc.root != lc.own {
		out = append(out, lc.root.Spare...)
	}
	return out
}

func (lc *loopCtx) invs() []*Clause {
	var out []*Clause
	if lc.own != nil {
		for _, c := range lc.own.Inv {
			// recorded calls exist only for unknown function values
			if lc.traced || !mentions(c.E, "calls") && !mentions(c.E, "callarg") {
				out = append(out, c)
			}
		}
	}
	if lc.root != nil {
		out = append(out, lc.root.Inv...)
	}
	return out
}
func (lc *loopCtx) opt(o string) bool {
	return lc.own != nil && lc.own.Opt[o] || lc.root != nil && lc.root.Opt[o]
}
func (lc *loopCtx) hints(k int) []*Clause {
	var out []*Clause
	for _, l := range []*LoopSpec{lc.own, lc.root} {
		if l == nil {
			continue
		}
		switch k {
		case 0:
			out = append(out, l.PreHints...)
		case 1:
			out = append(out, l.HeadHints...)
		case 2:
			out = append(out, l.Hints...)
		case 3:
			out = append(out, l.ExitHints...)
		}
	}
	return out
}
func (lc *loopCtx) dec() []*SExpr {
	for _, l := range []*LoopSpec{lc.own, lc.root} {
		if l != nil && len(l.Dec) > 0 {
			return l.Dec
		}
	}
	return nil
}
func (lc *loopCtx) frames() []*ModClause {
	var out []*ModClause
	for _, l := range []*LoopSpec{lc.own, lc.root} {
		if l != nil {
			out = append(out, l.Frames...)
		}
	}
	return out
}
func (lc *loopCtx) noframe() bool {
	return lc.own != nil && lc.own.NoFrame || lc.root != nil && lc.root.NoFrame
}

// loopParts abstracts the loop kinds: step evaluates the condition and enters the body in the "in" states.
type loopParts struct {
	enter   func(st *State) (in []*State, exit []*State)
	body    func(st *State) []Out
	post    func(st *State) []Out
	atExit  func(st *State)
	autoDec func(st *State) *Term
	facts   func(st *State) // facts assumed at the head (for range loops)
	cond    ast.Expr        // condition of a for loop
}

func (x *Exec) forStmt(fr *Frame, st *State, n *ast.ForStmt, label string) []Out {
	var out []Out
	sts := []*State{st}
	if n.Init != nil {
		sts = nil
		for _, o := range x.stmt(fr, st, n.Init, "") {
			if o.kind == "next" {
				sts = append(sts, o.st)
			} else {
				out = append(out, o)
			}
		}
	}
	lc := x.loopSpec(fr, n, label)
	p := &loopParts{
		cond: n.Cond,
		enter: func(s *State) (in, ex []*State) {
			if n.Cond == nil {
				return []*State{s}, nil
			}
			for _, r := range x.eval(fr, s, n.Cond) {
				t, f := x.branch(fr, r.st, r.v.T)
				if !t.dead() {
					in = append(in, t)
				}
				if !f.dead() {
					ex = append(ex, f)
				}
			}
			return
		},
		body: func(s *State) []Out { return x.block(fr, []*State{s}, n.Body.List) },
		post: func(s *State) []Out {
			if n.Post == nil {
				return next(s)
			}
			return x.stmt(fr, s, n.Post, "")
		},
	}
	for _, s := range sts {
		out = append(out, x.loop(lc, s, p)...)
	}
	return out
}

func (x *Exec) rangeStmt(fr *Frame, st *State, n *ast.RangeStmt, label string) []Out {
	lc := x.loopSpec(fr, n, label)
	rt := fr.typeOf(n.X)
	assignKV := func(s *State, k, v *Val) {
		set := func(e ast.Expr, val *Val) {
			if e == nil || val == nil {
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					return
				}
				if n.Tok == token.DEFINE {
					if o, ok := fr.pkg.Info.Defs[id].(*types.Var); ok {
						x.declare(fr, s, o, x.coerce(s, *val, fr.varType(o)))
						return
					}
				}
			}
			ps := x.place(fr, s, e)
			if len(ps) != 1 {
				x.unsupported("range variable")
			}
			x.storeChecked(fr, s, ps[0].p, x.coerce(s, *val, ps[0].p.Ty), e)
		}
		set(n.Key, k)
		set(n.Value, v)
	}
	var out []Out
	for _, r := range x.eval(fr, st, n.X) {
		s := r.st
		num := lc.num
		if _, ok := under(rt).(*types.Chan); ok && x.threads() {
			out = append(out, x.rangeChan(fr, s, n, r.v, lc, assignKV)...)
			continue
		}
		switch u := under(rt).(type) {
		case *types.Slice, *types.Array, *types.Basic, *types.Pointer:
			var ln *Term
			var elem func(s *State, i *Term) *Val
			str := false
			switch u := u.(type) {
			case *types.Slice:
				sl := r.v.T
				x.assumeType(s, sl, rt)
				ln = SlLen(sl)
				elem = func(s *State, i *Term) *Val {
					x.seqFact(s, sl, i, u.Elem())
					p := &Place{kind: "mem", c: memComp(u.Elem()), ref: SlArr(sl), idx: Add(SlOff(sl), i), Ty: u.Elem()}
					v := x.load(s, p)
					return &v
				}
			case *types.Array:
				av := r.v.T
				ln = IntLit(u.Len())
				elem = func(s *State, i *Term) *Val { return &Val{T: Select(av, i), Ty: u.Elem()} }
			case *types.Pointer:
				x.unsupported("range over array pointer")
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					str = true
					s.assume(And(strFacts(r.v.T)...))
				} else {
					ln = r.v.T
					elem = func(s *State, i *Term) *Val { return nil }
				}
			}
			if str {
				out = append(out, x.rangeString(fr, s, n, lc, r.v.T, assignKV)...)
				continue
			}
			p := &loopParts{
				enter: func(s *State) (in, ex []*State) {
					i := s.its[num]
					t, f := x.branch(fr, s, Lt(i, ln))
					if !t.dead() {
						kv := Val{T: i, Ty: TInt}
						if n.Value != nil {
							assignKV(t, &kv, elem(t, i))
						} else {
							assignKV(t, &kv, nil)
						}
						in = append(in, t)
					}
					if !f.dead() {
						ex = append(ex, f)
					}
					return
				},
				body: func(s *State) []Out { return x.block(fr, []*State{s}, n.Body.List) },
				post: func(s *State) []Out { return next(s) },
				facts: func(s *State) {
					s.assume(Or(Le(s.its[num], ln), Lt(ln, IntLit(0))))
				},
				autoDec: func(s *State) *Term { return Sub(ln, s.its[num]) },
			}
			out = append(out, x.loop(lc, s, p)...)
		case *types.Map:
			m := r.v.T
			x.assumeType(s, m, rt)
			d := mapDom(u)
			ks := sortOf(u.Key())
			s.vis[num] = zeroArr(Arr(ks, SBool), False)
			dom0 := Select(x.get(s, d), m)
			card0 := Select(x.get(s, mapCard(u)), m)
			// the order of this iteration: keys[i] is the key of iteration i, kidx its inverse
			keys := NewConst("keys", Arr(SInt, ks))
			kidx := NewConst("kidx", Arr(ks, SInt))
			s.vis[-num] = keys
			p := &loopParts{
				enter: func(s *State) (in, ex []*State) {
					t, f := s, s.clone()
					k := NewConst("key", ks)
					x.assumeType(t, k, u.Key())
					domT := Select(x.get(t, d), m)
					t.assume(Select(domT, k))
					t.assume(Not(Select(t.vis[num], k)))
					t.assume(Eq(k, Select(keys, t.its[num])))
					t.assume(Implies(Eq(domT, dom0), Lt(t.its[num], card0)))
					t.vis[num] = Store(t.vis[num], k, True)
					kv := Val{T: k, Ty: u.Key()}
					if n.Value != nil {
						vv, _ := x.mapGet(t, u, m, k)
						assignKV(t, &kv, &vv)
					} else {
						assignKV(t, &kv, nil)
					}
					if !t.dead() {
						in = append(in, t)
					}
					q := BoundVar("k", ks)
					domF := Select(x.get(f, d), m)
					sel := mk("select", SBool, domF, q)
					vs := mk("select", SBool, f.vis[num], q)
					// keys added during the iteration may be left out
					both := Implies(And(Select(domF, q), Select(dom0, q)), Select(f.vis[num], q))
					f.assume(Forall([]*Term{q}, [][]*Term{{sel}, {vs}}, both))
					f.assume(Implies(Eq(domF, dom0), Eq(f.its[num], card0)))
					if !f.dead() {
						ex = append(ex, f)
					}
					return
				},
				body: func(s *State) []Out { return x.block(fr, []*State{s}, n.Body.List) },
				post: func(s *State) []Out { return next(s) },
				facts: func(s *State) {
					// only keys of the map have been visited
					same := Eq(Select(x.get(s, d), m), dom0)
					q := BoundVar("k", ks)
					vs := mk("select", SBool, s.vis[num], q)
					s.assume(Implies(same, Forall([]*Term{q}, [][]*Term{{vs}}, Implies(Select(s.vis[num], q), Select(dom0, q)))))
					s.assume(Implies(same, Le(s.its[num], card0)))
					it := s.its[num]
					s.assume(Forall([]*Term{q}, [][]*Term{{vs}}, Implies(Select(s.vis[num], q), And(Le(IntLit(0), Select(kidx, q)), Lt(Select(kidx, q), it), Eq(Select(keys, Select(kidx, q)), q)))))
					qi := BoundVar("i", SInt)
					ki := mk("select", ks, keys, qi)
					s.assume(Forall([]*Term{qi}, [][]*Term{{ki}}, Implies(And(Le(IntLit(0), qi), Lt(qi, it)), And(Select(s.vis[num], ki), Eq(Select(kidx, ki), qi)))))
				},
			}
			out = append(out, x.loop(lc, s, p)...)
		default:
			x.unsupported("range over %s at %s", rt, x.pos(n))
		}
	}
	return out
}

// rangeString decodes runes: position pos, rune runeAt(s,pos), width runeW(s,pos).
func (x *Exec) rangeString(fr *Frame, st *State, n *ast.RangeStmt, lc *loopCtx, s *Term, assignKV func(*State, *Val, *Val)) []Out {
	num := lc.num
	st.pos[num] = IntLit(0)
	ln := App("slen", SInt, s)
	runeAxioms()
	p := &loopParts{
		enter: func(q *State) (in, ex []*State) {
			pos := q.pos[num]
			t, f := x.branch(fr, q, Lt(pos, ln))
			if !t.dead() {
				r := App("runeAt", SInt, s, pos)
				w := App("runeW", SInt, s, pos)
				t.assume(And(Le(IntLit(1), w), Le(w, IntLit(4)), Le(Add(pos, w), ln), Le(IntLit(0), r), Le(r, IntLit(0x10FFFF))))
				kv, vv := Val{T: pos, Ty: TInt}, Val{T: r, Ty: types.Typ[types.Int32]}
				assignKV(t, &kv, &vv)
				t.pos[num] = Add(pos, w)
				in = append(in, t)
			}
			if !f.dead() {
				ex = append(ex, f)
			}
			return
		},
		body: func(q *State) []Out { return x.block(fr, []*State{q}, n.Body.List) },
		post: func(q *State) []Out { return next(q) },
		facts: func(q *State) {
			q.assume(And(Le(IntLit(0), q.pos[num]), Le(q.pos[num], ln)))
		},
		autoDec: func(q *State) *Term { return Sub(ln, q.pos[num]) },
	}
	return x.loop(lc, st, p)
}

func runeAxioms() {
	s, i := BoundVar("s", SStr), BoundVar("i", SInt)
	r, w := App("runeAt", SInt, s, i), App("runeW", SInt, s, i)
	b := App("sat", SBV8, s, i)
	ascii := mk("bvult", SBool, b, BVLit(0x80))
	in := And(Le(IntLit(0), i), Lt(i, App("slen", SInt, s)))
	addAxiom("UTF-8 decoding of a range loop", []string{"runeAt"}, Forall([]*Term{s, i}, [][]*Term{{r}}, Implies(in, And(
		Implies(ascii, And(mk("=", SBool, r, bvToInt(b)), mk("=", SBool, w, IntLit(1)))),
		Implies(Not(ascii), Le(IntLit(0x80), r)),
		Le(IntLit(1), w), Le(w, IntLit(4))))))
}

func (x *Exec) runLoopBody(lc *loopCtx, st *State, p *loopParts) (cont []*State, brk []*State, outs []Out) {
	for _, o := range p.body(st) {
		if o.st.dead() {
			continue
		}
		mine := o.label == "" || o.label == lc.label
		switch {
		case o.kind == "next", o.kind == "continue" && mine:
			x.loopSets(lc, o.st, true)
			for _, q := range p.post(o.st) {
				if q.kind == "next" {
					if !q.st.dead() {
						cont = append(cont, q.st)
					}
				} else {
					outs = append(outs, q)
				}
			}
		case o.kind == "break" && mine:
			brk = append(brk, o.st)
		default:
			outs = append(outs, o)
		}
	}
	return
}

// loopSets performs the ghost updates of a loop: before it, or at the end of an iteration.
func (x *Exec) loopSets(lc *loopCtx, st *State, step bool) {
	for _, l := range []*LoopSpec{lc.own, lc.root} {
		if l == nil {
			continue
		}
		sets := l.PreSets
		if step {
			sets = l.StepSets
		}
		if len(sets) > 0 {
			env := x.envFor(lc.fr, st)
			env.loop = lc.num
			env.at = lc.node
			env.own, env.ownFr = lc.ownVars()
			x.ghostSets(env, st, sets)
		}
	}
}

func (x *Exec) loop(lc *loopCtx, st *State, p *loopParts) []Out {
	num := lc.num
	st.its[num] = IntLit(0)
	if lc.opt("unroll") || x.spec != nil && x.spec.Unroll > 0 && lc.root == nil && lc.own == nil {
		return x.unroll(lc, st, p)
	}
	where := fmt.Sprintf("loop %d", num)
	x.loopSets(lc, st, false)
	saveRec := x.rec

	// 1. what does the body write?
	W := newRec(nil)
	var refs map[string]map[*Term]bool
	mark := termSeq
	var autos map[*types.Var]*Term
	for iter := 0; ; iter++ {
		if iter > 8 {
			x.unsupported("loop writes do not stabilise")
		}
		ds := st.clone()
		rec := newRec(nil)
		x.dry++
		x.rec = rec
		mark = termSeq
		x.havocLoop(lc, ds, W, nil)
		start := map[*types.Var]Val{}
		for v, a := range ds.locals {
			start[v] = a
		}
		ds.its[num] = NewConst("it", SInt)
		ds.assume(Le(IntLit(0), ds.its[num]))
		if _, ok := ds.vis[num]; ok {
			ds.vis[num] = NewConst("vis", ds.vis[num].S)
		}
		if _, ok := ds.pos[num]; ok {
			ds.pos[num] = NewConst("pos", SInt)
		}
		if p.facts != nil {
			p.facts(ds)
		}
		autos = map[*types.Var]*Term{}
		first := true
		in, _ := p.enter(ds)
		for _, b := range in {
			cont, _, _ := x.runLoopBody(lc, b, p)
			for _, c := range cont {
				for v := range start {
					e, ok := c.locals[v]
					if !ok || e.T == nil || start[v].T == nil || e.T.S != SInt || start[v].T.S != SInt {
						continue
					}
					d := Sub(e.T, start[v].T)
					if first {
						autos[v] = d
					} else if autos[v] != d {
						delete(autos, v)
					}
				}
				if !first {
					for v := range autos {
						if _, ok := c.locals[v]; !ok {
							delete(autos, v)
						}
					}
				}
				first = false
			}
		}
		x.dry--
		x.rec = saveRec
		grew := false
		for n, rs := range rec.comps {
			if W.comps[n] == nil {
				W.comps[n] = map[*Term]bool{}
				grew = true
			}
			_ = rs
		}
		for v := range rec.locals {
			if _, ok := st.locals[v]; ok && !W.locals[v] {
				W.locals[v] = true
				grew = true
			}
		}
		refs = rec.comps
		if !grew {
			break
		}
	}
	for v, d := range autos {
		if !W.locals[v] || d.num == nil {
			delete(autos, v)
		}
	}
	if x.rec != nil {
		for n, rs := range refs {
			for r := range rs {
				if r != nil && !closedBefore(r, mark) {
					r = nil
				}
				x.rec.comp(n, r)
			}
		}
		for v := range W.locals {
			x.rec.local(v)
		}
	}

	// 2. the invariant holds on entry
	for _, h := range lc.hints(0) {
		x.hintAt(lc, st, st, h, where+" before")
	}
	env := x.envFor(lc.fr, st)
	env.loop = num
	env.at = lc.node
	env.own, env.ownFr = lc.ownVars()
	env.loopEntry = st
	for _, c := range x.invs(lc) {
		x.checkInv(st.clone(), c, x.invTerm(env, c), "invariant-entry", where+" invariant holds on entry: "+c.label(), lc.node)
	}
	fpre := x.loopFrames(lc, st, W, refs, mark)

	// 3. arbitrary iteration
	h := st.clone()
	entry := st
	young := termSeq
	x.havocLoop(lc, h, W, fpre)
	h.its[num] = NewConst("it", SInt)
	h.assume(Le(IntLit(0), h.its[num]))
	if _, ok := h.vis[num]; ok {
		h.vis[num] = NewConst("vis", h.vis[num].S)
	}
	if _, ok := h.pos[num]; ok {
		h.pos[num] = NewConst("pos", SInt)
	}
	if p.facts != nil {
		p.facts(h)
	}
	for _, v := range sortVars(autos) {
		d := autos[v]
		h.assume(Eq(h.locals[v].T, Add(entry.locals[v].T, Mul(d, h.its[num]))))
	}
	if f := x.heldBefore(lc, p, entry, h, autos, num); f != nil {
		h.assume(f)
	}
	env = x.envFor(lc.fr, h)
	env.loop = num
	env.at = lc.node
	env.own, env.ownFr = lc.ownVars()
	env.loopEntry = entry
	var derived []func(*State) *Term
	if x.spare != nil {
		derived = x.derived(lc, p, entry, h, autos, young)
		for i, f := range derived {
			if key := fmt.Sprint(where, "#", i); !x.spare.not[key] {
				e := entry.clone()
				e.its[num] = IntLit(0)
				x.checkDerived(e, f(e), "invariant-entry", where+" derived invariant holds on entry", lc, key)
				h.assume(f(h))
			}
		}
	}
	for _, c := range x.invs(lc) {
		h.assume(x.invTerm(env, c))
	}
	for _, f := range fpre {
		if f.rule != nil {
			h.assume(f.rule(h))
		}
	}
	if x.dry == 0 && len(x.invs(lc)) > 0 {
		x.cover(h, where+" invariant is satisfiable", lc.node)
	}
	for _, hc := range lc.hints(1) {
		x.hintAt(lc, entry, h, hc, where+" head")
	}
	head := h.clone()
	var measure0 []*Term
	decs := lc.dec()
	for _, e := range decs {
		t := x.measure(env, e)
		if t == nil {
			decs, measure0 = nil, nil
			break
		}
		measure0 = append(measure0, t)
	}
	if decs == nil && p.autoDec != nil {
		measure0 = []*Term{p.autoDec(h)}
	}

	var outs []Out
	in, exits := p.enter(h)
	for _, b := range in {
		cont, brk, os := x.runLoopBody(lc, b, p)
		outs = append(outs, os...)
		for _, k := range brk {
			for _, hc := range lc.hints(3) {
				x.hintAt(lc, entry, k, hc, where+" after")
			}
			outs = append(outs, Out{st: k, kind: "next"})
		}
		for _, c := range cont {
			c.its[num] = Add(head.its[num], IntLit(1))
			for _, hc := range lc.hints(2) {
				x.hintAt(lc, entry, c, hc, where)
			}
			e2 := x.envFor(lc.fr, c)
			e2.loop = num
			e2.at = lc.node
			e2.own, e2.ownFr = lc.ownVars()
			e2.loopEntry = entry
			for i, f := range derived {
				key := fmt.Sprint(where, "#", i)
				if x.spare.not[key] {
					continue
				}
				t := f(c)
				if t == nil {
					t = False
				}
				x.checkDerived(c.clone(), t, "invariant", where+" preserves a derived invariant", lc, key)
			}
			for _, cl := range x.invs(lc) {
				x.checkInv(c.clone(), cl, x.invTerm(e2, cl), "invariant", where+" preserves: "+cl.label(), lc.node)
			}
			for _, f := range fpre {
				if f.rule != nil {
					x.check(c.clone(), f.rule(c), "frame", where+" changes only what the contract allows of "+f.c.name, lc.node, nil)
				}
			}
			if len(measure0) > 0 {
				var m1 []*Term
				if decs != nil {
					for _, e := range decs {
						if t := x.measure(e2, e); t != nil {
							m1 = append(m1, t)
						}
					}
				} else {
					m1 = []*Term{p.autoDec(c)}
				}
				x.check(c.clone(), lexLess(m1, measure0), "decreases", where+" terminates: measure decreases", lc.node, nil)
			} else if x.dry == 0 {
				if _, isMap := c.vis[num]; isMap {
					x.notes["range over a map visits finitely many keys"] = true
				} else {
					x.notes["termination of "+where+" in "+x.rootKey+" is not proved"] = true
				}
			}
		}
	}
	for _, s := range exits {
		for _, hc := range lc.hints(3) {
			x.hintAt(lc, entry, s, hc, where+" after")
		}
		outs = append(outs, Out{st: s, kind: "next"})
	}
	return outs
}

// heldBefore: the condition held at the head of the iteration before, for a condition over counters (autos: by how much each
// changes in every iteration) and values that the loop does not change.
func (x *Exec) heldBefore(lc *loopCtx, p *loopParts, entry, h *State, autos map[*types.Var]*Term, num int) *Term {
	b, ok := p.cond.(*ast.BinaryExpr)
	if !ok || len(autos) == 0 {
		return nil
	}
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return nil
	}
	plain := true
	ast.Inspect(b, func(m ast.Node) bool {
		switch k := m.(type) {
		case *ast.CallExpr:
			if id, ok := k.Fun.(*ast.Ident); !ok || id.Name != "len" {
				plain = false
			}
		case *ast.IndexExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.StarExpr:
			plain = false
		}
		return plain
	})
	if !plain {
		return nil
	}
	x.dry++
	defer func() { x.dry-- }()
	saved := x.rec
	x.rec = newRec(nil)
	defer func() { x.rec = saved }()
	at := func(s *State) *Term {
		s = s.clone()
		for v, d := range autos {
			a := s.locals[v]
			a.T = Sub(h.locals[v].T, d)
			s.locals[v] = a
		}
		rs := x.eval(lc.fr, s, b)
		if len(rs) != 1 {
			return nil
		}
		return rs[0].v.T
	}
	t := at(h)
	if t == nil || t != at(entry) {
		return nil
	}
	return Or(Eq(h.its[num], IntLit(0)), t)
}

func (c *Clause) label() string {
	if c.Name != "" {
		return c.Name
	}
	t := c.Text
	if len(t) > 120 {
		t = t[:120] + "..."
	}
	return t
}

func sortVars(m map[*types.Var]*Term) []*types.Var {
	var vs []*types.Var
	for v := range m {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	return vs
}

func lexLess(a, b []*Term) *Term {
	r := False
	eq := True
	for i := range a {
		r = Or(r, And(eq, Le(IntLit(0), b[i]), Lt(a[i], b[i])))
		eq = And(eq, Eq(a[i], b[i]))
	}
	return r
}

// closedBefore: the term uses only symbols that existed at the mark.
func closedBefore(t *Term, mark int) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		ok := true
		if len(t.Args) == 0 {
			ok = t.id <= mark || !t.decl || strings.HasPrefix(t.Op, "H0$")
		}
		for _, a := range t.Args {
			if !rec(a) {
				ok = false
				break
			}
		}
		memo[t] = ok
		return ok
	}
	return rec(t)
}

// havocLoop gives everything the loop writes an arbitrary value.
func (x *Exec) havocLoop(lc *loopCtx, st *State, W *writeRec, fr []*loopFrame) {
	byName := map[string]*loopFrame{}
	for _, f := range fr {
		byName[f.c.name] = f
	}
	oldAlloc := x.get(st, allocComp())
	sv := x.rec
	x.rec = nil
	for _, n := range W.compNames() {
		c := compTab[n]
		old := x.get(st, c)
		if f := byName[n]; f != nil && f.exact != nil {
			t := old
			for _, r := range f.exact {
				t = Store(t, r, NewConst("lp$"+c.name, arrElem(c.s)))
			}
			if len(f.exact) > 0 {
				nm := NewConst("L$"+c.name, c.s)
				st.assume(mk("=", SBool, nm, t))
				x.compFacts(st, c, nm)
				st.comps[n] = nm
			}
			continue
		}
		x.havocComp(st, c, "L")
	}
	if _, ok := W.comps["$alloc"]; ok {
		na := x.get(st, allocComp())
		r := BoundVar("r", SRef)
		s := mk("select", SBool, oldAlloc, r)
		s2 := mk("select", SBool, na, r)
		st.assume(Forall([]*Term{r}, [][]*Term{{s}, {s2}}, Implies(s, s2)))
	}
	var vs []*types.Var
	for v := range W.locals {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	for _, v := range vs {
		a, ok := st.locals[v]
		if !ok {
			continue
		}
		if a.Clo != nil || a.Place != nil {
			x.unsupported("loop assigns the function or address variable %s", v.Name())
		}
		a.T = NewConst(v.Name(), a.T.S)
		st.locals[v] = a
		x.assumeType(st, a.T, a.Ty)
	}
	x.rec = sv
}

type loopFrame struct {
	c     *compInfo
	exact []*Term // the only references written, all known before the loop
	rule  func(*State) *Term
}

// loopFrames decides, for each component written, what stays unchanged.
func (x *Exec) loopFrames(lc *loopCtx, st *State, W *writeRec, refs map[string]map[*Term]bool, mark int) []*loopFrame {
	var out []*loopFrame
	given := map[string][]*ModClause{}
	env := x.envFor(lc.fr, st)
	env.loop = lc.num
	env.at = lc.node
	env.own, env.ownFr = lc.ownVars()
	for _, m := range lc.frames() {
		for _, n := range x.compsNamed(env, m.Comp) {
			given[n] = append(given[n], m)
		}
	}
	fnMods := map[string][]*ModClause{}
	if x.spec != nil {
		e0 := x.envFor(x.root, st)
		for _, m := range x.spec.Mods {
			for _, n := range x.compsNamed(e0, m.Comp) {
				fnMods[n] = append(fnMods[n], m)
			}
		}
	}
	for _, n := range W.compNames() {
		if n == "$alloc" {
			continue
		}
		c := compTab[n]
		f := &loopFrame{c: c}
		if !isArr(c.s) || arrKey(c.s) != SRef {
			out = append(out, f)
			continue
		}
		if strings.HasPrefix(n, "$") || lc.fr.pendingMutex(x, c) {
			out = append(out, f)
			continue
		}
		if ms, ok := given[n]; ok {
			exc, all := x.modRefs(env, ms)
			if !all {
				f.rule = x.frameRule(c, x.get(st, c), x.get(st, allocComp()), exc)
			}
			out = append(out, f)
			continue
		}
		exact := true
		var rs []*Term
		for r := range refs[n] {
			if r == nil || !closedBefore(r, mark) {
				exact = false
				break
			}
			rs = append(rs, r)
		}
		if exact {
			sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
			f.exact = rs
			out = append(out, f)
			continue
		}
		if lc.noframe() {
			out = append(out, f)
			continue
		}
		ms, declared := fnMods[n]
		var exc []*Term
		all := false
		if declared && x.old != nil {
			e0 := x.envFor(x.root, st)
			e0.old = x.old
			exc, all = x.modRefs(e0.atOld(), ms)
		}
		if !all && x.old != nil {
			f.rule = x.frameRule(c, x.get(st, c), x.get(x.old, allocComp()), exc)
		}
		out = append(out, f)
	}
	return out
}

// frameRule: objects allocated before, other than the exceptions, keep their content.
func (x *Exec) frameRule(c *compInfo, old, alloc *Term, exc []*Term) func(*State) *Term {
	return func(st *State) *Term {
		now := x.get(st, c)
		if now == old {
			return True
		}
		return frameTerm(now, old, alloc, exc)
	}
}

func frameTerm(now, old, alloc *Term, exc []*Term) *Term {
	r := BoundVar("r", SRef)
	g := []*Term{}
	if alloc != nil {
		g = append(g, Select(alloc, r))
	}
	for _, e := range exc {
		g = append(g, Not(mk("=", SBool, r, e)))
	}
	a, b := mk("select", arrElem(now.S), now, r), mk("select", arrElem(old.S), old, r)
	trig := [][]*Term{{a}}
	if old.Op != "store" && old.Op != "ite" {
		trig = append(trig, []*Term{b})
	}
	return Forall([]*Term{r}, trig, Implies(And(g...), mk("=", SBool, a, b)))
}

// unroll executes the loop until its condition is literally false.
func (x *Exec) unroll(lc *loopCtx, st *State, p *loopParts) []Out {
	var outs []Out
	cur := []*State{st}
	for i := 0; ; i++ {
		if i > 300 {
			x.unsupported("loop %d cannot be unrolled", lc.num)
		}
		var nx []*State
		for _, s := range cur {
			in, ex := p.enter(s)
			for _, e := range ex {
				outs = append(outs, Out{st: e, kind: "next"})
			}
			for _, b := range in {
				cont, brk, os := x.runLoopBody(lc, b, p)
				outs = append(outs, os...)
				for _, k := range brk {
					outs = append(outs, Out{st: k, kind: "next"})
				}
				for _, c := range cont {
					c.its[lc.num] = Add(c.its[lc.num], IntLit(1))
					nx = append(nx, c)
				}
			}
		}
		cur = nx
		if len(cur) == 0 {
			return outs
		}
	}
}

// pendDefer: read locks whose release was deferred inside a loop of a function.
type pendDefer struct {
	stmt      *ast.DeferStmt
	mux, pend *compInfo
}

// loopDefers lists the deferred read-unlocks inside the loops of a function.
func (x *Exec) loopDefers(fr *Frame) []*pendDefer {
	var out []*pendDefer
	if fr.fn == nil || fr.fn.Decl.Body == nil || fr.def != nil {
		return nil
	}
	var walk func(n ast.Node, in bool)
	walk = func(n ast.Node, in bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch k := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				if m != n {
					walk(k.Body, true)
					return false
				}
			case *ast.RangeStmt:
				if m != n {
					walk(k.Body, true)
					return false
				}
			case *ast.DeferStmt:
				if !in {
					return false
				}
				sel, ok := ast.Unparen(k.Call.Fun).(*ast.SelectorExpr)
				if !ok || sel.Sel.Name != "RUnlock" {
					return false
				}
				fs, ok := ast.Unparen(sel.X).(*ast.SelectorExpr)
				if !ok {
					return false
				}
				s, ok := fr.pkg.Info.Selections[fs]
				if !ok || s.Kind() != types.FieldVal || len(s.Index()) != 1 || !isMutex(s.Obj().Type()) {
					return false
				}
				rt := substT(s.Recv(), fr.sub)
				if p, ok := under(rt).(*types.Pointer); ok {
					rt = p.Elem()
				}
				mc := fieldComp(rt, s.Obj().(*types.Var))
				out = append(out, &pendDefer{k, mc, pendComp(fr.fn.Key, mc)})
				return false
			}
			return true
		})
	}
	walk(fr.fn.Decl.Body, false)
	return out
}

// pendingMutex: some loop of the function defers the release of the mutex c.
func (fr *Frame) pendingMutex(x *Exec, c *compInfo) bool {
	f := fr
	for f.def != nil {
		f = f.def
	}
	for _, d := range x.loopDefers(f) {
		if d.mux == c {
			return true
		}
	}
	return false
}

func pendComp(fn string, mux *compInfo) *compInfo {
	return comp("$pend|"+fn+"|"+mux.name, mux.s, TMath, 's')
}

func (x *Exec) loopDefer(fr *Frame, n *ast.DeferStmt) *pendDefer {
	f := fr
	for f.def != nil {
		f = f.def
	}
	for _, d := range x.loopDefers(f) {
		if d.stmt == n {
			return d
		}
	}
	return nil
}

// startPending: nothing is deferred at the start of a function.
func (x *Exec) startPending(fr *Frame, st *State) []*pendDefer {
	ds := x.loopDefers(fr)
	for _, d := range ds {
		t := NewConst("pend", d.pend.s)
		r := BoundVar("r", SRef)
		st.assume(Forall([]*Term{r}, [][]*Term{{Select(t, r)}}, Eq(Select(t, r), IntLit(0))))
		x.put(st, d.pend, nil, t)
	}
	return ds
}

// releasePending releases the read locks whose release was deferred in loops.
func (x *Exec) releasePending(ds []*pendDefer, st *State, n ast.Node) {
	done := map[*compInfo]bool{}
	for _, d := range ds {
		if done[d.pend] {
			continue
		}
		done[d.pend] = true
		pend, mu := x.get(st, d.pend), x.get(st, d.mux)
		r := BoundVar("r", SRef)
		x.check(st, Forall([]*Term{r}, [][]*Term{{Select(pend, r)}}, Or(Eq(Select(pend, r), IntLit(0)), Le(Select(pend, r), Select(mu, r)))), "lock", "the locks released by deferred calls are held", n, []string{"C22"})
		x.havocComp(st, d.mux, "released")
		mu2 := x.get(st, d.mux)
		r2 := BoundVar("r", SRef)
		st.assume(Forall([]*Term{r2}, [][]*Term{{Select(mu2, r2)}}, Eq(Select(mu2, r2), Sub(Select(mu, r2), Select(pend, r2)))))
	}
}
