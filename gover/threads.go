package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Goroutines and channels ("option threads"): a function is verified as one thread among arbitrary others. What it does on channels,
// wait groups and atomics is recorded in a log of its own events, which contracts talk about; what it receives is arbitrary; what is
// declared "shared" changes arbitrarily (within "rely") whenever the thread waits. A function literal started by go is verified on its
// own against its contract ("closure goN", N counting go statements), from the state at the go statement. Unknown functions may panic.

var thComps = []struct {
	name string
	s    Sort
}{
	{"T|sentn", Arr(SRef, SInt)}, {"T|recvn", Arr(SRef, SInt)}, {"T|closes", Arr(SRef, SInt)}, {"T|exh", Arr(SRef, SInt)}, {"T|idle", Arr(SRef, SInt)},
	{"T|spawns", SInt}, {"T|wgadd", SInt}, {"T|wgdone", SInt}, {"T|wgwait", SInt}, {"T|panics", SInt}, {"T|onces", SInt}, {"T|atomadd", SInt}, {"T|lastload", SInt}, {"T|cas", SInt},
}

func thComp(n string) *compInfo {
	for _, c := range thComps {
		if c.name == "T|"+n {
			return comp(c.name, c.s, TMath, 't')
		}
	}
	panic("no event log " + n)
}

func thVals(n string, s Sort) *compInfo {
	return comp("T|"+n+"|"+string(s), Arr(SRef, Arr(SInt, s)), nil, 't')
}

func thLastErr() *compInfo  { return comp("T|lasterr", SAny, nil, 't') }
func thPanicVal() *compInfo { return comp("T|panicval", SAny, nil, 't') }

func (x *Exec) threads() bool { return x.rootSpecOpt("threads") }

// thInit: no event has happened yet.
func (x *Exec) thInit(st *State) {
	for _, c := range thComps {
		k := comp(c.name, c.s, TMath, 't')
		if isArr(c.s) {
			st.comps[c.name] = zeroArr(c.s, IntLit(0))
		} else {
			st.comps[c.name] = IntLit(0)
		}
		_ = k
	}
	st.comps["T|n"] = zeroArr(Arr(SFn, SInt), IntLit(0))
	comp("T|n", Arr(SFn, SInt), TMath, 't')
}

func (x *Exec) thInc(st *State, n string, ref *Term, by *Term) *Term {
	c := thComp(n)
	cur := x.get(st, c)
	if ref == nil {
		x.put(st, c, nil, Add(cur, by))
		return cur
	}
	old := Select(cur, ref)
	x.put(st, c, ref, Store(cur, ref, Add(old, by)))
	return old
}

// interfere: other threads change what is shared.
func (x *Exec) interfere(fr *Frame, st *State) {
	if x.spec == nil || len(x.spec.Shared) == 0 {
		return
	}
	e := x.envFor(fr, st)
	for _, m := range x.spec.Shared {
		for _, n := range x.compsNamed(e, m.Comp) {
			x.havocComp(st, compTab[n], "shared")
		}
	}
	for _, r := range x.spec.Rely {
		st.assume(x.specBool(x.envFor(fr, st), r.E))
	}
}

// hooks runs what the contract says about an event or a call of that name.
func (x *Exec) hooks(fr *Frame, st *State, name string, pos ast.Node, extra map[string]SVal, alt string) {
	if x.spec == nil {
		return
	}
	sp := x.spec
	if x.hookSpec != nil {
		sp = x.hookSpec
	}
	run := x.running()
	if run != nil {
		sp = run.spec
	}
	hs := sp.Calls[name]
	if alt != "" {
		if q := sp.Calls[alt]; q != nil {
			hs = q
		}
	}
	env := func() *Env {
		e := x.envFor(fr, st)
		if x.hookPre != nil {
			e.old, e.oldVars = x.hookPre, x.hookVars
			if len(x.hookBind) > 0 {
				e = e.with(x.hookBind)
			}
		}
		if run != nil {
			e.old, e.oldVars = run.pre, run.was
		}
		e.at = pos
		if len(extra) > 0 {
			e = e.with(extra)
		}
		return e
	}
	for i := 0; i < len(hs); i++ {
		// consecutive ghost updates are one simultaneous update
		if hs[i].Set == nil {
			x.hintEnv(env(), st, hs[i].Hint, "call of "+name, pos)
			continue
		}
		sets := []*GhostSet{hs[i].Set}
		for i+1 < len(hs) && hs[i+1].Set != nil {
			i++
			sets = append(sets, hs[i].Set)
		}
		x.ghostSets(env(), st, sets)
	}
	if x.threads() && !x.applying {
		var ns []string
		for n := range x.spec.Closures {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if c := x.spec.Closures[n]; c.At == name {
				x.applyLocal(fr, st, n, c, env(), pos)
			}
		}
	}
}

// applyLocal verifies a function value for arbitrary arguments, in a branch of its own.
func (x *Exec) applyLocal(fr *Frame, st *State, name string, sp *FuncSpec, e *Env, pos ast.Node) {
	f := e.eval(sp.FnE)
	c := f.Clo
	if c == nil && f.T != nil {
		c = x.cloTerms[f.T]
	}
	if c == nil || c.Lit == nil {
		x.unsupported("%s: the function given is not a function literal", name)
	}
	inside := assigned(c.Fr.pkg.Info, c.Lit.Body)
	for _, v := range x.captured(c.Fr, c.Lit) {
		if inside[v] > 0 && !syncType(v.Type()) && !x.onlyAtomic(c.Fr.pkg.Info, c.Lit.Body, v) {
			x.check(b0(), False, "race", "not assigned in a function that other threads call: "+v.Name(), pos, nil)
		}
	}
	x.applying = true
	defer func() { x.applying = false }()
	b := st.clone()
	b.defers, b.unw, b.pan = nil, nil, nil
	b.unw = []*Term{nil}
	x.interfere(fr, b)
	sig := c.Fr.pkg.Info.TypeOf(c.Lit).(*types.Signature)
	var args []Val
	vars := map[string]SVal{}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		ty := substT(p.Type(), c.Fr.sub)
		t := NewConst("a$"+name, sortOf(ty))
		x.assumeType(b, t, ty)
		args = append(args, Val{T: t, Ty: ty})
		if i < len(sp.CParams) {
			vars[sp.CParams[i].Name] = SVal{T: t, Ty: ty}
		}
	}
	x.thread(fr, b, c.Lit, name, sp, pos, vars, func() []SVs { return x.runClosure(c.Fr, b, c, args, nil) })
}

// thread verifies a piece of code against the postconditions of its own contract.
func (x *Exec) thread(fr *Frame, b *State, lit *ast.FuncLit, name string, sp *FuncSpec, pos ast.Node, vars map[string]SVal, run func() []SVs) {
	sv, svp, svv, svb, svl := x.hookSpec, x.hookPre, x.hookVars, x.hookBind, x.hookLit
	pre := b.clone()
	was := map[string]SVal{}
	pe := x.envFor(fr, pre)
	pe.at = pos
	for v := range pre.locals {
		if _, ok := was[v.Name()]; !ok {
			if q, ok := pe.lookupLocal(v.Name()); ok {
				was[v.Name()] = q
			}
		}
	}
	x.hookSpec, x.hookPre, x.hookVars, x.hookBind, x.hookLit = sp, pre, was, vars, lit
	env := func(st *State) *Env {
		e := x.envFor(fr, st)
		e.old, e.oldVars = pre, was
		e.at = pos
		if len(vars) > 0 {
			e = e.with(vars)
		}
		return e
	}
	for _, r := range sp.Requires {
		if sp.At != "" { // arbitrary arguments
			b.assume(x.specBool(env(b), r.E))
			continue
		}
		x.check(b, x.specBool(env(b), r.E), "precondition", "precondition of "+name+": "+r.label(), pos, r.Tags)
	}
	for k, r := range run() {
		if r.st.dead() {
			continue
		}
		where := fmt.Sprintf("%s exit %d", name, k+1)
		qs := sp.Ensures
		if r.st.pan != nil {
			if len(sp.Unwinds) == 0 {
				x.check(r.st.clone(), False, "panic", where+" does not panic", pos, nil)
				continue
			}
			qs = sp.Unwinds
		}
		for _, q := range qs {
			x.check(r.st.clone(), x.specBool(env(r.st), q.E), "postcondition", where+" ensures "+q.label(), pos, q.Tags)
		}
	}
	x.hookSpec, x.hookPre, x.hookVars, x.hookBind, x.hookLit = sv, svp, svv, svb, svl
}

func (x *Exec) goStmt(fr *Frame, st *State, n *ast.GoStmt) []Out {
	lit, _ := ast.Unparen(n.Call.Fun).(*ast.FuncLit)
	var cs []rc
	if lit == nil {
		// a named function with a contract: its precondition holds; what it does is its own contract's business
		cs = x.resolve(fr, st.clone(), n.Call.Fun, n.Call)
		known := len(cs) > 0
		for _, c := range cs {
			known = known && c.c.fi != nil && x.set.Funcs[c.c.fi.Key] != nil && !x.set.Funcs[c.c.fi.Key].Inline
		}
		if known {
			for _, c := range cs {
				c.st.unw = []*Term{nil}
				for _, a := range x.evalArgs(fr, c.st, n.Call, c.c) {
					x.contractCall(fr, a.st, x.set.Funcs[c.c.fi.Key], c.c.fi, c.c, a.vs, n.Call)
				}
			}
			x.hooks(fr, st, "spawn", n, nil, "")
			x.thInc(st, "spawns", nil, IntLit(1))
			return next(st)
		}
	}
	if x.goOrd == nil {
		x.goOrd = map[token.Pos]int{}
	}
	k, seen := x.goOrd[n.Pos()]
	if !seen {
		k = len(x.goOrd) + 1
		x.goOrd[n.Pos()] = k
	}
	name := fmt.Sprintf("go%d", k)
	sp := x.spec.Closures[name]
	if sp == nil {
		x.unsupported("no contract for the goroutine %s at %s", name, x.pos(n))
	}
	if lit != nil {
		x.stable(fr, lit, n)
	}
	// the arguments are evaluated by the thread that starts the goroutine
	body := func(b *State, run func() []SVs) {
		b.defers, b.pan = nil, nil
		b.unw = []*Term{nil}
		x.interfere(fr, b)
		x.thread(fr, b, lit, name, sp, n, nil, run)
	}
	if lit != nil {
		c := &Closure{Lit: lit, Fr: fr, Sub: fr.sub}
		for _, r := range x.evalN(fr, st.clone(), n.Call.Args) {
			b := r.st
			body(b, func() []SVs { return x.runClosure(fr, b, c, r.vs, nil) })
		}
	}
	for _, c := range cs {
		for _, a := range x.evalArgs(fr, c.st, n.Call, c.c) {
			b := a.st
			body(b, func() []SVs { return x.call(fr, b, c.c, a.vs, n.Call) })
		}
	}
	x.hooks(fr, st, "spawn", n, nil, "")
	x.thInc(st, "spawns", nil, IntLit(1))
	return next(st)
}

// stable: the variables that a goroutine shares with the function are not assigned by either while both run.
func (x *Exec) stable(fr *Frame, lit *ast.FuncLit, n ast.Node) {
	info := fr.pkg.Info
	decl := fr.fn.Decl
	shared := map[*types.Var]bool{}
	for _, v := range x.captured(fr, lit) {
		shared[v] = true
	}
	inside := assigned(info, lit.Body)
	var loops []ast.Node // loops around the go statement, outermost first
	var path []ast.Node
	ast.Inspect(decl, func(m ast.Node) bool {
		if m == nil {
			path = path[:len(path)-1]
			return true
		}
		path = append(path, m)
		if m == n {
			for _, p := range path {
				switch p.(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					loops = append(loops, p)
				}
			}
		}
		return true
	})
	var bad []string
	for v := range shared {
		if syncType(v.Type()) {
			continue
		}
		if inside[v] > 0 && !x.onlyAtomic(info, lit.Body, v) {
			bad = append(bad, v.Name())
			continue
		}
		// assignments that can come after the go statement: textually later, or in a loop around it that does not declare the variable
		after := false
		ast.Inspect(decl, func(m ast.Node) bool {
			var as map[*types.Var]int
			switch m.(type) {
			case *ast.AssignStmt, *ast.IncDecStmt, *ast.UnaryExpr:
				as = assigned(info, m)
			case *ast.RangeStmt:
				return true
			default:
				return true
			}
			if m.Pos() >= lit.Pos() && m.End() <= lit.End() || as[v] == 0 || x.onlyAtomic(info, m, v) {
				return true
			}
			if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.AND {
				if x.atomicArg(info, decl, u) {
					return true
				}
			}
			if m.Pos() > n.Pos() {
				after = true
			}
			for _, l := range loops {
				if m.Pos() >= l.Pos() && m.End() <= l.End() && !(v.Pos() >= l.Pos() && v.Pos() < l.End()) {
					after = true
				}
			}
			return true
		})
		if after {
			bad = append(bad, v.Name())
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		x.check(b0(), False, "race", "not assigned while the goroutine uses it: "+strings.Join(bad, ", "), n, nil)
	}
}

func syncType(t types.Type) bool {
	nm, ok := types.Unalias(t).(*types.Named)
	return ok && nm.Obj().Pkg() != nil && (nm.Obj().Pkg().Path() == "sync" || nm.Obj().Pkg().Path() == "sync/atomic" || nm.Obj().Name() == "AtomicError")
}

// atomicArg: the address is taken for a function of sync/atomic only, given to it directly or through
// parameters of functions of the module that do nothing else with it.
func (x *Exec) atomicArg(info *types.Info, root ast.Node, u *ast.UnaryExpr) bool {
	found := false
	ast.Inspect(root, func(m ast.Node) bool {
		if c, ok := m.(*ast.CallExpr); ok {
			for i, a := range c.Args {
				if ast.Unparen(a) == ast.Expr(u) && x.atomicParam(info, c, i, 4) {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (x *Exec) atomicParam(info *types.Info, c *ast.CallExpr, i, depth int) bool {
	var id *ast.Ident
	fe := ast.Unparen(c.Fun)
	if ix, ok := fe.(*ast.IndexExpr); ok {
		fe = ix.X
	}
	if ix, ok := fe.(*ast.IndexListExpr); ok {
		fe = ix.X
	}
	switch f := fe.(type) {
	case *ast.SelectorExpr:
		id = f.Sel
	case *ast.Ident:
		id = f
	default:
		return false
	}
	f, ok := info.Uses[id].(*types.Func)
	if !ok {
		return false
	}
	if f.Pkg() != nil && f.Pkg().Path() == "sync/atomic" {
		return i == 0
	}
	fi := x.pr.Funcs[f.Origin()]
	if fi == nil || fi.Decl.Body == nil || depth == 0 {
		return false
	}
	sig := f.Origin().Type().(*types.Signature)
	if sig.Variadic() || i >= sig.Params().Len() {
		return false
	}
	p := sig.Params().At(i)
	in := fi.Pkg.Info
	ok = true
	var path []ast.Node
	ast.Inspect(fi.Decl.Body, func(m ast.Node) bool {
		if m == nil {
			path = path[:len(path)-1]
			return true
		}
		path = append(path, m)
		if q, is := m.(*ast.Ident); is && in.Uses[q] == p {
			c, is := path[len(path)-2].(*ast.CallExpr)
			if !is {
				ok = false
				return true
			}
			k := -1
			for j, a := range c.Args {
				if a == ast.Expr(q) {
					k = j
				}
			}
			if k < 0 || !x.atomicParam(in, c, k, depth-1) {
				ok = false
			}
		}
		return true
	})
	return ok
}

// onlyAtomic: everything below that counts as an assignment of v is the argument of an atomic operation.
func (x *Exec) onlyAtomic(info *types.Info, n ast.Node, v *types.Var) bool {
	ok, any := true, false
	ast.Inspect(n, func(m ast.Node) bool {
		switch k := m.(type) {
		case *ast.AssignStmt, *ast.IncDecStmt, *ast.RangeStmt:
			if assignedDirect(info, m)[v] {
				ok = false
			}
		case *ast.UnaryExpr:
			if k.Op == token.AND && assigned(info, &ast.ParenExpr{X: k})[v] > 0 {
				any = true
				if !x.atomicArg(info, n, k) {
					ok = false
				}
			}
		}
		return true
	})
	return ok && any
}

func assignedDirect(info *types.Info, m ast.Node) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	add := func(e ast.Expr) {
		if e == nil {
			return
		}
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if v, ok := info.Uses[id].(*types.Var); ok {
				out[v] = true
			}
		}
	}
	switch k := m.(type) {
	case *ast.AssignStmt:
		for _, l := range k.Lhs {
			add(l)
		}
	case *ast.IncDecStmt:
		add(k.X)
	case *ast.RangeStmt:
		add(k.Key)
		add(k.Value)
	}
	return out
}

// ---- channel operations ----

func (x *Exec) chanElem(v Val) types.Type { return under(v.Ty).(*types.Chan).Elem() }

func (x *Exec) evVars(ch, val *Val) map[string]SVal {
	m := map[string]SVal{"ch": {T: ch.T, Ty: ch.Ty}}
	if val != nil {
		m["val"] = SVal{T: val.T, Ty: val.Ty}
	}
	return m
}

// recvOK: a value is received.
func (x *Exec) recvOK(fr *Frame, st *State, ch Val, n ast.Node) Val {
	x.interfere(fr, st)
	// a channel that was found closed and empty gives no value
	st.assume(Eq(Select(x.get(st, thComp("exh")), ch.T), IntLit(0)))
	ty := x.chanElem(ch)
	v := Val{T: NewConst("recv", sortOf(ty)), Ty: ty}
	x.assumeType(st, v.T, ty)
	c := thVals("recvv", sortOf(ty))
	cur := x.get(st, c)
	k := x.thInc(st, "recvn", ch.T, IntLit(1))
	x.put(st, c, ch.T, Store(cur, ch.T, Store(Select(cur, ch.T), k, v.T)))
	x.hooks(fr, st, "recv", n, x.evVars(&ch, &v), "")
	return v
}

// recvEnd: the channel is closed and empty.
func (x *Exec) recvEnd(fr *Frame, st *State, ch Val, n ast.Node) Val {
	x.interfere(fr, st)
	x.thInc(st, "exh", ch.T, IntLit(1))
	x.hooks(fr, st, "exhaust", n, x.evVars(&ch, nil), "")
	ty := x.chanElem(ch)
	return Val{T: zeroOf(ty), Ty: ty}
}

func (x *Exec) thSend(fr *Frame, st *State, ch, v Val, n ast.Node) {
	x.interfere(fr, st)
	ty := x.chanElem(ch)
	v = x.coerce(st, v, ty)
	v = Val{T: x.termOf(v), Ty: ty}
	x.hooks(fr, st, "send", n, x.evVars(&ch, &v), "")
	c := thVals("sentv", sortOf(ty))
	cur := x.get(st, c)
	k := x.thInc(st, "sentn", ch.T, IntLit(1))
	x.put(st, c, ch.T, Store(cur, ch.T, Store(Select(cur, ch.T), k, v.T)))
}

func (x *Exec) thClose(fr *Frame, st *State, ch Val, n ast.Node) {
	x.hooks(fr, st, "close", n, x.evVars(&ch, nil), "")
	x.thInc(st, "closes", ch.T, IntLit(1))
}

// recvBoth forks into the two outcomes of a receive.
func (x *Exec) recvBoth(fr *Frame, st *State, ch Val, n ast.Node) []SVs {
	end := st.clone()
	v := x.recvOK(fr, st, ch, n)
	z := x.recvEnd(fr, end, ch, n)
	return []SVs{{st, []Val{v, {T: True, Ty: TBool}}}, {end, []Val{z, {T: False, Ty: TBool}}}}
}

func (x *Exec) rangeChan(fr *Frame, st *State, n *ast.RangeStmt, ch Val, lc *loopCtx, assign func(*State, *Val, *Val)) []Out {
	p := &loopParts{
		enter: func(s *State) (in, ex []*State) {
			end := s.clone()
			v := x.recvOK(fr, s, ch, n)
			if n.Key != nil {
				assign(s, &v, nil)
			}
			x.recvEnd(fr, end, ch, n)
			return []*State{s}, []*State{end}
		},
		body: func(s *State) []Out { return x.block(fr, []*State{s}, n.Body.List) },
		post: func(s *State) []Out { return next(s) },
	}
	return x.loop(lc, st, p)
}

func (x *Exec) selectStmt(fr *Frame, st *State, n *ast.SelectStmt, label string) []Out {
	type arm struct {
		cc   *ast.CommClause
		ch   Val
		send *Val
	}
	// channel expressions and values to send are evaluated first, in source order
	type conf struct {
		st   *State
		arms []arm
	}
	cur := []conf{{st: st}}
	recvOf := func(s ast.Stmt) ast.Expr {
		var e ast.Expr
		switch k := s.(type) {
		case *ast.ExprStmt:
			e = k.X
		case *ast.AssignStmt:
			e = k.Rhs[0]
		}
		if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return u.X
		}
		x.unsupported("select case at %s", x.pos(s))
		return nil
	}
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		var nx []conf
		for _, q := range cur {
			if cc.Comm == nil {
				nx = append(nx, conf{q.st, append(append([]arm(nil), q.arms...), arm{cc: cc})})
				continue
			}
			if sd, ok := cc.Comm.(*ast.SendStmt); ok {
				for _, r := range x.evalN(fr, q.st, []ast.Expr{sd.Chan, sd.Value}) {
					v := r.vs[1]
					nx = append(nx, conf{r.st, append(append([]arm(nil), q.arms...), arm{cc, r.vs[0], &v})})
				}
				continue
			}
			for _, r := range x.eval(fr, q.st, recvOf(cc.Comm)) {
				nx = append(nx, conf{r.st, append(append([]arm(nil), q.arms...), arm{cc: cc, ch: r.v})})
			}
		}
		cur = nx
	}
	var out []Out
	run := func(s *State, cc *ast.CommClause) {
		for _, o := range x.block(fr, []*State{s}, cc.Body) {
			if o.kind == "break" && (o.label == "" || o.label == label) {
				o.kind, o.label = "next", ""
			}
			out = append(out, o)
		}
	}
	for _, q := range cur {
		for _, a := range q.arms {
			s := q.st.clone()
			switch {
			case a.cc.Comm == nil: // default: no other case is ready
				x.interfere(fr, s)
				for _, b := range q.arms {
					if b.cc.Comm != nil && b.send == nil {
						x.thInc(s, "idle", b.ch.T, IntLit(1))
					}
				}
				x.hooks(fr, s, "default", a.cc, nil, "")
				run(s, a.cc)
			case a.send != nil:
				x.thSend(fr, s, a.ch, *a.send, a.cc)
				run(s, a.cc)
			default:
				for _, r := range x.recvBoth(fr, s, a.ch, a.cc) {
					if as, ok := a.cc.Comm.(*ast.AssignStmt); ok {
						for i, l := range as.Lhs {
							x.bindTo(fr, r.st, l, r.vs[i], as.Tok == token.DEFINE)
						}
					}
					run(r.st, a.cc)
				}
			}
		}
	}
	return out
}

func (x *Exec) bindTo(fr *Frame, st *State, l ast.Expr, v Val, def bool) {
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		if def {
			if o, ok := fr.pkg.Info.Defs[id].(*types.Var); ok {
				x.declare(fr, st, o, x.coerce(st, v, fr.varType(o)))
				return
			}
		}
	}
	ps := x.place(fr, st, l)
	if len(ps) != 1 {
		x.unsupported("assignment target at %s", x.pos(l))
	}
	x.storeChecked(fr, st, ps[0].p, x.coerce(st, v, ps[0].p.Ty), l)
}

// ---- panics ----

// raise starts to unwind.
func (x *Exec) raise(st *State, v *Term) {
	st.pan = v
}

// thRecover: the value of the panic that the caller's deferred calls run for.
func (x *Exec) thRecover(fr *Frame, st *State, ty types.Type) []SVs {
	k := len(st.unw) - 2
	if k < 0 || st.unw[k] == nil {
		return ret2(st, zeroOf(ty), ty)
	}
	v := st.unw[k]
	st.unw = append([]*Term(nil), st.unw...)
	st.unw[k] = nil
	return ret2(st, v, ty)
}

func ret2(st *State, t *Term, ty types.Type) []SVs { return []SVs{{st, []Val{{T: t, Ty: ty}}}} }

// mayPanic: the branch in which an unknown function panics.
func (x *Exec) mayPanic(st *State) *State {
	p := st.clone()
	v := NewConst("panic", SAny)
	p.assume(Not(Eq(v, zeroOf(types.NewInterfaceType(nil, nil)))))
	x.thInc(p, "panics", nil, IntLit(1))
	x.put(p, thPanicVal(), nil, v)
	x.raise(p, v)
	return p
}

// ---- library ----

func (x *Exec) threadLib(fr *Frame, st *State, pkg, name, recv string, c *callee, args []Val, n *ast.CallExpr) ([]SVs, bool) {
	var pos ast.Node
	if n != nil {
		pos = n
	}
	extra := map[string]SVal{}
	for i, a := range args {
		if a.T != nil {
			extra[fmt.Sprintf("arg%d", i)] = SVal{T: a.T, Ty: a.Ty}
		}
	}
	// obj: the wait group or once, in an event of it
	if c.recv != nil && c.recv.T != nil && c.recv.T.S == SRef {
		extra["obj"] = SVal{T: c.recv.T, Ty: TRef}
	} else if p := c.recvPlace; p != nil && p.kind == "var" && p.v != nil {
		t := Const(fmt.Sprintf("syncvar$%d", p.v.Pos()), SRef)
		if x.hookPre != nil && (x.hookLit == nil || p.v.Pos() < x.hookLit.Pos() || p.v.Pos() > x.hookLit.End()) {
			st.assume(mk("select", SBool, x.get(x.hookPre, allocComp()), t))
		}
		extra["obj"] = SVal{T: t, Ty: TRef}
	}
	switch pkg + "." + recv + "." + name {
	case "sync.WaitGroup.Add":
		x.hooks(fr, st, "Add", pos, extra, "")
		x.thInc(st, "wgadd", nil, args[0].T)
		return []SVs{{st, nil}}, true
	case "sync.WaitGroup.Done":
		x.hooks(fr, st, "Done", pos, extra, "")
		x.thInc(st, "wgdone", nil, IntLit(1))
		return []SVs{{st, nil}}, true
	case "sync.WaitGroup.Wait":
		x.interfere(fr, st)
		x.hooks(fr, st, "Wait", pos, extra, "")
		x.thInc(st, "wgwait", nil, IntLit(1))
		return []SVs{{st, nil}}, true
	case "sync.Once.Do":
		x.interfere(fr, st)
		x.hooks(fr, st, "Do", pos, extra, "")
		x.thInc(st, "onces", nil, IntLit(1))
		skip := st.clone()
		f := args[0].Clo
		if f == nil && args[0].T != nil {
			f = x.cloTerms[args[0].T]
		}
		if f == nil {
			x.unsupported("Once.Do of an unknown function at %s", x.pos(n))
		}
		out := []SVs{{skip, nil}}
		for _, r := range x.callClosure(fr, st, f, nil, nil) {
			out = append(out, SVs{r.st, nil})
		}
		return out, true
	}
	if pkg == "sync/atomic" {
		return x.threadAtomic(fr, st, recv, name, args, pos, extra)
	}
	return nil, false
}

// threadAtomic: operations on an atomic integer or flag that other threads use as well: what is read is arbitrary.
// A flag counts as an integer, 1 for true; a value stored counts as a value added,
// and zero stored as one taken away.
func (x *Exec) threadAtomic(fr *Frame, st *State, recv, name string, args []Val, pos ast.Node, extra map[string]SVal) ([]SVs, bool) {
	var ty types.Type
	op := name
	if recv == "" {
		for _, k := range []types.BasicKind{types.Int32, types.Int64} {
			t := types.Typ[k]
			suffix := strings.ToUpper(t.Name()[:1]) + t.Name()[1:]
			if strings.HasSuffix(name, suffix) {
				ty, op = t, strings.TrimSuffix(name, suffix)
				args = args[1:]
			}
		}
	} else {
		switch recv {
		case "Int32":
			ty = types.Typ[types.Int32]
		case "Int64":
			ty = types.Typ[types.Int64]
		case "Bool":
			ty = TBool
		}
	}
	if ty == nil {
		return nil, false
	}
	num := func(v Val) *Term {
		if ty == TBool {
			return Ite(v.T, IntLit(1), IntLit(0))
		}
		return v.T
	}
	fresh := func() Val {
		v := Val{T: NewConst("atomic", sortOf(ty)), Ty: ty}
		x.assumeType(st, v.T, ty)
		return v
	}
	switch op {
	case "Load":
		x.interfere(fr, st)
		v := fresh()
		x.put(st, thComp("lastload"), nil, num(v))
		return []SVs{{st, []Val{v}}}, true
	case "Add":
		x.hooks(fr, st, "AddInt32", pos, extra, "")
		x.thInc(st, "atomadd", nil, args[0].T)
		return []SVs{{st, []Val{fresh()}}}, true
	case "Store":
		x.hooks(fr, st, "AddInt32", pos, extra, "")
		v := num(args[0])
		x.thInc(st, "atomadd", nil, Ite(Eq(v, IntLit(0)), IntLit(-1), v))
		return []SVs{{st, nil}}, true
	case "CompareAndSwap":
		x.interfere(fr, st)
		x.hooks(fr, st, "CompareAndSwapInt32", pos, extra, "")
		no := st.clone()
		x.thInc(st, "cas", nil, Ite(And(Eq(num(args[0]), IntLit(0)), Not(Eq(num(args[1]), IntLit(0)))), IntLit(1), IntLit(0)))
		return []SVs{{st, []Val{{T: True, Ty: TBool}}}, {no, []Val{{T: False, Ty: TBool}}}}, true
	}
	return nil, false
}

// specEvent evaluates the log functions of the specification language.
func (e *Env) specEvent(s *SExpr, name string, args []*SExpr) (SVal, bool) {
	x := e.x
	num := func(n string) SVal { return SVal{T: x.get(e.st, thComp(n)), Ty: TInt} }
	at := func(n string) SVal { return SVal{T: Select(x.get(e.st, thComp(n)), e.eval(args[0]).T), Ty: TInt} }
	vals := func(n string) SVal {
		ch := e.eval(args[0])
		ty := under(ch.Ty).(*types.Chan).Elem()
		return SVal{T: Select(Select(x.get(e.st, thVals(n, sortOf(ty))), ch.T), e.adapt(s, e.eval(args[1]), SInt)), Ty: ty}
	}
	switch name {
	case "sent":
		return at("sentn"), true
	case "recvd":
		return at("recvn"), true
	case "closes":
		return at("closes"), true
	case "exhausted":
		return at("exh"), true
	case "idle":
		return at("idle"), true
	case "heard":
		return SVal{T: Add(at("recvn").T, at("exh").T), Ty: TInt}, true
	case "sentval":
		return vals("sentv"), true
	case "recvval":
		return vals("recvv"), true
	case "spawns":
		return num("spawns"), true
	case "wgadds":
		return num("wgadd"), true
	case "wgdones":
		return num("wgdone"), true
	case "wgwaits":
		return num("wgwait"), true
	case "panics":
		return num("panics"), true
	case "onces":
		return num("onces"), true
	case "atomadds":
		return num("atomadd"), true
	case "lastload":
		return num("lastload"), true
	case "cases":
		return num("cas"), true
	case "doneOf": // the channel that Done of a context returns
		ty := types.NewChan(types.RecvOnly, types.NewStruct(nil, nil))
		return SVal{T: App("meth$context.Context.Done$0", sortOf(ty), e.eval(args[0]).T), Ty: ty}, true
	case "lastpanic":
		return SVal{T: x.get(e.st, thPanicVal()), Ty: types.NewInterfaceType(nil, nil)}, true
	case "lasterr": // the error that an unknown function returned last
		return SVal{T: x.get(e.st, thLastErr()), Ty: types.Universe.Lookup("error").Type()}, true
	case "panicking":
		return SVal{T: BoolLit(e.st.pan != nil), Ty: TBool}, true
	case "panicval":
		if e.st.pan == nil {
			ty := types.NewInterfaceType(nil, nil)
			return SVal{T: zeroOf(ty), Ty: ty}, true
		}
		return SVal{T: e.st.pan, Ty: types.NewInterfaceType(nil, nil)}, true
	}
	return SVal{}, false
}

func b0() *State { return &State{locals: map[*types.Var]Val{}, comps: map[string]*Term{}} }
