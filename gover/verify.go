package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func bigOf(cv constant.Value) *big.Int {
	b, ok := new(big.Int).SetString(constant.ToInt(cv).ExactString(), 10)
	if !ok {
		panic(specErr{"bad number " + cv.String()})
	}
	return b
}

type shared struct {
	writes map[string]map[string]bool // write sets per function instance
	wip    map[string]bool
}

func newExec(pr *Program, set *SpecSet, sh *shared) *Exec {
	return &Exec{pr: pr, set: set, typed: map[*Term]*Term{}, loopOrd: map[string]int{}, helperOrd: map[string]int{}, inlining: map[string]int{}, used: map[string]bool{}, inlined: map[string]bool{},
		trusted: map[string]string{}, notes: map[string]bool{}, ghostIt: map[string]*Term{}, params: map[string]SVal{}, rename: map[string]string{}, lemUsed: map[string]bool{},
		pvars: map[string]*types.Var{}, sh: sh}
}

// cover asks that the assumptions are not contradictory (the goal false must not be provable).
func (x *Exec) cover(st *State, name string, n ast.Node) {
	if x.dry > 0 || st.dead() {
		return
	}
	o := &Obligation{Fn: x.rootKey, Kind: "cover", Name: name, Goal: False, Expect: "sat", Asm: st.pcList()}
	if n != nil {
		o.Pos = x.pos(n)
	}
	x.oblig = append(x.oblig, o)
}

// ---- hints ----

func (x *Exec) hint(fr *Frame, st *State, c *Clause, where string) {
	x.aid(x.envFor(fr, st), st, c, where, nil)
}

func (x *Exec) hintAt(lc *loopCtx, entry, st *State, c *Clause, where string) {
	e := x.envFor(lc.fr, st)
	e.loop = lc.num
	e.at = lc.node
	e.own, e.ownFr = lc.ownVars()
	e.loopEntry = entry
	x.aid(e, st, c, where, lc.node)
}

func (x *Exec) hintEnv(e *Env, st *State, c *Clause, where string, n ast.Node) {
	if !c.Use {
		x.check(st, x.specBool(e, c.E), "assert", where+" assert: "+c.label(), n, c.Tags)
		return
	}
	x.useLemma(e, st, c, c.E, nil, nil, nil, where, n)
}

func (x *Exec) useLemma(e *Env, st *State, c *Clause, s *SExpr, vars []*Term, trig [][]*Term, guard *Term, where string, n ast.Node) {
	switch {
	case s.Op == "forall":
		m := map[string]SVal{}
		for _, v := range s.Vars {
			ty := e.typ(v.Ty)
			b := BoundVar(v.Name, sortOf(ty))
			vars = append(vars, b)
			m[v.Name] = SVal{T: b, Ty: ty}
		}
		e2 := e.with(m)
		for _, tr := range s.Trig {
			var ts []*Term
			for _, y := range tr {
				ts = append(ts, e2.termOf(y, e2.eval(y)))
			}
			trig = append(trig, ts)
		}
		x.useLemma(e2, st, c, s.Args[0], vars, trig, guard, where, n)
		return
	case s.Op == "bin" && s.S == "==>":
		g := e.eval(s.Args[0]).T
		if guard != nil {
			g = And(guard, g)
		}
		x.useLemma(e, st, c, s.Args[1], vars, trig, g, where, n)
		return
	case s.Op == "let":
		x.useLemma(e.with(map[string]SVal{s.S: e.eval(s.Args[0])}), st, c, s.Args[1], vars, trig, guard, where, n)
		return
	}
	var name string
	var args []*SExpr
	switch {
	case s.Op == "call" && s.Args[0].Op == "id":
		name, args = s.Args[0].S, s.Args[1:]
	case s.Op == "id":
		name = s.S
	default:
		e.fail(s, "lemma application expected")
	}
	if name == "mapSizes" {
		// finite maps: equal key sets have equal sizes; a key set within one of no greater size equals it
		if len(args) != 2 || guard != nil || vars != nil {
			e.fail(s, "mapSizes(m1, m2)")
		}
		var doms, cards []*Term
		var ks Sort
		for _, a := range args {
			v := e.eval(a)
			m, ok := under(v.Ty).(*types.Map)
			if !ok {
				e.fail(s, "mapSizes of %s", v.Ty)
			}
			doms = append(doms, Select(x.get(e.st, mapDom(m)), v.T))
			cards = append(cards, Select(x.get(e.st, mapCard(m)), v.T))
			ks = sortOf(m.Key())
		}
		x.notes["axiom of finite sets: equal sets have equal sizes, and a subset of at least the same size is the whole set"] = true
		q := BoundVar("k", ks)
		s0, s1 := mk("select", SBool, doms[0], q), mk("select", SBool, doms[1], q)
		st.assume(Implies(Forall([]*Term{q}, [][]*Term{{s0}, {s1}}, Eq(s0, s1)), Eq(cards[0], cards[1])))
		st.assume(Implies(And(Forall([]*Term{q}, [][]*Term{{s0}}, Implies(s0, s1)), Le(cards[1], cards[0])), Forall([]*Term{q}, [][]*Term{{s1}}, Implies(s1, s0))))
		return
	}
	l := x.set.Lemmas[name]
	if l == nil {
		e.fail(s, "unknown lemma %s", name)
	}
	if len(args) != len(l.Params) {
		e.fail(s, "lemma %s takes %d arguments", name, len(l.Params))
	}
	self := x.lemma != nil && x.lemma == l
	if x.lemma != nil && !self && (l.File > x.lemma.File || l.File == x.lemma.File && l.Line >= x.lemma.Line) {
		e.fail(s, "lemma %s is not available before its own proof", name)
	}
	if !self {
		x.lemUsed[name] = true
	}
	var as []SVal
	for _, a := range args {
		as = append(as, e.eval(a))
	}
	le, _ := e.defEnv(s, l.Pkg, l.TPar, l.Params, as)
	var req, ens []*Term
	for _, r := range l.Requires {
		req = append(req, x.specBool(le, r.E))
	}
	for _, r := range l.Ensures {
		ens = append(ens, x.specBool(le, r.E))
	}
	if self {
		if l.Ind == "" {
			e.fail(s, "lemma %s used in its own proof without induction", name)
		}
		now, was := le.vars[l.Ind].T, x.lemVars[l.Ind].T
		req = append(req, Le(IntLit(0), now), Lt(now, was))
	}
	if len(vars) > 0 {
		g := And(req...)
		if guard != nil {
			g = And(guard, g)
		}
		st.assume(Forall(vars, trig, Implies(g, And(ens...))))
		return
	}
	for _, r := range req {
		if guard != nil {
			r = Implies(guard, r)
		}
		x.check(st, r, "lemma-requires", where+": premise of lemma "+name, n, nil)
	}
	for _, r := range ens {
		if guard != nil {
			r = Implies(guard, r)
		}
		st.assume(r)
	}
}

// ---- calls by contract ----

func declaredParams(fi *FuncInfo) (recv *types.Var, ps []*types.Var) {
	sig := fi.Obj.Type().(*types.Signature)
	recv = sig.Recv()
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	return
}

// paramNames gives the names used in a contract: positional names when declared, otherwise the source names.
func paramNames(sp *FuncSpec, recv *types.Var, ps []*types.Var) (string, []string) {
	rn := ""
	if recv != nil {
		rn = recv.Name()
	}
	var ns []string
	for _, p := range ps {
		ns = append(ns, p.Name())
	}
	if len(sp.CParams) > 0 {
		l := sp.CParams
		if recv != nil {
			rn = l[0].Name
			l = l[1:]
		}
		if len(l) > len(ns) {
			panic(specErr{fmt.Sprintf("%s: contract names %d parameters, the function has %d", sp.Key, len(l), len(ns))})
		}
		for i := range l {
			ns[i] = l[i].Name
		}
	}
	return rn, ns
}

func resultNames(sp *FuncSpec, sig *types.Signature) map[string]int {
	m := map[string]int{}
	for i := 0; i < sig.Results().Len(); i++ {
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			m[n] = i
		}
	}
	for i, r := range sp.Results {
		m[r.Name] = i
	}
	return m
}

func (x *Exec) noteOf(sp *FuncSpec) {
	x.used[sp.Key] = true
	if sp.Trusted {
		x.trusted[sp.Key] = sp.Reason
	}
}

func (x *Exec) contractCall(fr *Frame, st *State, sp *FuncSpec, fi *FuncInfo, c *callee, args []Val, n *ast.CallExpr) []SVs {
	x.noteOf(sp)
	var pos ast.Node
	if n != nil {
		pos = n
	}
	sig := c.sig
	var fobj *types.Func
	if fi != nil {
		fobj = fi.Obj
		sig = fi.Obj.Type().(*types.Signature)
	} else if c.std != nil {
		fobj = c.std.Origin()
		sig = fobj.Type().(*types.Signature)
	}
	sub := TSubst{}
	for k, v := range c.sub {
		sub[k] = substT(v, fr.sub)
	}
	pkgOf := func(e *Env) {
		e.setTypes(fobj, sub)
		e.pkg = nil
		if c.iface != "" && c.recv != nil {
			if n, ok := types.Unalias(c.recv.Ty).(*types.Named); ok {
				o := n.Origin()
				for i := 0; i < o.TypeParams().Len() && i < n.TypeArgs().Len(); i++ {
					a := substT(n.TypeArgs().At(i), sub)
					e.tps[o.TypeParams().At(i).Obj().Name()] = a
					e.tpOrder = append(e.tpOrder, a)
				}
			}
		}
		if fi != nil {
			e.pkg = fi.Pkg
		} else {
			for _, p := range x.pr.Pkgs {
				if pkgShort(p.Path) == sp.Pkg {
					e.pkg = p
				}
			}
			if e.pkg == nil && x.pr.Std[sp.Pkg] != nil {
				e.pkg = &Pkg{Path: sp.Pkg, Types: x.pr.Std[sp.Pkg]}
			}
		}
	}
	recvVar := sig.Recv()
	if c.iface != "" {
		recvVar = types.NewParam(0, nil, "self", types.NewInterfaceType(nil, nil))
	}
	var ps []*types.Var
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	rn, pns := paramNames(sp, recvVar, ps)
	params := map[string]SVal{}
	bind := func(name string, v Val, ty types.Type) {
		v = x.coerce(st, v, ty)
		if v.Clo != nil && v.T == nil {
			params[name] = SVal{Clo: v.Clo, Ty: ty}
			return
		}
		if v.T == nil && v.Place != nil {
			return
		}
		x.assumeType(st, v.T, ty)
		params[name] = SVal{T: v.T, Ty: ty}
	}
	var selfPlace *Place
	if c.recvPlace != nil {
		selfPlace = c.recvPlace
		v := x.load(st, selfPlace)
		params["self0"] = SVal{T: v.T, Ty: selfPlace.Ty}
		params["self"] = params["self0"]
	} else if c.recv != nil {
		rt := c.recv.Ty
		if fi != nil {
			rt = substT(recvVar.Type(), sub)
		} else if c.iface == "" && recvVar != nil {
			rt = substT(recvVar.Type(), sub)
		}
		bind(rn, *c.recv, rt)
		if fi != nil && !sp.Opt["nilrecv"] {
			if _, ok := under(rt).(*types.Pointer); ok {
				x.check(st, Not(Eq(params[rn].T, Null)), "nil", "receiver of "+sp.Key+" is not nil", pos, nil)
			}
		}
	}
	for i, p := range ps {
		if i < len(args) {
			bind(pns[i], args[i], substT(p.Type(), sub))
		}
	}
	if x.spec != nil && fobj != nil {
		alt := ""
		if fi == nil && fobj.Pkg() != nil { // of the standard library: by name, with or without its package
			alt = fobj.Pkg().Name() + "_" + fobj.Name()
		}
		var extra map[string]SVal
		if x.threads() {
			extra = map[string]SVal{}
			for i, a := range args {
				if a.T != nil || a.Clo != nil {
					ty := a.Ty
					if i < len(ps) {
						ty = substT(ps[i].Type(), sub)
					}
					extra[fmt.Sprintf("arg%d", i)] = SVal{T: a.T, Clo: a.Clo, Ty: ty}
				}
			}
		}
		x.hooks(fr, st, funcName(fobj), pos, extra, alt)
	}
	pre := st.clone()
	env := &Env{x: x, st: pre, old: pre, params: params, spec: sp, nolocals: true}
	pkgOf(env)
	for _, r := range sp.Requires {
		x.check(st, x.specBool(env, r.E), "precondition", "precondition of "+sp.Key+": "+r.label(), pos, r.Tags)
	}
	for _, p := range sp.Panics {
		cond := x.specBool(env, p.E)
		if x.spec != nil && len(x.spec.Panics) > 0 {
			re := x.envFor(x.root, st)
			re.old = x.old
			var cs []*Term
			for _, q := range x.spec.Panics {
				cs = append(cs, x.specBool(re.atOld(), q.E))
			}
			x.check(st, Implies(cond, Or(cs...)), "panic", sp.Key+" panics only under the documented condition", pos, nil)
		} else {
			x.check(st, Not(cond), "panic", sp.Key+" does not panic: "+p.label(), pos, nil)
		}
		st.assume(Not(cond))
	}
	if x.root != nil && x.root.fn != nil && fi == x.root.fn {
		if len(x.spec.Dec) > 0 {
			var m0, m1 []*Term
			re := x.envFor(x.root, x.old)
			re.old = x.old
			for _, d := range x.spec.Dec {
				m0 = append(m0, x.specVal(re.atOld(), d).T)
				m1 = append(m1, x.specVal(env, d).T)
			}
			x.check(st, lexLess(m1, m0), "decreases", "recursion terminates: measure decreases", pos, nil)
		} else if x.dry == 0 {
			x.notes["termination of the recursion of "+x.rootKey+" is not proved"] = true
		}
	}
	// effects
	x.applyMods(st, pre, env, sp, fi, sub)
	if sp.Iter != nil {
		return x.iterate(fr, st, pre, env, sp, sig, sub, args, n)
	}
	// results
	var vs []Val
	var rs []SVal
	for i := 0; i < sig.Results().Len(); i++ {
		rt := substT(sig.Results().At(i).Type(), sub)
		var r *Term
		if sp.Pure {
			var ts []*Term
			if c.recv != nil && c.recvPlace == nil {
				ts = append(ts, params[rn].T)
			}
			if c.recvPlace != nil {
				ts = append(ts, params["self0"].T)
			}
			for _, p := range pns {
				if params[p].T != nil {
					ts = append(ts, params[p].T)
				}
			}
			r = App(fmt.Sprintf("fn$%s$%d", sp.Key, i), sortOf(rt), ts...)
		} else {
			r = NewConst("r$"+lastPart(sp.Key), sortOf(rt))
		}
		x.assumeType(st, r, rt)
		vs = append(vs, Val{T: r, Ty: rt})
		rs = append(rs, SVal{T: r, Ty: rt})
	}
	if selfPlace != nil && sp.Opt["self"] {
		nv := NewConst("self", params["self0"].T.S)
		x.store(st, selfPlace, Val{T: nv, Ty: selfPlace.Ty})
		params["self"] = SVal{T: nv, Ty: selfPlace.Ty}
	}
	e2 := &Env{x: x, st: st, old: pre, params: params, spec: sp, nolocals: true, results: rs, resNames: resultNames(sp, sig)}
	pkgOf(e2)
	for _, w := range sp.Witness {
		ty := e2.typ(w.Ty)
		params[w.Name] = SVal{T: NewConst("w$"+w.Name, sortOf(ty)), Ty: ty}
	}
	var out []SVs
	if x.threads() && len(sp.Unwinds) > 0 {
		p := st.clone()
		v := NewConst("panic", SAny)
		p.assume(Not(Eq(v, zeroOf(types.NewInterfaceType(nil, nil)))))
		x.raise(p, v)
		e3 := e2.clone()
		e3.st = p
		for _, q := range sp.Unwinds {
			p.assume(x.specBool(e3, q.E))
		}
		out = append(out, SVs{p, vs})
	}
	for _, q := range sp.Ensures {
		st.assume(x.specBool(e2, q.E))
	}
	return append(out, SVs{st, vs})
}

func lastPart(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// applyMods gives every component the callee may change an arbitrary value within its frame.
func (x *Exec) applyMods(st, pre *State, env *Env, sp *FuncSpec, fi *FuncInfo, sub TSubst) {
	decl := map[string][]*ModClause{}
	var names []string
	add := func(n string) {
		for _, m := range names {
			if m == n {
				return
			}
		}
		names = append(names, n)
	}
	allocs := false
	for _, m := range sp.Mods {
		for _, n := range x.compsNamed(env, m.Comp) {
			decl[n] = append(decl[n], m)
			add(n)
		}
		if m.Fresh {
			allocs = true
		}
	}
	if fi != nil && !sp.Trusted {
		var ws []string
		for n := range x.writesOf(fi, sp, sub) {
			ws = append(ws, n)
		}
		sort.Strings(ws)
		for _, n := range ws {
			add(n)
		}
	}
	if sp.Opt["allocs"] {
		allocs = true
	}
	for _, c := range sp.Ensures {
		if callsName(c.E, "fresh") {
			allocs = true
		}
	}
	for _, n := range names {
		if n == "$alloc" {
			allocs = true
		}
	}
	if allocs {
		add("$alloc")
	}
	oldAlloc := x.get(pre, allocComp())
	for _, n := range names {
		c := compTab[n]
		if n == "$alloc" {
			na := x.havocComp(st, c, "call")
			r := BoundVar("r", SRef)
			s, s2 := mk("select", SBool, oldAlloc, r), mk("select", SBool, na, r)
			trig := [][]*Term{{s2}}
			if oldAlloc.Op != "store" {
				trig = append(trig, []*Term{s})
			}
			st.assume(Forall([]*Term{r}, trig, Implies(s, s2)))
			continue
		}
		old := x.get(st, c)
		if strings.HasPrefix(n, "T|") || !isArr(c.s) || arrKey(c.s) != SRef {
			x.havocComp(st, c, "call")
			continue
		}
		exc, all := x.modRefs(env, decl[n])
		switch {
		case all:
			x.havocComp(st, c, "call")
		case !allocs:
			t := old
			for _, r := range exc {
				t = Store(t, r, NewConst("cv", arrElem(c.s)))
				if x.rec != nil {
					x.rec.comp(n, r)
				}
			}
			if len(exc) > 0 {
				nm := NewConst("C$"+c.name, c.s)
				st.assume(mk("=", SBool, nm, t))
				x.compFacts(st, c, nm)
				st.comps[n] = nm
			}
		default:
			now := x.havocComp(st, c, "call")
			st.assume(frameTerm(now, old, oldAlloc, exc))
		}
	}
}

// writesOf: the heap components a function may write, found by executing its body once without proving anything.
func (x *Exec) writesOf(fi *FuncInfo, sp *FuncSpec, sub TSubst) map[string]bool {
	key := fi.Key
	for _, tp := range funcTypeParams(fi.Obj) {
		if t, ok := sub[tp]; ok {
			key += "|" + tkey(t)
		} else {
			key += "|" + tkey(tp)
		}
	}
	if w, ok := x.sh.writes[key]; ok {
		return w
	}
	if x.sh.wip[key] {
		return nil
	}
	x.sh.wip[key] = true
	y := newExec(x.pr, x.set, x.sh)
	y.dry = 1
	y.rec = newRec(nil)
	y.runFunc(fi, sp, sub)
	delete(x.sh.wip, key)
	w := map[string]bool{}
	for n := range y.rec.comps {
		w[n] = true
	}
	if len(x.sh.wip) == 0 || true {
		x.sh.writes[key] = w
	}
	return w
}

// ---- verification of one function ----

func (x *Exec) runFunc(fi *FuncInfo, sp *FuncSpec, sub TSubst) {
	x.rootKey = fi.Key
	x.spec = sp
	sig := fi.Obj.Type().(*types.Signature)
	root := &Frame{fn: fi, pkg: fi.Pkg, sub: sub, sig: sig, body: fi.Decl.Body, spec: sp, path: fi.Key}
	root.boxed = x.boxedVars(fi.Pkg, fi.Decl)
	x.root = root
	st := &State{locals: map[*types.Var]Val{}, comps: map[string]*Term{}, its: map[int]*Term{}, pos: map[int]*Term{}, vis: map[int]*Term{}}
	recvVar, ps := declaredParams(fi)
	rn, pns := paramNames(sp, recvVar, ps)
	mkParam := func(v *types.Var, name string) Val {
		ty := substT(v.Type(), sub)
		s := sortOf(ty)
		t := Const("p$"+sanitize(name)+"$"+sanitize(string(s)), s)
		if s == SSl && !sp.Opt["offsets"] {
			t = MkSlice(SlArr(t), IntLit(0), SlLen(t), SlCap(t))
		}
		x.assumeType(st, t, ty)
		x.params[name] = SVal{T: t, Ty: ty}
		if v.Name() != "" && v.Name() != "_" {
			x.pvars[name] = v
		}
		return Val{T: t, Ty: ty}
	}
	var recv *Val
	if recvVar != nil {
		if rn == "" || rn == "_" {
			rn = "self"
		}
		v := mkParam(recvVar, rn)
		recv = &v
		if _, ok := under(v.Ty).(*types.Pointer); ok && !sp.Opt["nilrecv"] {
			st.assume(Not(Eq(v.T, Null)))
		}
	}
	var args []Val
	for i, p := range ps {
		name := pns[i]
		if name == "" || name == "_" {
			name = fmt.Sprintf("arg%d", i)
		}
		args = append(args, mkParam(p, name))
	}
	// the entry state of the contract is the one before address-taken parameters get their storage
	pre := st.clone()
	x.old = pre
	if sp.Opt["onesection"] {
		pre.assume(Eq(x.get(pre, comp("$sections", SInt, TMath, 's')), IntLit(0)))
	}
	// objects that variables of the package got when the program started
	for _, in := range fi.Pkg.Info.InitOrder {
		if len(in.Lhs) == 1 && isAllocation(in.Rhs) {
			x.globalVal(pre, in.Lhs[0])
		}
	}
	if x.threads() {
		x.thInit(pre)
	}
	env := x.envFor(root, pre)
	for _, r := range sp.Requires {
		pre.assume(x.specBool(env, r.E))
	}
	st = pre.clone()
	x.bindParams(root, st, fi.Decl.Recv, recv, fi.Decl.Type, args)
	if len(sp.Requires) > 0 {
		x.cover(st, "preconditions are satisfiable", fi.Decl)
	}
	for _, h := range sp.Entry {
		x.hint(root, st, h, "entry")
	}
	if fi.Decl.Body == nil {
		x.unsupported("%s has no body", fi.Key)
	}
	for _, r := range x.runBody(root, st) {
		if r.st.dead() {
			continue
		}
		x.exit(root, r.st, r.vs, sp, fi)
	}
}

func (x *Exec) exit(root *Frame, st *State, vals []Val, sp *FuncSpec, fi *FuncInfo) {
	sig := root.sig
	var rs []SVal
	for i := 0; i < sig.Results().Len(); i++ {
		rt := substT(sig.Results().At(i).Type(), root.sub)
		if i >= len(vals) {
			x.unsupported("missing result")
		}
		v := x.coerce(st, vals[i], rt)
		t := x.termOf(v)
		rs = append(rs, SVal{T: t, Ty: rt})
	}
	x.exits++
	where := fmt.Sprintf("exit %d", x.exits)
	mk := func(locals bool) *Env {
		e := x.envFor(root, st)
		if locals && x.spec == sp {
			// a function that only calls another: its locals are there
			for e.fr.tail != nil {
				e.fr = e.fr.tail
			}
		}
		e.results = rs
		e.resNames = resultNames(sp, sig)
		e.nolocals = !locals
		return e
	}
	ens := sp.Ensures
	if st.pan != nil {
		where += " by panic"
		ens = sp.Unwinds
		if len(ens) == 0 {
			x.check(st.clone(), False, "panic", where+" cannot happen", fi.Decl, nil)
			return
		}
	}
	x.ghostSets(mk(true), st, sp.Ghost)
	for _, h := range sp.Exit {
		x.aid(mk(true), st, h, where, nil)
	}
	if x.threads() && st.pan == nil {
		for n, c := range sp.Closures {
			if c.At == "exit" {
				// the function value as it is, which a term would not show
				e := mk(true)
				for i := range e.results {
					if vals[i].Clo != nil {
						e.results = append([]SVal(nil), e.results...)
						e.results[i].Clo = vals[i].Clo
					}
				}
				x.applyLocal(root, st, n, c, e, fi.Decl)
			}
		}
	}
	x.cover(st, "exit-cover", fi.Decl)
	e := mk(false)
	for _, p := range sp.Panics {
		x.check(st.clone(), Not(x.specBool(e.atOld(), p.E)), "panic", "panics when it should: "+p.label(), fi.Decl, p.Tags)
	}
	if len(sp.Witness) > 0 {
		m := map[string]SVal{}
		we := mk(true)
		for _, w := range sp.Witness {
			ty := we.typ(w.Ty)
			m[w.Name] = SVal{T: x.witness(we, w, sortOf(ty)), Ty: ty}
		}
		e = e.with(m)
	}
	for _, q := range ens {
		s2 := st.clone()
		x.check(s2, x.specBool(e, q.E), "postcondition", where+" ensures "+q.label(), fi.Decl, q.Tags)
	}
	if x.dry > 0 {
		return
	}
	e0 := x.envFor(root, x.old)
	x.checkFrame(st, x.old, e0.atOld(), sp.Mods, where, fi.Decl)
}

// checkFrame demands that only what is declared changed between the states.
func (x *Exec) checkFrame(st, old0 *State, e0 *Env, mods []*ModClause, where string, at ast.Node) {
	decl := map[string][]*ModClause{}
	for _, m := range mods {
		for _, n := range x.compsNamed(e0, m.Comp) {
			decl[n] = append(decl[n], m)
		}
	}
	var names []string
	for n := range st.comps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := compTab[n]
		if n == "$alloc" || strings.HasPrefix(n, "$") || strings.HasPrefix(n, "T|") {
			continue
		}
		old := x.get(old0, c)
		now := st.comps[n]
		if old == now {
			continue
		}
		ms, ok := decl[n]
		if !isArr(c.s) || arrKey(c.s) != SRef {
			if !ok {
				x.check(st.clone(), Eq(now, old), "frame", where+" leaves "+n+" unchanged", at, nil)
			}
			continue
		}
		exc, all := x.modRefs(e0, ms)
		if all {
			continue
		}
		x.check(st.clone(), frameTerm(now, old, x.get(old0, allocComp()), exc), "frame", where+" modifies only what is declared of "+n, at, nil)
	}
}

// witness evaluates a ghost result; where it is not defined on this path any value will do.
func (x *Exec) witness(e *Env, w WitDef, s Sort) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				t = NewConst("w$"+w.Name, s)
				return
			}
			panic(r)
		}
	}()
	return e.adapt(w.E, e.eval(w.E), s)
}

func (x *Exec) ghostSets(e *Env, st *State, sets []*GhostSet) {
	type upd struct {
		c   *compInfo
		ref *Term
		t   *Term
	}
	var us []upd
	for _, g := range sets {
		switch {
		case g.All:
			// forall r T :: r.field := E(r)
			ty := e.typ(g.Vars[0].Ty)
			b := BoundVar(g.Vars[0].Name, SRef)
			m := map[string]SVal{g.Vars[0].Name: {T: b, Ty: ty}}
			e2 := e.with(m)
			c, gt := e.ghostComp(deref(ty), g.Field)
			if c == nil {
				e.fail(g.E, "no ghost field %s", g.Field)
			}
			idx := []*Term{b}
			for _, v := range g.Vars[1:] {
				vt := e.typ(v.Ty)
				bv := BoundVar(v.Name, sortOf(vt))
				idx = append(idx, bv)
				e2 = e2.with(map[string]SVal{v.Name: {T: bv, Ty: vt}})
			}
			_ = gt
			nc := NewConst("gs$"+g.Field, c.s)
			var lhs *Term = mk("select", arrElem(c.s), nc, b)
			for _, i := range idx[1:] {
				lhs = mk("select", arrElem(lhs.S), lhs, i)
			}
			val := e2.adapt(g.E, e2.eval(g.E), lhs.S)
			st.assume(Forall(idx, [][]*Term{{lhs}}, mk("=", SBool, lhs, val)))
			us = append(us, upd{c, nil, nc})
		case g.Base == nil:
			gv := x.set.GVar[g.Field]
			if gv == nil {
				e.fail(g.E, "unknown ghost variable %s", g.Field)
			}
			c := e.ghostVar(gv)
			us = append(us, upd{c, nil, x.ghostValue(e, st, g, c.s)})
		default:
			b := e.eval(g.Base)
			c, _ := e.ghostComp(deref(b.Ty), g.Field)
			if c == nil {
				e.fail(g.E, "no ghost field %s", g.Field)
			}
			us = append(us, upd{c, b.T, x.ghostValue(e, st, g, arrElem(c.s))})
		}
	}
	for _, u := range us {
		if u.ref == nil {
			st.comps[u.c.name] = u.t
			if x.rec != nil {
				x.rec.comp(u.c.name, nil)
			}
			continue
		}
		x.put(st, u.c, u.ref, Store(x.get(st, u.c), u.ref, u.t))
	}
}

// ghostValue is the value given to a ghost location; with index variables it is defined pointwise.
func (x *Exec) ghostValue(e *Env, st *State, g *GhostSet, s Sort) *Term {
	if len(g.Vars) == 0 {
		return e.adapt(g.E, e.eval(g.E), s)
	}
	nc := NewConst("gs$"+g.Field, s)
	var lhs *Term = nc
	e2 := e
	var vs []*Term
	for _, v := range g.Vars {
		vt := e.typ(v.Ty)
		bv := BoundVar(v.Name, sortOf(vt))
		vs = append(vs, bv)
		e2 = e2.with(map[string]SVal{v.Name: {T: bv, Ty: vt}})
		lhs = mk("select", arrElem(lhs.S), lhs, bv)
	}
	val := e2.adapt(g.E, e2.eval(g.E), lhs.S)
	st.assume(Forall(vs, [][]*Term{{lhs}}, mk("=", SBool, lhs, val)))
	return nc
}

// VerifyResult is what verifying one function or lemma produced.
type VerifyResult struct {
	Key     string
	Oblig   []*Obligation
	Used    []string
	Inlined []string
	Trusted map[string]string
	Notes   []string
	Lemmas  []string
	Err     string
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) result(key string, err string) *VerifyResult {
	return &VerifyResult{Key: key, Oblig: x.oblig, Used: keysOf(x.used), Inlined: keysOf(x.inlined), Trusted: x.trusted, Notes: keysOf(x.notes), Lemmas: keysOf(x.lemUsed), Err: err}
}

func guard(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				err = "unsupported: " + e.msg
			case specErr:
				err = "specification: " + e.msg
			default:
				if debugPanics {
					panic(r)
				}
				err = fmt.Sprintf("internal: %v", r)
			}
		}
	}()
	f()
	return ""
}

var debugPanics bool

func VerifyFunc(pr *Program, set *SpecSet, sh *shared, key string) *VerifyResult {
	return verifyFunc(pr, set, sh, key, nil)
}

func verifyFunc(pr *Program, set *SpecSet, sh *shared, key string, spare *spare) *VerifyResult {
	x := newExec(pr, set, sh)
	x.spare = spare
	x.rootKey = key
	fi := pr.ByKey[key]
	sp := set.Funcs[key]
	if fi == nil {
		return x.result(key, "function not found in the source")
	}
	if sp == nil {
		return x.result(key, "no contract")
	}
	err := guard(func() {
		x.runFunc(fi, sp, TSubst{})
		if x.exits == 0 && !sp.Opt["noreturn"] {
			x.unsupported("no exit is reachable")
		}
	})
	return x.result(key, err)
}

// VerifyLemma proves a lemma.
func VerifyLemma(pr *Program, set *SpecSet, sh *shared, name string) *VerifyResult {
	x := newExec(pr, set, sh)
	x.rootKey = "lemma " + name
	l := set.Lemmas[name]
	if l == nil {
		return x.result(x.rootKey, "no such lemma")
	}
	if l.Axiom {
		x.trusted["lemma "+name] = l.Reason
		return x.result(x.rootKey, "")
	}
	err := guard(func() {
		x.spec = &FuncSpec{Key: x.rootKey, Loops: map[int]*LoopSpec{}, Opt: map[string]bool{}}
		x.lemma = l
		st := &State{locals: map[*types.Var]Val{}, comps: map[string]*Term{}, its: map[int]*Term{}, pos: map[int]*Term{}, vis: map[int]*Term{}}
		x.old = st
		e := &Env{x: x, st: st, old: st, nolocals: true, tps: map[string]types.Type{}, vars: map[string]SVal{}, spec: x.spec}
		if p := pr.specPkg(l.Pkg); p != nil {
			e.pkg = p
		}
		for _, t := range l.TPar {
			tp := types.NewTypeParam(types.NewTypeName(0, nil, t, nil), types.NewInterfaceType(nil, nil))
			e.tps[t] = tp
			e.tpOrder = append(e.tpOrder, tp)
		}
		for _, p := range l.Params {
			ty := e.typ(p.Ty)
			t := Const("v$"+p.Name+"$"+sanitize(string(sortOf(ty))), sortOf(ty))
			if !isArr(t.S) {
				x.assumeType(st, t, ty)
			}
			e.vars[p.Name] = SVal{T: t, Ty: ty}
		}
		x.lemVars = e.vars
		for _, r := range l.Requires {
			st.assume(x.specBool(e, r.E))
		}
		if len(l.Requires) > 0 {
			x.cover(st, "premises are satisfiable", nil)
		}
		for _, h := range l.Hints {
			x.hintEnv(e, st, h, "proof", nil)
		}
		for _, q := range l.Ensures {
			x.check(st.clone(), x.specBool(e, q.E), "lemma", q.label(), nil, q.Tags)
		}
	})
	return x.result(x.rootKey, err)
}

// callsName: whether the expression applies the named spec function.
func callsName(e *SExpr, name string) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" && (e.S == name || len(e.Args) > 0 && e.Args[0] != nil && e.Args[0].Op == "id" && e.Args[0].S == name) {
		return true
	}
	for _, a := range e.Args {
		if callsName(a, name) {
			return true
		}
	}
	return false
}
