package main

import (
	"go/ast"
	"go/types"
	"sort"
)

// A local function variable may have a contract of its own ("closure NAME … end" in the contract of the function). It is assigned
// once; its body is verified when it is assigned, from an arbitrary heap in which only the contract's preconditions hold; calls of
// it, its own recursive ones included, use the contract.

// cloRun is the verification of a local function: the measure at its entry.
type cloRun struct {
	measure []*Term
	spec    *FuncSpec
	pre     *State
	was     map[string]SVal
}

// running is the local function being verified, if any.
func (x *Exec) running() *cloRun {
	for _, r := range x.cloBusy {
		return r
	}
	return nil
}

// captured lists the variables of the enclosing functions that a literal uses.
func (x *Exec) captured(fr *Frame, lit *ast.FuncLit) []*types.Var {
	seen := map[*types.Var]bool{}
	var out []*types.Var
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := fr.pkg.Info.Uses[id].(*types.Var)
		if !ok || v.IsField() || x.isGlobal(v) || seen[v] {
			return true
		}
		if v.Pos() >= lit.Pos() && v.Pos() < lit.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// assigned counts the assignments to each variable in a syntax tree, definitions not included; taking the address counts too.
func assigned(info *types.Info, n ast.Node) map[*types.Var]int {
	out := map[*types.Var]int{}
	mark := func(e ast.Expr) {
		for {
			switch k := ast.Unparen(e).(type) {
			case *ast.Ident:
				if v, ok := info.Uses[k].(*types.Var); ok {
					out[v]++
				}
				return
			case *ast.SelectorExpr:
				if _, ptr := info.TypeOf(k.X).Underlying().(*types.Pointer); ptr {
					return
				}
				e = k.X
			case *ast.IndexExpr:
				if _, arr := info.TypeOf(k.X).Underlying().(*types.Array); !arr {
					return
				}
				e = k.X
			default:
				return
			}
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch k := m.(type) {
		case *ast.AssignStmt:
			for _, l := range k.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(k.X)
		case *ast.RangeStmt:
			if k.Key != nil {
				mark(k.Key)
			}
			if k.Value != nil {
				mark(k.Value)
			}
		case *ast.UnaryExpr:
			if k.Op.String() == "&" {
				mark(k.X)
			}
		}
		return true
	})
	return out
}

// localEnv is the environment of a local function's contract: the captured variables by value, and its parameters.
func (x *Exec) localEnv(st, old *State, c *Closure, sp *FuncSpec, args []Val) (*Env, map[string]SVal) {
	e := x.envFor(c.Fr, st)
	e.old = old
	e.nolocals = true
	e.pvars = nil
	now, was := map[string]SVal{}, map[string]SVal{}
	for _, v := range x.captured(c.Fr, c.Lit) {
		if a, ok := st.locals[v]; ok && a.T != nil && !x.isBoxed(c.Fr, v) {
			now[v.Name()] = SVal{T: a.T, Ty: c.Fr.varType(v)}
		}
		if a, ok := old.locals[v]; ok && a.T != nil && !x.isBoxed(c.Fr, v) {
			was[v.Name()] = SVal{T: a.T, Ty: c.Fr.varType(v)}
		}
	}
	i := 0
	for _, f := range c.Lit.Type.Params.List {
		for _, nm := range f.Names {
			name := nm.Name
			if i < len(sp.CParams) {
				name = sp.CParams[i].Name
			}
			v := c.Fr.pkg.Info.Defs[nm].(*types.Var)
			if args[i].T != nil {
				now[name] = SVal{T: args[i].T, Ty: c.Fr.varType(v)}
				was[name] = now[name]
			}
			i++
		}
	}
	e = e.with(now)
	e.oldVars = was
	return e, was
}

// localContract starts the use of the contract of a local function variable, if it has one, and verifies the function.
func (x *Exec) localContract(fr *Frame, st *State, id *ast.Ident, c *Closure) {
	if x.spec == nil || fr.def != nil || fr != x.root && fr.spec != nil || x.spec.Closures[id.Name] == nil || x.spec.Closures[id.Name].At != "" {
		return
	}
	sp := x.spec.Closures[id.Name]
	info := fr.pkg.Info
	self, _ := info.ObjectOf(id).(*types.Var)
	as := assigned(info, fr.fn.Decl.Body)
	if self == nil || as[self] != 1 {
		x.unsupported("function variable %s is assigned more than once", id.Name)
	}
	if c.Lit.Type.Results != nil && len(c.Lit.Type.Results.List) > 0 {
		x.unsupported("contract of the local function %s with results", id.Name)
	}
	if x.cloSpec == nil {
		x.cloSpec = map[*ast.FuncLit]*FuncSpec{}
		x.cloBusy = map[*ast.FuncLit]*cloRun{}
	}
	x.cloSpec[c.Lit] = sp
	W := x.writesOf(fr.fn, x.spec, fr.sub)
	s := st.clone()
	// the state of a call is arbitrary, except for what never changes
	inside := assigned(info, c.Lit.Body)
	mod := map[string]bool{}
	for _, n := range sp.ModVars {
		mod[n] = true
	}
	for _, v := range x.captured(fr, c.Lit) {
		if inside[v] > 0 && !mod[v.Name()] {
			x.unsupported("local function %s changes %s, which its contract does not say", id.Name, v.Name())
		}
		if x.isBoxed(fr, v) {
			x.unsupported("local function %s uses %s, whose address is taken", id.Name, v.Name())
		}
		if v != self && (as[v] > 0 || mod[v.Name()]) {
			ty := fr.varType(v)
			t := NewConst("any$"+v.Name(), sortOf(ty))
			x.assumeType(s, t, ty)
			s.locals[v] = Val{T: t, Ty: ty}
			if x.rec != nil {
				x.rec.local(v)
			}
		}
	}
	oldAlloc := x.get(s, allocComp())
	var ws []string
	for n := range W {
		ws = append(ws, n)
	}
	sort.Strings(ws)
	for _, n := range ws {
		na := x.havocComp(s, compTab[n], "any")
		if n == "$alloc" {
			r := BoundVar("r", SRef)
			a, b := mk("select", SBool, oldAlloc, r), mk("select", SBool, na, r)
			s.assume(Forall([]*Term{r}, [][]*Term{{a}, {b}}, Implies(a, b)))
		}
	}
	var args []Val
	for _, f := range c.Lit.Type.Params.List {
		for _, nm := range f.Names {
			v := info.Defs[nm].(*types.Var)
			ty := fr.varType(v)
			t := NewConst("a$"+nm.Name, sortOf(ty))
			x.assumeType(s, t, ty)
			args = append(args, Val{T: t, Ty: ty})
		}
	}
	pre := s.clone()
	env, _ := x.localEnv(s, pre, c, sp, args)
	for _, r := range sp.Requires {
		s.assume(x.specBool(env, r.E))
	}
	pre = s.clone()
	env, was := x.localEnv(s, pre, c, sp, args)
	if len(sp.Requires) > 0 {
		x.cover(s, "preconditions of "+id.Name+" are satisfiable", c.Lit)
	}
	for _, h := range sp.Entry {
		x.hintEnv(env, s, h, "entry of "+id.Name, c.Lit)
	}
	run := &cloRun{spec: sp, pre: pre, was: was}
	for _, d := range sp.Dec {
		run.measure = append(run.measure, x.specVal(env, d).T)
	}
	x.cloBusy[c.Lit] = run
	for k, r := range x.runClosure(fr, s, c, args, nil) {
		if r.st.dead() {
			continue
		}
		where := id.Name + " exit " + string(rune('1'+k))
		for _, h := range sp.Exit {
			e, _ := x.localEnv(r.st, pre, c, sp, args)
			x.hintEnv(e, r.st, h, where, c.Lit)
		}
		e, _ := x.localEnv(r.st, pre, c, sp, args)
		for _, q := range sp.Ensures {
			x.check(r.st.clone(), x.specBool(e, q.E), "postcondition", where+" ensures "+q.label(), c.Lit, q.Tags)
		}
		if x.dry == 0 {
			e0, _ := x.localEnv(pre, pre, c, sp, args)
			x.checkFrame(r.st, pre, e0, sp.Mods, where, c.Lit)
		}
	}
	delete(x.cloBusy, c.Lit)
}

// callLocal is a call of a local function by its contract.
func (x *Exec) callLocal(fr *Frame, st *State, c *Closure, sp *FuncSpec, args []Val, n *ast.CallExpr) []SVs {
	var pos ast.Node
	if n != nil {
		pos = n
	}
	i := 0
	for _, f := range c.Lit.Type.Params.List {
		for _, nm := range f.Names {
			v := c.Fr.pkg.Info.Defs[nm].(*types.Var)
			args[i] = x.coerce(st, args[i], c.Fr.varType(v))
			i++
		}
	}
	pre := st.clone()
	env, _ := x.localEnv(pre, pre, c, sp, args)
	for _, r := range sp.Requires {
		x.check(st, x.specBool(env, r.E), "precondition", "precondition of "+sp.Key+": "+r.label(), pos, r.Tags)
	}
	if run := x.cloBusy[c.Lit]; run != nil {
		if len(sp.Dec) > 0 {
			var m []*Term
			for _, d := range sp.Dec {
				m = append(m, x.specVal(env, d).T)
			}
			x.check(st, lexLess(m, run.measure), "decreases", "recursion terminates: measure decreases", pos, nil)
		} else if x.dry == 0 {
			x.notes["termination of the recursion of "+sp.Key+" is not proved"] = true
		}
	}
	x.writesOf(x.root.fn, x.spec, x.root.sub)
	x.applyMods(st, pre, env, sp, x.root.fn, x.root.sub)
	mod := map[string]bool{}
	for _, n := range sp.ModVars {
		mod[n] = true
	}
	for _, v := range x.captured(c.Fr, c.Lit) {
		if mod[v.Name()] {
			ty := c.Fr.varType(v)
			t := NewConst("r$"+v.Name(), sortOf(ty))
			x.assumeType(st, t, ty)
			st.locals[v] = Val{T: t, Ty: ty}
			if x.rec != nil {
				x.rec.local(v)
			}
		}
	}
	e2, _ := x.localEnv(st, pre, c, sp, args)
	for _, q := range sp.Ensures {
		st.assume(x.specBool(e2, q.E))
	}
	return []SVs{{st, nil}}
}
