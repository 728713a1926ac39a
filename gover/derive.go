package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"
)

// A function whose proof fails may just compute the same in another way. The proof is then done again from the same
// contract: invariants that do not hold are left out (they are means, not ends; one that carries a property stays), and
// invariants are derived from the shape of the loops. Whatever is derived is checked like a written invariant.

// spare: what a second proof of a function does differently.
type spare struct {
	drop  map[*Clause]bool
	not   map[string]bool // derived invariants that do not hold
	again bool
}

func (x *Exec) invs(lc *loopCtx) []*Clause {
	cs := lc.invs()
	if x.spare == nil {
		return cs
	}
	cs = append(append([]*Clause{}, cs...), lc.spares()...)
	var out []*Clause
	for _, c := range cs {
		if !x.spare.drop[c] {
			out = append(out, c)
		}
	}
	return out
}

// invTerm is what the clause says in the environment; in a second proof, a clause about a variable that is no more is left out.
func (x *Exec) invTerm(e *Env, c *Clause) (t *Term) {
	if x.dry > 0 || x.spare != nil && len(c.Tags) == 0 {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(specErr); !ok {
					panic(r)
				}
				if x.spare != nil {
					x.spare.drop[c] = true
				}
				t = True
			}
		}()
	}
	return x.specBool(e, c.E)
}

// aid is a hint that only helps the proof: a second proof goes without it when it does not hold or cannot be said.
func (x *Exec) aid(e *Env, st *State, c *Clause, where string, n ast.Node) {
	if x.dry == 0 && (x.spare == nil || len(c.Tags) > 0) {
		x.hintEnv(e, st, c, where, n)
		return
	}
	if x.spare != nil && x.spare.drop[c] {
		return
	}
	k := len(x.oblig)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
			if x.spare != nil {
				x.spare.drop[c] = true
				x.spare.again = len(x.oblig) > k
			}
		}
	}()
	x.hintEnv(e, st, c, where, n)
	for _, o := range x.oblig[k:] {
		o.Clause = c
	}
}

// measure is the value of a written measure; nil when a second proof cannot say it.
func (x *Exec) measure(e *Env, s *SExpr) (t *Term) {
	if x.dry > 0 || x.spare != nil {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(specErr); !ok {
					panic(r)
				}
				t = nil
			}
		}()
	}
	return x.specVal(e, s).T
}

func (x *Exec) checkInv(st *State, c *Clause, goal *Term, kind, name string, n ast.Node) {
	k := len(x.oblig)
	x.check(st, goal, kind, name, n, c.Tags)
	for _, o := range x.oblig[k:] {
		o.Clause = c
	}
}

func plainExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(m ast.Node) bool {
		switch k := m.(type) {
		case *ast.CallExpr:
			if id, is := k.Fun.(*ast.Ident); !is || id.Name != "len" {
				ok = false
			}
		case *ast.FuncLit, *ast.UnaryExpr, *ast.StarExpr:
			ok = false
		}
		return ok
	})
	return ok
}

// quiet evaluates without leaving a trace.
func (x *Exec) quiet(f func() *Term) (t *Term) {
	x.dry++
	saved := x.rec
	x.rec = newRec(nil)
	defer func() {
		x.dry--
		x.rec = saved
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			t = nil
		}
	}()
	return f()
}

// derived gives the invariants that the shape of the loop suggests: h is the state at the head, mark the time before it.
func (x *Exec) derived(lc *loopCtx, p *loopParts, entry, h *State, autos map[*types.Var]*Term, mark int) []func(*State) *Term {
	var out []func(*State) *Term
	var body *ast.BlockStmt
	switch n := lc.node.(type) {
	case *ast.ForStmt:
		body = n.Body
		// for v := E; ...; v = E
		i, ok1 := n.Init.(*ast.AssignStmt)
		q, ok2 := n.Post.(*ast.AssignStmt)
		if ok1 && ok2 && i.Tok == token.DEFINE && q.Tok == token.ASSIGN && len(i.Lhs) == len(i.Rhs) && len(q.Lhs) == len(q.Rhs) {
			for k, l := range i.Lhs {
				for m := range q.Lhs {
					id, ok := l.(*ast.Ident)
					if !ok || types.ExprString(q.Lhs[m]) != id.Name || types.ExprString(i.Rhs[k]) != types.ExprString(q.Rhs[m]) || !plainExpr(i.Rhs[k]) {
						continue
					}
					v, ok := lc.fr.pkg.Info.Defs[id].(*types.Var)
					if !ok {
						continue
					}
					e := i.Rhs[k]
					f := func(s *State) *Term {
						return x.quiet(func() *Term {
							rs := x.eval(lc.fr, s.clone(), e)
							if len(rs) != 1 || rs[0].v.T == nil || s.locals[v].T == nil {
								return nil
							}
							return Eq(s.locals[v].T, rs[0].v.T)
						})
					}
					if f(entry) != nil && f(h) != nil {
						out = append(out, f)
					}
				}
			}
		}
		if v := x.stepped(lc, n.Post); v != nil && autos[v] == nil && entry.locals[v].T != nil && entry.locals[v].T.S == SInt {
			// a counter in arithmetic that may wrap around
			out = append(out, func(s *State) *Term { return Eq(s.locals[v].T, Add(entry.locals[v].T, s.its[lc.num])) })
			if b, ok := n.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LSS || b.Op == token.NEQ) && plainExpr(b.Y) {
				end := func(s *State) *Term {
					return x.quiet(func() *Term {
						rs := x.eval(lc.fr, s.clone(), b.Y)
						if len(rs) != 1 || rs[0].v.T == nil || rs[0].v.T.S != SInt {
							return nil
						}
						return rs[0].v.T
					})
				}
				if types.ExprString(b.X) == v.Name() && end(entry) != nil && end(entry) == end(h) {
					e := end(entry)
					out = append(out, func(s *State) *Term { return Or(Eq(s.its[lc.num], IntLit(0)), Le(s.locals[v].T, e)) })
				}
			}
		}
	case *ast.RangeStmt:
		body = n.Body
	}
	if f := x.notLeft(lc, p, entry, h, autos, mark, body); f != nil {
		out = append(out, f)
	}
	return out
}

// stepped is the variable that the statement increments by one.
func (x *Exec) stepped(lc *loopCtx, s ast.Stmt) *types.Var {
	n, ok := s.(*ast.IncDecStmt)
	if !ok || n.Tok != token.INC {
		return nil
	}
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return nil
	}
	v, _ := lc.fr.pkg.Info.Uses[id].(*types.Var)
	return v
}

func (x *Exec) checkDerived(st *State, goal *Term, kind, name string, lc *loopCtx, key string) {
	k := len(x.oblig)
	x.check(st, goal, kind, name, lc.node, nil)
	for _, o := range x.oblig[k:] {
		o.Derived = key
	}
}

func leaves(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.BREAK || s.Tok == token.GOTO
	}
	return false
}

// notLeft: the conditions under which the first statements of the body leave the loop did not hold in the iterations before.
func (x *Exec) notLeft(lc *loopCtx, p *loopParts, entry, h *State, autos map[*types.Var]*Term, mark int, body *ast.BlockStmt) func(*State) *Term {
	if _, ok := h.vis[lc.num]; ok || body == nil {
		return nil
	}
	if _, ok := h.pos[lc.num]; ok {
		return nil
	}
	it := h.its[lc.num]
	t := x.quiet(func() *Term {
		s := h.clone()
		for v, d := range autos {
			a := s.locals[v]
			a.T = Add(entry.locals[v].T, Mul(d, it))
			s.locals[v] = a
		}
		in, _ := p.enter(s)
		if len(in) != 1 {
			return nil
		}
		s = in[0]
		var res *Term
	stmts:
		for _, b := range body.List {
			switch b := b.(type) {
			case *ast.AssignStmt:
				if b.Tok != token.DEFINE {
					break stmts
				}
				os := x.stmt(lc.fr, s, b, "")
				if len(os) != 1 || os[0].kind != "next" {
					break stmts
				}
				s = os[0].st
			case *ast.IfStmt:
				if b.Init != nil || b.Else != nil || !leaves(b.Body) {
					break stmts
				}
				c := x.condTerm(lc.fr, s, b.Cond)
				if c == nil {
					break stmts
				}
				if res == nil {
					res = c
				} else {
					res = Or(res, c)
				}
			default:
				break stmts
			}
		}
		return res
	})
	if t == nil || t == False {
		return nil
	}
	j := BoundVar("j", SInt)
	body1 := Subst(t, map[*Term]*Term{it: j})
	if !settled(body1, mark, j) {
		return nil
	}
	return func(s *State) *Term {
		return Forall([]*Term{j}, nil, Implies(And(Le(IntLit(0), j), Lt(j, s.its[lc.num])), Not(body1)))
	}
}

// condTerm is the value of a condition that is evaluated without branching; the operands of && and || are total here.
func (x *Exec) condTerm(fr *Frame, s *State, e ast.Expr) *Term {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.condTerm(fr, s, n.X)
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			if t := x.condTerm(fr, s, n.X); t != nil {
				return Not(t)
			}
			return nil
		}
	case *ast.BinaryExpr:
		if n.Op == token.LAND || n.Op == token.LOR {
			a, b := x.condTerm(fr, s, n.X), x.condTerm(fr, s, n.Y)
			if a == nil || b == nil {
				return nil
			}
			if n.Op == token.LAND {
				return And(a, b)
			}
			return Or(a, b)
		}
	}
	rs := x.eval(fr, s.clone(), e)
	if len(rs) != 1 || rs[0].v.T == nil || rs[0].v.T.S != SBool {
		return nil
	}
	return rs[0].v.T
}

// settled: the term has no symbol younger than the mark, but j.
func settled(t *Term, mark int, j *Term) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == j {
			return true
		}
		if memo[t] {
			return true
		}
		if len(t.Args) == 0 && t.id > mark && t.decl && !strings.HasPrefix(t.Op, "H0$") {
			return false
		}
		for _, a := range t.Args {
			if !rec(a) {
				return false
			}
		}
		memo[t] = true
		return true
	}
	return rec(t)
}

func (r *VerifyResult) failed() bool {
	if r.Err != "" {
		return true
	}
	exits, live := 0, 0
	for _, o := range r.Oblig {
		if o.Name == "exit-cover" {
			exits++
			if o.ok() {
				live++
			}
		} else if !o.ok() {
			return true
		}
	}
	return exits > 0 && live == 0
}

// Reprove does the failed proofs of rs again, and puts those in their places that succeed. prepare selects the obligations.
func Reprove(pr *Program, set *SpecSet, rs []*VerifyResult, prepare func(*VerifyResult), solve func([]*Obligation), until time.Time) {
	sh := &shared{writes: map[string]map[string]bool{}, wip: map[string]bool{}}
	n := 0
	for _, r := range rs {
		if r.failed() {
			n++
		}
	}
	if n > 3 {
		return
	}
	for i, r := range rs {
		sp := set.Funcs[r.Key]
		if !r.failed() || sp == nil || sp.Opt["threads"] || pr.ByKey[r.Key] == nil {
			continue
		}
		if strings.HasPrefix(r.Err, "unsupported") || strings.HasPrefix(r.Err, "internal") {
			continue
		}
		s := &spare{drop: map[*Clause]bool{}, not: map[string]bool{}}
		last := r
		for round := 0; round < 5 && time.Now().Before(until); round++ {
			more := round == 0 || s.again
			s.again = false
			for _, o := range last.Oblig {
				if o.Derived != "" && !o.ok() && !s.not[o.Derived] {
					s.not[o.Derived] = true
					more = true
				}
			}
			for _, o := range last.Oblig {
				if round == 0 || len(s.not) > 0 && round == 1 {
					break // at first with what can be derived alone
				}
				if o.Clause != nil && !o.ok() && len(o.Clause.Tags) == 0 && !s.drop[o.Clause] {
					s.drop[o.Clause] = true
					more = true
				}
			}
			if !more {
				break
			}
			q := verifyFunc(pr, set, sh, r.Key, s)
			if q.Err != "" {
				break
			}
			have := map[string]bool{}
			for _, l := range r.Lemmas {
				have[l] = true
			}
			for _, u := range r.Used {
				have[u] = true
			}
			known := true
			for _, l := range append(append([]string{}, q.Lemmas...), q.Used...) {
				known = known && have[l]
			}
			if !known && r.Err == "" {
				break
			}
			prepare(q)
			solve(q.Oblig)
			if !q.failed() {
				q.Notes = append(q.Notes, r.Key+" was proved with derived loop invariants in place of written ones that do not fit it")
				rs[i] = q
				break
			}
			last = q
			if os.Getenv("GOVER_REPROVE") != "" {
				for _, o := range q.Oblig {
					if !o.ok() {
						fmt.Fprintln(os.Stderr, "second proof:", r.Key, o.Kind, o.Name, o.ok())
					}
				}
			}
		}
	}
}
