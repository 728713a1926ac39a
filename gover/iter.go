package main

import (
	"go/ast"
	"go/types"
)

// iterate is the call of a library function that passes things to its last argument, a function, again and again
// until that returns an error or there is nothing left (filepath.WalkDir): a loop whose body is the function.
// $vis is the set of the first values passed.
func (x *Exec) iterate(fr *Frame, st, pre *State, env *Env, sp *FuncSpec, sig *types.Signature, sub TSubst, args []Val, n *ast.CallExpr) []SVs {
	fn := args[len(args)-1]
	if fn.Clo == nil {
		x.unsupported("%s with an unknown function", sp.Key)
	}
	fs, ok := under(substT(sig.Params().At(sig.Params().Len()-1).Type(), sub)).(*types.Signature)
	if !ok || fs.Params().Len() != len(sp.Iter) || fs.Results().Len() != 1 || sig.Results().Len() != 1 {
		x.unsupported("iteration of %s", sp.Key)
	}
	node := &ast.ForStmt{For: n.Pos(), Body: &ast.BlockStmt{Lbrace: n.Pos(), Rbrace: n.Pos()}}
	lc := x.loopSpec(fr, node, "")
	num := lc.num
	st.vis[num] = zeroArr(Arr(sortOf(fs.Params().At(0).Type()), SBool), False)
	facts := func(s *State, ps map[string]SVal, cs []*Clause) {
		e := *env
		e.st, e.old, e.loop = s, pre, num
		e.params = map[string]SVal{}
		for k, v := range env.params {
			e.params[k] = v
		}
		for k, v := range ps {
			e.params[k] = v
		}
		for _, c := range cs {
			s.assume(x.specBool(&e, c.E))
		}
	}
	errT := fs.Results().At(0).Type()
	calls := map[*State][]Val{}
	p := &loopParts{
		enter: func(s *State) (in, ex []*State) {
			t, f := s, s.clone()
			ps := map[string]SVal{}
			var vs []Val
			for i, name := range sp.Iter {
				ty := fs.Params().At(i).Type()
				v := NewConst(name, sortOf(ty))
				x.assumeType(t, v, ty)
				vs = append(vs, Val{T: v, Ty: ty})
				ps[name] = SVal{T: v, Ty: ty}
			}
			facts(t, ps, sp.Each)
			t.vis[num] = Store(t.vis[num], vs[0].T, True)
			calls[t] = vs
			if !t.dead() {
				in = append(in, t)
			}
			facts(f, nil, sp.AtEnd)
			if !f.dead() {
				ex = append(ex, f)
			}
			return
		},
		body: func(s *State) []Out {
			var out []Out
			for _, r := range x.callClosure(fr, s, fn.Clo, calls[s], n) {
				go1, stop := r.st, r.st.clone()
				e := x.termOf(x.coerce(r.st, r.vs[0], errT))
				go1.assume(Eq(e, zeroOf(errT)))
				stop.assume(Not(Eq(e, zeroOf(errT))))
				if !go1.dead() {
					out = append(out, Out{st: go1, kind: "next"})
				}
				if !stop.dead() {
					out = append(out, Out{st: stop, kind: "break"})
				}
			}
			return out
		},
		post: func(s *State) []Out { return next(s) },
	}
	var res []SVs
	for _, o := range x.loop(lc, st, p) {
		if o.kind != "next" {
			x.unsupported("control flow out of %s", sp.Key)
		}
		res = append(res, SVs{o.st, []Val{{T: NewConst("walked", sortOf(errT)), Ty: errT}}})
	}
	return res
}
