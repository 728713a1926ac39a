package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func exprString(n ast.Node) string {
	e, ok := n.(ast.Expr)
	if !ok {
		return fmt.Sprintf("%T", n)
	}
	s := types.ExprString(e)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

// ---- composite literals and slicing ----

func (x *Exec) evalComposite(fr *Frame, st *State, n *ast.CompositeLit, ty types.Type) []SV {
	if pt, ok := under(ty).(*types.Pointer); ok {
		// elided &T in a nested literal
		var out []SV
		for _, r := range x.evalComposite(fr, st, n, pt.Elem()) {
			ref := x.newStruct(r.st, pt.Elem(), r.v.T)
			out = append(out, SV{r.st, Val{T: ref, Ty: ty}})
		}
		return out
	}
	switch u := under(ty).(type) {
	case *types.Struct:
		if u.NumFields() == 0 {
			sortOf(ty)
			return one(st, Val{T: Const("unit", "Unit"), Ty: ty})
		}
		if _, ok := isStructVal(ty); !ok {
			x.unsupported("literal of %s", ty)
		}
		d := datatypes[sortOf(ty)]
		type part struct {
			i int
			e ast.Expr
		}
		var parts []part
		var es []ast.Expr
		for i, el := range n.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						parts = append(parts, part{j, kv.Value})
						es = append(es, kv.Value)
					}
				}
			} else {
				parts = append(parts, part{i, el})
				es = append(es, el)
			}
		}
		var out []SV
		for _, r := range x.evalElems(fr, st, es, func(k int) types.Type { return u.Field(parts[k].i).Type() }) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = zeroOf(u.Field(i).Type())
			}
			for k, p := range parts {
				v := x.coerce(r.st, r.vs[k], u.Field(p.i).Type())
				args[p.i] = x.termOf(v)
			}
			out = append(out, SV{r.st, Val{T: MkDT(d, args...), Ty: ty}})
		}
		return out
	case *types.Slice, *types.Array:
		var elem types.Type
		if s, ok := u.(*types.Slice); ok {
			elem = s.Elem()
		} else {
			elem = u.(*types.Array).Elem()
		}
		var es []ast.Expr
		for _, el := range n.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				x.unsupported("keyed slice literal at %s", x.pos(n))
			}
			es = append(es, el)
		}
		var out []SV
		for _, r := range x.evalElems(fr, st, es, func(int) types.Type { return elem }) {
			c := zeroArr(Arr(SInt, sortOf(elem)), zeroOf(elem))
			for i, v := range r.vs {
				c = Store(c, IntLit(int64(i)), x.termOf(x.coerce(r.st, v, elem)))
			}
			if _, ok := u.(*types.Array); ok {
				out = append(out, SV{r.st, Val{T: c, Ty: ty}})
				continue
			}
			ref := x.newObj(r.st, "lit")
			m := memComp(elem)
			x.put(r.st, m, ref, Store(x.get(r.st, m), ref, c))
			l := IntLit(int64(len(es)))
			out = append(out, SV{r.st, Val{T: MkSlice(ref, IntLit(0), l, l), Ty: ty}})
		}
		return out
	case *types.Map:
		ref := x.newMap(st, u)
		cur := []*State{st}
		for _, el := range n.Elts {
			kv := el.(*ast.KeyValueExpr)
			var nx []*State
			for _, s := range cur {
				for _, r := range x.evalN(fr, s, []ast.Expr{kv.Key, kv.Value}) {
					x.mapStore(r.st, u, ref, x.coerce(r.st, r.vs[0], u.Key()).T, x.termOf(x.coerce(r.st, r.vs[1], u.Elem())))
					nx = append(nx, r.st)
				}
			}
			cur = nx
		}
		var out []SV
		for _, s := range cur {
			out = append(out, SV{s, Val{T: ref, Ty: ty}})
		}
		return out
	}
	x.unsupported("composite literal of %s", ty)
	return nil
}

// evalElems evaluates literal elements, passing the element type to nested literals without a type.
func (x *Exec) evalElems(fr *Frame, st *State, es []ast.Expr, ty func(int) types.Type) []SVs {
	cur := []SVs{{st, nil}}
	for i, e := range es {
		var nx []SVs
		for _, c := range cur {
			var rs []SV
			if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
				rs = x.evalComposite(fr, c.st, cl, substT(ty(i), fr.sub))
			} else {
				rs = x.eval(fr, c.st, e)
			}
			for _, r := range rs {
				nx = append(nx, SVs{r.st, append(append([]Val(nil), c.vs...), r.v)})
			}
		}
		cur = nx
	}
	return cur
}

func (x *Exec) termOf(v Val) *Term {
	if v.T != nil {
		return v.T
	}
	if v.Clo != nil {
		return x.closureTerm(v.Clo)
	}
	if v.Place != nil {
		x.unsupported("address of a local variable used as a value")
	}
	x.unsupported("value without a term")
	return nil
}

func (x *Exec) newMap(st *State, m *types.Map) *Term {
	ref := x.newObj(st, "map")
	d, c := mapDom(m), mapCard(m)
	x.put(st, d, ref, Store(x.get(st, d), ref, zeroArr(Arr(sortOf(m.Key()), SBool), False)))
	x.put(st, c, ref, Store(x.get(st, c), ref, IntLit(0)))
	return ref
}

func (x *Exec) evalSlice(fr *Frame, st *State, n *ast.SliceExpr) []SV {
	es := []ast.Expr{}
	idx := func(e ast.Expr) int {
		if e == nil {
			return -1
		}
		es = append(es, e)
		return len(es) - 1
	}
	li, hi, mi := idx(n.Low), idx(n.High), idx(n.Max)
	bt := under(fr.typeOf(n.X))
	ty := fr.typeOf(n)
	var bases []SV
	_, isArr := bt.(*types.Array)
	if pt, ok := bt.(*types.Pointer); ok {
		bt = under(pt.Elem())
		_, isArr = bt.(*types.Array)
	}
	if at, ok := bt.(*types.Array); ok && isArr {
		var ps []SP
		if _, ptr := under(fr.typeOf(n.X)).(*types.Pointer); ptr {
			for _, r := range x.eval(fr, st, n.X) {
				ps = append(ps, SP{r.st, x.derefPlace(r.st, r.v, fr.typeOf(n.X), n)})
			}
		} else {
			ps = x.place(fr, st, n.X)
		}
		for _, p := range ps {
			if p.p.kind != "cell" {
				x.unsupported("slicing an array at %s", x.pos(n))
			}
			l := IntLit(at.Len())
			bases = append(bases, SV{p.st, Val{T: MkSlice(p.p.ref, IntLit(0), l, l), Ty: types.NewSlice(at.Elem())}})
		}
	} else {
		bases = x.eval(fr, st, n.X)
	}
	var out []SV
	for _, b := range bases {
		for _, r := range x.evalN(fr, b.st, es) {
			s := b.v.T
			get := func(i int, def *Term) *Term {
				if i < 0 {
					return def
				}
				return x.toInt(r.vs[i].T)
			}
			if bb, ok := bt.(*types.Basic); ok && bb.Info()&types.IsString != 0 {
				r.st.assume(And(strFacts(s)...))
				l := App("slen", SInt, s)
				lo, h := get(li, IntLit(0)), get(hi, l)
				x.check(r.st, And(Le(IntLit(0), lo), Le(lo, h), Le(h, l)), "slice", "string slice bounds: "+x.src(n), n, nil)
				out = append(out, SV{r.st, Val{T: substr(s, lo, h), Ty: ty}})
				continue
			}
			x.assumeType(r.st, s, b.v.Ty)
			lo, h := get(li, IntLit(0)), get(hi, SlLen(s))
			mx := get(mi, SlCap(s))
			g := []*Term{Le(IntLit(0), lo), Le(lo, h), Le(h, mx)}
			if mi >= 0 {
				g = append(g, Le(mx, SlCap(s)))
			}
			x.check(r.st, And(g...), "slice", "slice bounds: "+x.src(n), n, nil)
			nl := Sub(h, lo)
			nc := Sub(mx, lo)
			// the offset of an empty tail stays with the array
			out = append(out, SV{r.st, Val{T: MkSlice(SlArr(s), Add(SlOff(s), lo), nl, nc), Ty: ty}})
		}
	}
	return out
}

func substr(s, lo, hi *Term) *Term {
	if lo.num != nil && lo.num.Sign() == 0 && hi == App("slen", SInt, s) {
		return s
	}
	r := App("ssub", SStr, s, lo, hi)
	sv, a, b, i := BoundVar("s", SStr), BoundVar("a", SInt), BoundVar("b", SInt), BoundVar("i", SInt)
	t := App("ssub", SStr, sv, a, b)
	sl := App("slen", SInt, sv)
	ok := And(Le(IntLit(0), a), Le(a, b), Le(b, sl))
	addAxiom("substring length", []string{"ssub"}, Forall([]*Term{sv, a, b}, [][]*Term{{t}}, Implies(ok, Eq(App("slen", SInt, t), Sub(b, a)))))
	at := App("sat", SBV8, t, i)
	addAxiom("substring bytes", []string{"ssub"}, Forall([]*Term{sv, a, b, i}, [][]*Term{{at}}, Implies(And(ok, Le(IntLit(0), i), Lt(i, Sub(b, a))), Eq(at, App("sat", SBV8, sv, Add(a, i))))))
	return r
}

// bytesStr is the string with the given bytes.
func bytesStr(arr, off, n *Term) *Term {
	s := App("bstr", SStr, arr, off, n)
	a, o, l, i := BoundVar("a", Arr(SInt, SBV8)), BoundVar("o", SInt), BoundVar("n", SInt), BoundVar("i", SInt)
	t := App("bstr", SStr, a, o, l)
	addAxiom("bytes to string length", []string{"bstr"}, Forall([]*Term{a, o, l}, [][]*Term{{t}}, Implies(Le(IntLit(0), l), Eq(App("slen", SInt, t), l))))
	at := App("sat", SBV8, t, i)
	addAxiom("bytes to string", []string{"bstr"}, Forall([]*Term{a, o, l, i}, [][]*Term{{at}}, Implies(And(Le(IntLit(0), i), Lt(i, l)), Eq(at, mk("select", SBV8, a, Add(o, i))))))
	sv := BoundVar("s", SStr)
	whole := App("bstr", SStr, App("sarr", Arr(SInt, SBV8), sv), IntLit(0), App("slen", SInt, sv))
	addAxiom("bytes of a string", []string{"bstr", "sarr"}, Forall([]*Term{sv}, [][]*Term{{whole}}, Eq(whole, sv)))
	sel := mk("select", SBV8, a, i)
	addAxiom("string from bytes", []string{"bstr"}, Forall([]*Term{a, o, l, i}, [][]*Term{{t, sel}}, Implies(And(Le(o, i), Lt(i, Add(o, l))), Eq(App("sat", SBV8, t, Sub(i, o)), sel))))
	return s
}

// strBytes allocates a byte slice holding the bytes of a string.
func (x *Exec) strBytes(st *State, s *Term, elem types.Type) *Term {
	st.assume(And(strFacts(s)...))
	ref := x.newObj(st, "bytes")
	m := memComp(elem)
	c := App("sarr", Arr(SInt, SBV8), s)
	sv, i := BoundVar("s", SStr), BoundVar("i", SInt)
	cv := App("sarr", Arr(SInt, SBV8), sv)
	addAxiom("string to bytes", []string{"sarr"}, Forall([]*Term{sv, i}, [][]*Term{{mk("select", SBV8, cv, i)}}, Eq(mk("select", SBV8, cv, i), App("sat", SBV8, sv, i))))
	x.put(st, m, ref, Store(x.get(st, m), ref, c))
	l := App("slen", SInt, s)
	cp := NewConst("bcap", SInt)
	st.assume(And(Le(l, cp), Le(cp, BigLit(pow2(maxLenLog)))))
	return MkSlice(ref, IntLit(0), l, cp)
}

// strRunes allocates a slice holding the characters of a string.
func (x *Exec) strRunes(st *State, s *Term, elem types.Type) *Term {
	st.assume(And(strFacts(s)...))
	ref := x.newObj(st, "runes")
	m := memComp(elem)
	x.put(st, m, ref, Store(x.get(st, m), ref, App("d$runesOf", Arr(SInt, SInt), s)))
	l := App("d$runeLen", SInt, s)
	sv := BoundVar("s", SStr)
	lv := App("d$runeLen", SInt, sv)
	addAxiom("number of characters", []string{"d$runeLen"}, Forall([]*Term{sv}, [][]*Term{{lv}}, And(Le(IntLit(0), lv), Le(lv, App("slen", SInt, sv)))))
	cp := NewConst("rcap", SInt)
	st.assume(And(Le(l, cp), Le(cp, BigLit(pow2(maxLenLog)))))
	return MkSlice(ref, IntLit(0), l, cp)
}

func isRune(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// ---- conversions ----

func (x *Exec) convert(st *State, v Val, to types.Type, n ast.Node) Val {
	from := v.Ty
	if v.T == nil && v.Clo == nil && v.Place == nil {
		return Val{T: zeroOf(to), Ty: to}
	}
	if _, isI := under(to).(*types.Interface); isI {
		return x.coerce(st, v, to)
	}
	if v.Clo != nil || v.Place != nil {
		v.Ty = to
		return v
	}
	fs, ts := v.T.S, sortOf(to)
	ub, _ := under(to).(*types.Basic)
	switch {
	case fs == SBV8 && ts == SBV8:
	case fs == SBV8 && ts == SInt:
		return Val{T: bvToInt(v.T), Ty: to}
	case fs == SInt && ts == SBV8:
		return Val{T: intToBV(v.T), Ty: to}
	case fs == SInt && ts == SInt && ub != nil:
		lo, hi, signed, w, ok := intRange(ub)
		if !ok {
			x.unsupported("conversion to %s", to)
		}
		var fb *types.Basic
		if from != nil {
			fb, _ = under(from).(*types.Basic)
		}
		if fb != nil {
			if flo, fhi, _, _, ok := intRange(fb); ok && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return Val{T: v.T, Ty: to}
			}
		}
		if v.T.num != nil && v.T.num.Cmp(lo) >= 0 && v.T.num.Cmp(hi) <= 0 {
			return Val{T: v.T, Ty: to}
		}
		r := NewConst("conv", SInt)
		st.assume(Implies(And(Le(BigLit(lo), v.T), Le(v.T, BigLit(hi))), Eq(r, v.T)))
		st.assume(And(Le(BigLit(lo), r), Le(r, BigLit(hi))))
		mod := Mod(v.T, BigLit(pow2(w)))
		if signed {
			st.assume(Eq(r, Ite(Le(mod, BigLit(hi)), mod, Sub(mod, BigLit(pow2(w))))))
		} else {
			st.assume(Eq(r, mod))
		}
		return Val{T: r, Ty: to}
	case fs == SInt && ts == SReal:
		return Val{T: mk("to_real", SReal, v.T), Ty: to}
	case fs == SReal && ts == SInt:
		r := NewConst("trunc", SInt)
		x.notes["float to integer conversion truncates the real number; unspecified when the result does not fit"] = true
		if ub != nil {
			if lo, hi, _, _, ok := intRange(ub); ok {
				st.assume(And(Le(BigLit(lo), r), Le(r, BigLit(hi))))
				zero := mk("0.0", SReal)
				tr := Ite(mk("<=", SBool, zero, v.T), mk("to_int", SInt, v.T), Neg(mk("to_int", SInt, mk("-", SReal, v.T))))
				st.assume(Implies(And(Le(BigLit(lo), tr), Le(tr, BigLit(hi))), Eq(r, tr)))
			}
		}
		return Val{T: r, Ty: to}
	case fs == SSl && ts == SStr:
		s, ok := under(from).(*types.Slice)
		if ok && isRune(s.Elem()) {
			x.assumeType(st, v.T, from)
			return Val{T: App("d$runeText", SStr, Select(x.get(st, memComp(s.Elem())), SlArr(v.T)), SlOff(v.T), SlLen(v.T)), Ty: to}
		}
		if !ok || sortOf(s.Elem()) != SBV8 {
			x.unsupported("conversion %s to %s", from, to)
		}
		x.assumeType(st, v.T, from)
		r := bytesStr(Select(x.get(st, memComp(s.Elem())), SlArr(v.T)), SlOff(v.T), SlLen(v.T))
		return Val{T: r, Ty: to}
	case fs == SStr && ts == SSl:
		s := under(to).(*types.Slice)
		if isRune(s.Elem()) {
			return Val{T: x.strRunes(st, v.T, s.Elem()), Ty: to}
		}
		if sortOf(s.Elem()) != SBV8 {
			x.unsupported("conversion %s to %s", from, to)
		}
		return Val{T: x.strBytes(st, v.T, s.Elem()), Ty: to}
	case fs == SInt && ts == SStr:
		return Val{T: App("d$runestr", SStr, v.T), Ty: to}
	case fs == ts:
		// same representation; pointers and slices keep their memory only when the component is the same
	default:
		x.unsupported("conversion from %s to %s at %s", from, to, x.pos(n))
	}
	return Val{T: v.T, Ty: to}
}

// ---- calls ----

type callee struct {
	fi        *FuncInfo
	std       *types.Func
	sub       TSubst
	recv      *Val
	recvPlace *Place
	iface     string
	dyn       *Val
	key       string
	sig       *types.Signature
}

func (x *Exec) evalCall(fr *Frame, st *State, n *ast.CallExpr) []SVs {
	if st.pan != nil {
		x.unsupported("a panic inside an expression at %s", x.pos(n))
	}
	fun := ast.Unparen(n.Fun)
	if tv, ok := fr.pkg.Info.Types[fun]; ok && tv.IsType() {
		ty := substT(tv.Type, fr.sub)
		var out []SVs
		for _, r := range x.eval(fr, st, n.Args[0]) {
			if r.v.Ty == nil {
				r.v.Ty = fr.typeOf(n.Args[0])
			}
			out = append(out, SVs{r.st, []Val{x.convert(r.st, r.v, ty, n)}})
		}
		return out
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := fr.pkg.Info.Uses[id].(*types.Builtin); ok {
			return x.builtin(fr, st, n, b.Name())
		}
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		if b, ok := fr.pkg.Info.Uses[sel.Sel].(*types.Builtin); ok {
			return x.builtin(fr, st, n, "unsafe."+b.Name())
		}
	}
	var out []SVs
	for _, c := range x.resolve(fr, st, fun, n) {
		args := x.evalArgs(fr, c.st, n, c.c)
		for _, a := range args {
			if a.st.dead() {
				continue
			}
			out = append(out, x.call(fr, a.st, c.c, a.vs, n)...)
		}
	}
	return out
}

type rc struct {
	st *State
	c  *callee
}

func baseIdent(e ast.Expr) *ast.Ident {
	switch n := ast.Unparen(e).(type) {
	case *ast.Ident:
		return n
	case *ast.SelectorExpr:
		return n.Sel
	case *ast.IndexExpr:
		return baseIdent(n.X)
	case *ast.IndexListExpr:
		return baseIdent(n.X)
	}
	return nil
}

func (x *Exec) resolve(fr *Frame, st *State, fun ast.Expr, n *ast.CallExpr) []rc {
	id := baseIdent(fun)
	core := ast.Unparen(fun)
	switch k := core.(type) {
	case *ast.IndexExpr:
		if tv, ok := fr.pkg.Info.Types[k.X]; ok {
			if _, isSig := tv.Type.(*types.Signature); isSig {
				core = ast.Unparen(k.X)
			}
		}
	case *ast.IndexListExpr:
		core = ast.Unparen(k.X)
	}
	if sel, ok := core.(*ast.SelectorExpr); ok {
		if s, ok := fr.pkg.Info.Selections[sel]; ok && s.Kind() == types.MethodVal {
			return x.resolveMethod(fr, st, sel, s)
		}
	}
	_, isSel := core.(*ast.SelectorExpr)
	_, isId := core.(*ast.Ident)
	if id != nil && (isSel || isId) {
		if f, ok := fr.pkg.Info.ObjectOf(id).(*types.Func); ok {
			v := x.funcVal(fr, f, id)
			c := &callee{fi: v.Clo.Fn, std: v.Clo.Std, sub: v.Clo.Sub, key: funcKey(f), sig: substT(f.Type(), nil).(*types.Signature)}
			return []rc{{st, c}}
		}
	}
	var out []rc
	for _, r := range x.eval(fr, st, fun) {
		v := r.v
		if v.Ty == nil {
			v.Ty = fr.typeOf(fun)
		}
		out = append(out, rc{r.st, &callee{dyn: &v, sig: under(fr.typeOf(fun)).(*types.Signature)}})
	}
	return out
}

func (x *Exec) resolveMethod(fr *Frame, st *State, sel *ast.SelectorExpr, s *types.Selection) []rc {
	f := s.Obj().(*types.Func)
	idx := s.Index()
	sig := f.Type().(*types.Signature)
	var out []rc
	rt := fr.typeOf(sel.X)
	// interface receiver: dynamic dispatch
	if _, isI := under(rt).(*types.Interface); isI && len(idx) == 1 {
		if _, tp := types.Unalias(rt).(*types.TypeParam); !tp {
			for _, r := range x.eval(fr, st, sel.X) {
				v := r.v
				key := ifaceKey(rt) + "." + f.Name()
				x.check(r.st, Not(Eq(v.T, zeroOf(rt))), "nil", "no nil interface call: "+x.src(sel), sel, nil)
				out = append(out, rc{r.st, &callee{iface: key, key: key, recv: &v, sig: substT(sig, fr.sub).(*types.Signature)}})
			}
			return out
		}
	}
	// receiver place or pointer after following embedded fields
	type rp struct {
		st *State
		v  *Val
		p  *Place
		ty types.Type
	}
	var cur []rp
	_, isPtr := under(rt).(*types.Pointer)
	wantPtr := false
	if rv := sig.Recv(); rv != nil {
		_, wantPtr = rv.Type().(*types.Pointer)
	}
	if isPtr {
		for _, r := range x.eval(fr, st, sel.X) {
			v := r.v
			cur = append(cur, rp{r.st, &v, nil, rt})
		}
	} else if len(idx) > 1 || wantPtr {
		for _, p := range x.place(fr, st, sel.X) {
			cur = append(cur, rp{p.st, nil, p.p, rt})
		}
	} else {
		for _, r := range x.eval(fr, st, sel.X) {
			v := r.v
			cur = append(cur, rp{r.st, &v, nil, rt})
		}
	}
	for _, ix := range idx[:len(idx)-1] {
		var nx []rp
		for _, c := range cur {
			p := c.p
			ty := c.ty
			if pt, ok := under(ty).(*types.Pointer); ok {
				var v Val
				if c.v != nil {
					v = *c.v
				} else {
					v = x.load(c.st, c.p)
				}
				p = x.derefPlace(c.st, v, ty, sel)
				ty = pt.Elem()
			}
			su, ok := under(ty).(*types.Struct)
			if !ok {
				x.unsupported("embedded path in %s", ty)
			}
			fl := su.Field(ix)
			if p == nil {
				x.unsupported("embedded field of a value")
			}
			if p.kind == "obj" {
				p = x.fieldOf(c.st, p.ref, ty, fl)
			} else {
				p = &Place{kind: "dt", base: p, fi: ix, Ty: fl.Type()}
			}
			nx = append(nx, rp{c.st, nil, p, fl.Type()})
		}
		cur = nx
	}
	for _, c := range cur {
		fi := x.pr.Funcs[f.Origin()]
		ty := c.ty
		cl := &callee{fi: fi, key: funcKey(f), sig: sig}
		if fi == nil {
			cl.std = f
		}
		if _, isI := under(ty).(*types.Interface); isI {
			if _, tp := types.Unalias(ty).(*types.TypeParam); !tp {
				v := x.load(c.st, c.p)
				key := ifaceKey(ty) + "." + f.Name()
				out = append(out, rc{c.st, &callee{iface: key, key: key, recv: &v, sig: substT(sig, fr.sub).(*types.Signature)}})
				continue
			}
		}
		_, ptr := under(ty).(*types.Pointer)
		var rv Val
		switch {
		case wantPtr && ptr:
			if c.v != nil {
				rv = *c.v
			} else {
				rv = x.load(c.st, c.p)
			}
			if fi == nil && rv.Place != nil {
				cl.recvPlace = rv.Place
			}
		case wantPtr:
			switch {
			case c.p != nil && (c.p.kind == "obj" || c.p.kind == "cell"):
				rv = Val{T: c.p.ref, Ty: types.NewPointer(ty)}
			case c.p != nil && fi != nil:
				rv = Val{Place: c.p, Ty: types.NewPointer(ty)}
			case c.p != nil:
				cl.recvPlace = c.p
				rv = Val{Place: c.p, Ty: types.NewPointer(ty)}
			default:
				x.unsupported("method %s on a value", f.Name())
			}
		case ptr:
			var pv Val
			if c.v != nil {
				pv = *c.v
			} else {
				pv = x.load(c.st, c.p)
			}
			rv = x.load(c.st, x.derefPlace(c.st, pv, ty, sel))
		default:
			if c.v != nil {
				rv = *c.v
			} else {
				rv = x.load(c.st, c.p)
			}
		}
		if rv.Ty == nil {
			rv.Ty = ty
		}
		cl.recv = &rv
		if fi != nil {
			cl.sub = x.recvSubst(fi, ty)
		} else {
			cl.sub = stdRecvSubst(f, ty)
		}
		out = append(out, rc{c.st, cl})
	}
	return out
}

func stdRecvSubst(f *types.Func, rt types.Type) TSubst {
	sub := TSubst{}
	rt = types.Unalias(rt)
	if p, ok := rt.(*types.Pointer); ok {
		rt = types.Unalias(p.Elem())
	}
	sig := f.Origin().Type().(*types.Signature)
	if n, ok := rt.(*types.Named); ok && sig.RecvTypeParams() != nil {
		for i := 0; i < sig.RecvTypeParams().Len(); i++ {
			if n.TypeArgs().Len() > i {
				sub[sig.RecvTypeParams().At(i)] = n.TypeArgs().At(i)
			}
		}
	}
	return sub
}

func ifaceKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return pkgShort(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return tkey(t)
}

// evalArgs evaluates call arguments, packing a variadic tail.
func (x *Exec) evalArgs(fr *Frame, st *State, n *ast.CallExpr, c *callee) []SVs {
	// f(g()) with a multi-value g
	if len(n.Args) == 1 {
		if tup, ok := fr.pkg.Info.TypeOf(n.Args[0]).(*types.Tuple); ok && tup.Len() > 1 {
			return x.evalCall(fr, st, ast.Unparen(n.Args[0]).(*ast.CallExpr))
		}
	}
	sig := c.sig
	np := sig.Params().Len()
	if !sig.Variadic() || n.Ellipsis.IsValid() {
		return x.fixTypes(fr, n.Args, x.evalN(fr, st, n.Args))
	}
	var out []SVs
	for _, r := range x.fixTypes(fr, n.Args, x.evalN(fr, st, n.Args)) {
		fixed := append([]Val(nil), r.vs[:np-1]...)
		rest := r.vs[np-1:]
		vt := substT(substT(sig.Params().At(np-1).Type(), c.sub), fr.sub)
		elem := vt.(*types.Slice).Elem()
		var sl *Term
		if len(rest) == 0 {
			sl = zeroOf(vt)
		} else {
			cts := zeroArr(Arr(SInt, sortOf(elem)), zeroOf(elem))
			ref := x.newObj(r.st, "va")
			for i, v := range rest {
				cts = Store(cts, IntLit(int64(i)), x.termOf(x.coerce(r.st, v, elem)))
			}
			m := memComp(elem)
			x.put(r.st, m, ref, Store(x.get(r.st, m), ref, cts))
			l := IntLit(int64(len(rest)))
			sl = MkSlice(ref, IntLit(0), l, l)
		}
		out = append(out, SVs{r.st, append(fixed, Val{T: sl, Ty: vt})})
	}
	return out
}

func (x *Exec) fixTypes(fr *Frame, es []ast.Expr, rs []SVs) []SVs {
	for _, r := range rs {
		for i := range r.vs {
			if r.vs[i].Ty == nil && i < len(es) {
				r.vs[i].Ty = fr.typeOf(es[i])
			}
		}
	}
	return rs
}

const maxDepth = 14

func (x *Exec) call(fr *Frame, st *State, c *callee, args []Val, n *ast.CallExpr) []SVs {
	if c.dyn != nil {
		v := c.dyn
		if v.Clo != nil {
			if id := baseIdent(n.Fun); id != nil && x.threads() {
				x.hooks(fr, st, id.Name, n, argVars(args, c.sig), "")
			}
			return x.callClosure(fr, st, v.Clo, args, n)
		}
		if x.threads() {
			if q := x.cloTerms[v.T]; v.T != nil && q != nil {
				return x.callClosure(fr, st, q, args, n)
			}
			x.callFr = fr
		}
		return x.callDyn(st, v, args, c.sig, n)
	}
	if c.iface != "" {
		if sp := x.set.Funcs[c.iface]; sp != nil {
			return x.contractCall(fr, st, sp, nil, c, args, n)
		}
		return x.callIface(st, c, args, n)
	}
	if c.fi != nil {
		return x.callFunc(fr, st, c, args, n)
	}
	return x.callStd(fr, st, c, args, n)
}

func (x *Exec) callFunc(fr *Frame, st *State, c *callee, args []Val, n *ast.CallExpr) []SVs {
	fi := c.fi
	sp := x.set.Funcs[fi.Key]
	hasClo := c.recv != nil && c.recv.Place != nil
	for _, a := range args {
		if a.Clo != nil || a.Place != nil {
			hasClo = true
		}
	}
	if sp != nil && !sp.Inline && (!hasClo || x.threads() && (c.recv == nil || c.recv.Place == nil) || fi.Decl.Body == nil || x.inlining[fi.Key] > 0 || fi.Key == x.rootKey) && !x.spec.Opt["inline_"+funcName(fi.Obj)] {
		return x.contractCall(fr, st, sp, fi, c, args, n)
	}
	if fi.Decl.Body == nil {
		x.unsupported("call of %s (no body, no contract)", fi.Key)
	}
	if fi.Key == x.rootKey || x.inlining[fi.Key] > 0 {
		x.unsupported("recursive call of %s without a contract", fi.Key)
	}
	if x.threads() {
		x.hooks(fr, st, funcName(fi.Obj), n, argVars(args, c.sig), "")
	}
	return x.inlineFunc(fr, st, fi, c.sub, c.recv, args, n)
}

// argVars gives the arguments of a call the names arg0, arg1, …
func argVars(args []Val, sig *types.Signature) map[string]SVal {
	m := map[string]SVal{}
	for i, a := range args {
		if a.T != nil || a.Clo != nil {
			ty := a.Ty
			if sig != nil && i < sig.Params().Len() {
				ty = sig.Params().At(i).Type()
			}
			m[fmt.Sprintf("arg%d", i)] = SVal{T: a.T, Clo: a.Clo, Ty: ty}
		}
	}
	return m
}

func (x *Exec) inlineFunc(fr *Frame, st *State, fi *FuncInfo, sub TSubst, recv *Val, args []Val, n ast.Node) []SVs {
	if fr.depth > maxDepth {
		x.unsupported("inlining too deep at %s", fi.Key)
	}
	x.inlined[fi.Key] = true
	x.inlining[fi.Key]++
	defer func() { x.inlining[fi.Key]-- }()
	s2 := TSubst{}
	for k, v := range sub {
		s2[k] = substT(v, fr.sub)
	}
	nf := &Frame{fn: fi, pkg: fi.Pkg, sub: s2, up: fr, sig: fi.Obj.Type().(*types.Signature), body: fi.Decl.Body, depth: fr.depth + 1, spec: x.set.Funcs[fi.Key]}
	nf.path = fr.path + "/" + fi.Key
	if n != nil {
		nf.callPos = n.Pos()
		nf.path += fmt.Sprintf("@%d", n.Pos())
	}
	nf.boxed = x.boxedVars(fi.Pkg, fi.Decl)
	if call, ok := n.(*ast.CallExpr); ok {
		nf.argOf = passedVars(fr, fi, call)
	}
	if len(fr.body.List) == 1 && fr.def == nil {
		fr.tail = nf
	}
	x.bindParams(nf, st, fi.Decl.Recv, recv, fi.Decl.Type, args)
	return x.runBody(nf, st)
}

// passedVars: the parameters whose arguments are variables of the caller.
func passedVars(fr *Frame, fi *FuncInfo, call *ast.CallExpr) map[*types.Var]*types.Var {
	out := map[*types.Var]*types.Var{}
	set := func(id *ast.Ident, a ast.Expr) {
		p, ok := fi.Pkg.Info.Defs[id].(*types.Var)
		if !ok {
			return
		}
		if ai, ok := ast.Unparen(a).(*ast.Ident); ok {
			if v, ok := fr.pkg.Info.Uses[ai].(*types.Var); ok {
				out[v] = p
			}
		}
	}
	if r := fi.Decl.Recv; r != nil && len(r.List) == 1 && len(r.List[0].Names) == 1 {
		if s, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr); ok {
			set(r.List[0].Names[0], s.X)
		}
	}
	i := 0
	for _, f := range fi.Decl.Type.Params.List {
		for _, id := range f.Names {
			if _, ok := f.Type.(*ast.Ellipsis); ok && !call.Ellipsis.IsValid() {
				return out
			}
			if i < len(call.Args) {
				set(id, call.Args[i])
			}
			i++
		}
	}
	return out
}

func (x *Exec) callClosure(fr *Frame, st *State, c *Closure, args []Val, n *ast.CallExpr) []SVs {
	if c.Fn != nil {
		return x.callFunc(fr, st, &callee{fi: c.Fn, sub: c.Sub, recv: c.Recv, key: c.Fn.Key, sig: c.Fn.Obj.Type().(*types.Signature)}, args, n)
	}
	if c.Std != nil {
		return x.callStd(fr, st, &callee{std: c.Std, sub: c.Sub, recv: c.Recv, key: funcKey(c.Std), sig: c.Std.Type().(*types.Signature)}, args, n)
	}
	if sp := x.cloSpec[c.Lit]; sp != nil {
		return x.callLocal(fr, st, c, sp, args, n)
	}
	return x.runClosure(fr, st, c, args, n)
}

func (x *Exec) runClosure(fr *Frame, st *State, c *Closure, args []Val, n *ast.CallExpr) []SVs {
	if fr.depth > maxDepth {
		x.unsupported("inlining too deep in closure")
	}
	nf := &Frame{fn: c.Fr.fn, pkg: c.Fr.pkg, sub: c.Fr.sub, up: fr, def: c.Fr, body: c.Lit.Body, depth: fr.depth + 1}
	nf.sig = nf.pkg.Info.TypeOf(c.Lit).(*types.Signature)
	nf.path = c.Fr.path + fmt.Sprintf("/lit@%d", c.Lit.Pos())
	if n != nil {
		nf.callPos = n.Pos()
	}
	nf.boxed = map[*types.Var]bool{}
	x.bindParams(nf, st, nil, nil, c.Lit.Type, args)
	return x.runBody(nf, st)
}

func (x *Exec) bindParams(nf *Frame, st *State, recvList *ast.FieldList, recv *Val, ft *ast.FuncType, args []Val) {
	bind := func(v *types.Var, a Val) {
		ty := nf.varType(v)
		a = x.coerce(st, a, ty)
		x.declare(nf, st, v, a)
	}
	if recvList != nil && len(recvList.List) > 0 && len(recvList.List[0].Names) > 0 && recv != nil {
		if v, ok := nf.pkg.Info.Defs[recvList.List[0].Names[0]].(*types.Var); ok {
			bind(v, *recv)
		}
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, nm := range f.Names {
			if v, ok := nf.pkg.Info.Defs[nm].(*types.Var); ok {
				bind(v, args[i])
			}
			i++
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, nm := range f.Names {
				if v, ok := nf.pkg.Info.Defs[nm].(*types.Var); ok {
					x.declare(nf, st, v, Val{T: zeroOf(nf.varType(v)), Ty: nf.varType(v)})
					nf.results = append(nf.results, v)
				}
			}
		}
	}
}

// declare introduces a local variable.
func (x *Exec) declare(fr *Frame, st *State, v *types.Var, a Val) {
	ty := fr.varType(v)
	if x.isBoxed(fr, v) {
		var ref *Term
		if _, ok := isStructVal(ty); ok {
			ref = x.newStruct(st, ty, a.T)
		} else {
			ref = x.newObj(st, "box_"+v.Name())
			c := cellComp(ty)
			x.put(st, c, ref, Store(x.get(st, c), ref, x.termOf(a)))
		}
		st.locals[v] = Val{T: ref, Ty: types.NewPointer(ty)}
		return
	}
	if a.T == nil && a.Clo == nil && a.Place == nil {
		a.T = zeroOf(ty)
	}
	a.Ty = ty
	st.locals[v] = a
	if x.rec != nil {
		x.rec.local(v)
	}
}

// runBody executes a function body and its deferred calls.
func (x *Exec) runBody(nf *Frame, st *State) []SVs {
	mark := len(st.defers)
	pend := x.startPending(nf, st)
	th := x.threads()
	lvl := len(st.unw)
	if th {
		st.unw = append(append([]*Term(nil), st.unw...), nil)
	}
	outs := x.block(nf, []*State{st}, nf.body.List)
	var res []SVs
	for _, o := range outs {
		if o.st.dead() {
			continue
		}
		if o.kind != "next" && o.kind != "return" && o.kind != "panic" {
			x.unsupported("%s escapes a function", o.kind)
		}
		s := o.st
		if s.pan != nil {
			s.unw[lvl], s.pan = s.pan, nil
			o.kind, o.vals = "panic", nil
		}
		if len(pend) > 0 {
			x.releasePending(pend, s, nf.body)
		}
		vals := o.vals
		nres := nf.sig.Results().Len()
		if o.kind == "next" && nres > 0 {
			if len(nf.results) == nres {
				vals = x.namedResults(nf, s)
			} else {
				// falls off the end of a function with results: unreachable (after panic)
				continue
			}
		}
		// deferred calls run last in, first out; named results are read afterwards
		ran := false
		sts := []*State{s}
		for len(s.defers) > mark {
			d := s.defers[len(s.defers)-1]
			rest := s.defers[:len(s.defers)-1]
			var nx []*State
			for _, q := range sts {
				if !ran && o.kind != "panic" && len(nf.results) == nres && nres > 0 {
					for i, rv := range nf.results {
						x.setVar(nf, q, rv, vals[i])
					}
				}
				q.defers = append([]deferred(nil), rest...)
				for _, r := range x.runDeferred(nf, q, d) {
					if r.pan != nil { // a panic of a deferred call replaces the other
						r.unw = append([]*Term(nil), r.unw...)
						r.unw[lvl], r.pan = r.pan, nil
					}
					nx = append(nx, r)
				}
			}
			ran = true
			sts = nx
			if len(sts) == 0 {
				break
			}
			s = sts[0]
		}
		for _, q := range sts {
			q.defers = q.defers[:mark]
			vs := vals
			if th {
				p := q.unw[lvl]
				q.unw = append([]*Term(nil), q.unw[:lvl]...)
				q.pan = p
				if o.kind == "panic" && !(len(nf.results) == nres && nres > 0) {
					vs = nil
					for i := 0; i < nres; i++ {
						ty := substT(nf.sig.Results().At(i).Type(), nf.sub)
						vs = append(vs, Val{T: zeroOf(ty), Ty: ty})
					}
				}
			}
			if (ran || o.kind == "panic") && len(nf.results) == nres && nres > 0 {
				vs = x.namedResults(nf, q)
			}
			res = append(res, SVs{q, vs})
		}
	}
	return res
}

func (x *Exec) setVar(fr *Frame, st *State, v *types.Var, a Val) {
	cur := st.locals[v]
	if x.isBoxed(fr, v) {
		x.store(st, x.boxPlace(cur, fr.varType(v)), a)
		return
	}
	x.store(st, &Place{kind: "var", v: v, Ty: fr.varType(v)}, a)
}

func (x *Exec) namedResults(nf *Frame, st *State) []Val {
	var out []Val
	for _, v := range nf.results {
		out = append(out, x.readVar(nf, st, v))
	}
	return out
}

func (x *Exec) runDeferred(nf *Frame, st *State, d deferred) []*State {
	var out []*State
	if d.fn != nil {
		for _, r := range x.callClosure(d.fr, st, d.fn.Clo, d.args, d.call) {
			out = append(out, r.st)
		}
		return out
	}
	if d.c != nil { // function and arguments evaluated at the defer statement
		for _, r := range x.call(d.fr, st, d.c, d.args, d.call) {
			out = append(out, r.st)
		}
		return out
	}
	if len(d.args) > 0 { // close(ch), the channel evaluated at the defer statement
		if x.threads() {
			x.thClose(d.fr, st, d.args[0], d.call)
		} else {
			x.closeChan(st, d.call, d.args[0])
		}
		return []*State{st}
	}
	for _, r := range x.evalCall(d.fr, st, d.call) {
		out = append(out, r.st)
	}
	return out
}

func sigKey(sig *types.Signature) string {
	return sanitize(tkey(sig))
}

// callDyn applies an unknown function value: the same arguments give the same result.
func (x *Exec) callDyn(st *State, f *Val, args []Val, sig *types.Signature, n *ast.CallExpr) []SVs {
	if f.T == nil {
		x.unsupported("call of nil function")
	}
	x.check(st, Not(Eq(f.T, zeroOf(sig))), "nil", "function value is not nil: "+x.src(n.Fun), n, nil)
	ts := []*Term{f.T}
	for i, a := range args {
		pt := sig.Params().At(i).Type()
		ts = append(ts, x.termOf(x.coerce(st, a, pt)))
	}
	if x.threads() {
		return x.threadDyn(st, f, ts, args, sig, n)
	}
	if x.rootSpecOpt("trace") {
		x.trace(st, ts)
	}
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := App(appName(sig, i), sortOf(rt), ts...)
		x.assumeType(st, r, rt)
		vs = append(vs, Val{T: r, Ty: rt})
	}
	if sig.Results().Len() == 0 && !x.rootSpecOpt("trace") {
		x.notes["callback without result assumed not to change the data structure"] = true
	}
	return []SVs{{st, vs}}
}

func appName(sig *types.Signature, i int) string {
	var ps []string
	for k := 0; k < sig.Params().Len(); k++ {
		ps = append(ps, string(sortOf(sig.Params().At(k).Type())))
	}
	rt := string(sortOf(sig.Results().At(i).Type()))
	return sanitize(fmt.Sprintf("app$%s$%s$%d", strings.Join(ps, ","), rt, i))
}

// threadDyn: an unknown function called by a thread; it may panic, its results are arbitrary, and it may change what a pointer
// argument points to.
func (x *Exec) threadDyn(st *State, f *Val, ts []*Term, args []Val, sig *types.Signature, n *ast.CallExpr) []SVs {
	extra := map[string]SVal{}
	for i, a := range args {
		if a.T != nil || a.Clo != nil {
			pt := sig.Params().At(i).Type()
			if a.T != nil {
				a = x.coerce(st, a, pt)
			}
			extra[fmt.Sprintf("arg%d", i)] = SVal{T: a.T, Clo: a.Clo, Ty: pt}
		}
	}
	if id := baseIdent(n.Fun); id != nil {
		x.hooks(x.callFr, st, id.Name, n, extra, "")
	}
	x.interfere(x.callFr, st)
	x.trace(st, ts)
	for i, a := range args {
		pt, ok := under(sig.Params().At(i).Type()).(*types.Pointer)
		if !ok {
			continue
		}
		if s, ok := under(pt.Elem()).(*types.Struct); ok {
			for k := 0; k < s.NumFields(); k++ {
				c := fieldComp(pt.Elem(), s.Field(k))
				x.put(st, c, a.T, Store(x.get(st, c), a.T, NewConst("by$"+s.Field(k).Name(), arrElem(c.s))))
			}
		}
	}
	if x.spec != nil {
		for _, r := range x.spec.Rely {
			st.assume(x.specBool(x.envFor(x.callFr, st), r.E))
		}
	}
	var p *State
	if !x.rootSpecOpt("calm") { // calm: assumed not to panic
		p = x.mayPanic(st)
	}
	var vs, zs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := NewConst("dyn", sortOf(rt))
		x.assumeType(st, r, rt)
		if rt == types.Universe.Lookup("error").Type() {
			x.put(st, thLastErr(), nil, r)
		}
		vs = append(vs, Val{T: r, Ty: rt})
		zs = append(zs, Val{T: zeroOf(rt), Ty: rt})
	}
	if p == nil {
		return []SVs{{st, vs}}
	}
	return []SVs{{st, vs}, {p, zs}}
}

// trace records an effectful call of a function value: calls(f) counts, callarg(f, i) is the first argument of call i.
func (x *Exec) trace(st *State, ts []*Term) {
	nc := comp("T|n", Arr(SFn, SInt), TMath, 't')
	n := x.get(st, nc)
	k := Select(n, ts[0])
	for i, a := range ts[1:] {
		c := comp(fmt.Sprintf("T|arg%d|%s", i, a.S), Arr(SFn, Arr(SInt, a.S)), nil, 't')
		m := x.get(st, c)
		x.put(st, c, ts[0], Store(m, ts[0], Store(Select(m, ts[0]), k, a)))
	}
	x.put(st, nc, ts[0], Store(n, ts[0], Add(k, IntLit(1))))
}

// callIface: a method of an interface value without a contract: a function of receiver and arguments.
func (x *Exec) callIface(st *State, c *callee, args []Val, n *ast.CallExpr) []SVs {
	x.notes["interface method "+c.iface+" assumed to be a function of receiver and arguments without side effects"] = true
	ts := []*Term{c.recv.T}
	for i, a := range args {
		ts = append(ts, x.termOf(x.coerce(st, a, c.sig.Params().At(i).Type())))
	}
	var vs []Val
	for i := 0; i < c.sig.Results().Len(); i++ {
		rt := c.sig.Results().At(i).Type()
		r := App(fmt.Sprintf("meth$%s$%d", c.iface, i), sortOf(rt), ts...)
		x.assumeType(st, r, rt)
		vs = append(vs, Val{T: r, Ty: rt})
	}
	return []SVs{{st, vs}}
}

// ---- standard library ----

func (x *Exec) callStd(fr *Frame, st *State, c *callee, args []Val, n *ast.CallExpr) []SVs {
	if r, ok := x.stdBuiltin(fr, st, c, args, n); ok {
		return r
	}
	if sp := x.set.Funcs[c.key]; sp != nil {
		return x.contractCall(fr, st, sp, nil, c, args, n)
	}
	x.unsupported("call of %s (no contract) at %s", c.key, x.pos(n))
	return nil
}

func (x *Exec) stdBuiltin(fr *Frame, st *State, c *callee, args []Val, n *ast.CallExpr) ([]SVs, bool) {
	pkg := ""
	if c.std.Pkg() != nil {
		pkg = c.std.Pkg().Path()
	}
	name := c.std.Name()
	if pkg == "sync" && c.recv != nil {
		var p *Place
		if c.recvPlace != nil {
			p = c.recvPlace
		} else if c.recv.Place != nil {
			p = c.recv.Place
		}
		switch name {
		case "Lock", "Unlock", "RLock", "RUnlock":
			if p == nil {
				x.unsupported("mutex is not a field at %s", x.pos(n))
			}
			x.mutexOp(st, p, name, n)
			return []SVs{{st, nil}}, true
		}
	}
	if x.threads() && (pkg == "sync" || pkg == "sync/atomic") {
		rv := ""
		if r := c.std.Type().(*types.Signature).Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if nm, ok := t.(*types.Named); ok {
				rv = nm.Obj().Name()
			}
		}
		if r, ok := x.threadLib(fr, st, pkg, name, rv, c, args, n); ok {
			return r, true
		}
	}
	if pkg == "encoding/json" && c.recv == nil {
		if r, ok := x.jsonCall(fr, st, name, args, n); ok {
			return r, true
		}
	}
	if pkg == "sync/atomic" && c.recv != nil {
		p := c.recvPlace
		if p == nil {
			p = c.recv.Place
		}
		if p == nil {
			x.unsupported("atomic is not a field at %s", x.pos(n))
		}
		et, ok := atomicElem(p.Ty)
		if !ok {
			x.unsupported("atomic %s", p.Ty)
		}
		cur := x.load(st, p)
		x.assumeType(st, cur.T, et)
		switch name {
		case "Load":
			return []SVs{{st, []Val{{T: cur.T, Ty: et}}}}, true
		case "Store":
			if nt, ok := types.Unalias(p.Ty).(*types.Named); ok && nt.Obj().Name() == "Value" {
				// nil and values of a second concrete type make Store panic
				v := x.termOf(x.coerce(st, args[0], et))
				nl := zeroOf(et)
				dt := func(a *Term) *Term { return App("dynType", SInt, a) }
				x.check(st, And(Not(Eq(v, nl)), Or(Eq(cur.T, nl), Eq(dt(cur.T), dt(v)))), "type-assertion", "atomic.Value.Store accepts the value (not nil, same concrete type as before): "+x.src(n), n, nil)
			}
			x.store(st, p, Val{T: x.termOf(x.coerce(st, args[0], et)), Ty: p.Ty})
			return []SVs{{st, nil}}, true
		case "Swap":
			x.store(st, p, Val{T: x.termOf(x.coerce(st, args[0], et)), Ty: p.Ty})
			return []SVs{{st, []Val{{T: cur.T, Ty: et}}}}, true
		case "CompareAndSwap":
			old := x.termOf(x.coerce(st, args[0], et))
			nw := x.termOf(x.coerce(st, args[1], et))
			ok := Eq(cur.T, old)
			s2 := st.clone()
			st.assume(ok)
			x.store(st, p, Val{T: nw, Ty: p.Ty})
			s2.assume(Not(ok))
			x.notes["sync/atomic operations are modelled by their sequential effect"] = true
			var out []SVs
			if !st.dead() {
				out = append(out, SVs{st, []Val{{T: True, Ty: TBool}}})
			}
			if !s2.dead() {
				out = append(out, SVs{s2, []Val{{T: False, Ty: TBool}}})
			}
			return out, true
		case "Add":
			nw := x.wrapMod(st, Add(cur.T, args[0].T), et)
			x.store(st, p, Val{T: nw, Ty: p.Ty})
			return []SVs{{st, []Val{{T: nw, Ty: et}}}}, true
		}
	}
	if pkg == "sort" && name == "Sort" || pkg == "errors" && name == "As" {
		return nil, false
	}
	return nil, false
}

func (x *Exec) wrapMod(st *State, t *Term, ty types.Type) *Term {
	b := under(ty).(*types.Basic)
	lo, hi, _, _, _ := intRange(b)
	r := NewConst("w", SInt)
	st.assume(Implies(And(Le(BigLit(lo), t), Le(t, BigLit(hi))), Eq(r, t)))
	st.assume(And(Le(BigLit(lo), r), Le(r, BigLit(hi))))
	return r
}

// mutexOp: the field holds 0 (free), -1 (locked) or the number of read locks this goroutine holds.
func (x *Exec) mutexOp(st *State, p *Place, name string, n ast.Node) {
	cur := x.load(st, p).T
	var nw *Term
	tags := []string{"C22"}
	switch name {
	case "Lock":
		x.check(st, Eq(cur, IntLit(0)), "lock", "mutex is not already held by this operation: "+x.src(n), n, tags)
		nw = IntLit(-1)
	case "Unlock":
		x.check(st, Eq(cur, IntLit(-1)), "lock", "mutex is held when unlocked: "+x.src(n), n, tags)
		nw = IntLit(0)
	case "RLock":
		x.check(st, Le(IntLit(0), cur), "lock", "mutex is not write-locked by this operation: "+x.src(n), n, tags)
		nw = Add(cur, IntLit(1))
	case "RUnlock":
		x.check(st, Lt(IntLit(0), cur), "lock", "mutex is read-locked when released: "+x.src(n), n, tags)
		nw = Sub(cur, IntLit(1))
	}
	// two-phase locking: a lock taken after another was released makes the operation non-atomic
	sc := comp("$sections", SInt, TMath, 's')
	cnt := x.get(st, sc)
	if name == "Lock" || name == "RLock" {
		if x.rootSpecOpt("onesection") {
			x.check(st, Or(Lt(IntLit(0), cur), Eq(cnt, IntLit(0))), "atomicity", "the operation is one critical section", n, tags)
		}
	} else {
		x.put(st, sc, nil, Ite(Eq(nw, IntLit(0)), IntLit(1), cnt))
	}
	x.store(st, p, Val{T: nw, Ty: p.Ty})
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, n *ast.CallExpr, name string) []SVs {
	ret := func(s *State, t *Term, ty types.Type) []SVs { return []SVs{{s, []Val{{T: t, Ty: ty}}}} }
	switch name {
	case "make":
		ty := fr.typeOf(n.Args[0])
		var out []SVs
		for _, r := range x.evalN(fr, st, n.Args[1:]) {
			switch u := under(ty).(type) {
			case *types.Slice:
				l := x.toInt(r.vs[0].T)
				cp := l
				if len(r.vs) > 1 {
					cp = x.toInt(r.vs[1].T)
				}
				x.check(r.st, And(Le(IntLit(0), l), Le(l, cp)), "make", "make length and capacity valid: "+x.src(n), n, nil)
				x.notes["allocation of memory succeeds; slices, maps and strings have at most 2^48 elements"] = true
				r.st.assume(Le(cp, BigLit(pow2(maxLenLog))))
				ref := x.newObj(r.st, "make")
				m := memComp(u.Elem())
				x.put(r.st, m, ref, Store(x.get(r.st, m), ref, zeroArr(Arr(SInt, sortOf(u.Elem())), zeroOf(u.Elem()))))
				out = append(out, ret(r.st, MkSlice(ref, IntLit(0), l, cp), ty)...)
			case *types.Map:
				out = append(out, ret(r.st, x.newMap(r.st, u), ty)...)
			case *types.Chan:
				cp := IntLit(0)
				if len(r.vs) > 0 {
					cp = x.toInt(r.vs[0].T)
				}
				x.check(r.st, Le(IntLit(0), cp), "make", "make capacity valid: "+x.src(n), n, nil)
				ref := x.newObj(r.st, "chan")
				for _, c := range []*compInfo{chanLen(u), chanClosed(u)} {
					x.put(r.st, c, ref, Store(x.get(r.st, c), ref, IntLit(0)))
				}
				cc := chanCap(u)
				x.put(r.st, cc, ref, Store(x.get(r.st, cc), ref, cp))
				out = append(out, ret(r.st, ref, ty)...)
			default:
				x.unsupported("make of %s", ty)
			}
		}
		return out
	case "new":
		ty := fr.typeOf(n.Args[0])
		if _, ok := isStructVal(ty); ok {
			if sortOf(ty) != "Unit" {
				return ret(st, x.newStruct(st, ty, zeroOf(ty)), types.NewPointer(ty))
			}
		}
		ref := x.newObj(st, "new")
		c := cellComp(ty)
		x.put(st, c, ref, Store(x.get(st, c), ref, zeroOf(ty)))
		return ret(st, ref, types.NewPointer(ty))
	case "len", "cap":
		var out []SVs
		for _, r := range x.eval(fr, st, n.Args[0]) {
			t := r.v.T
			ty := fr.typeOf(n.Args[0])
			x.assumeType(r.st, t, ty)
			switch u := under(ty).(type) {
			case *types.Slice:
				if name == "len" {
					out = append(out, ret(r.st, SlLen(t), TInt)...)
				} else {
					out = append(out, ret(r.st, SlCap(t), TInt)...)
				}
			case *types.Map:
				out = append(out, ret(r.st, Select(x.get(r.st, mapCard(u)), t), TInt)...)
			case *types.Array:
				out = append(out, ret(r.st, IntLit(u.Len()), TInt)...)
			case *types.Basic:
				r.st.assume(And(strFacts(t)...))
				out = append(out, ret(r.st, App("slen", SInt, t), TInt)...)
			case *types.Pointer:
				out = append(out, ret(r.st, IntLit(under(u.Elem()).(*types.Array).Len()), TInt)...)
			default:
				x.unsupported("%s of %s", name, ty)
			}
		}
		return out
	case "append":
		return x.builtinAppend(fr, st, n)
	case "copy":
		return x.builtinCopy(fr, st, n)
	case "delete":
		var out []SVs
		for _, r := range x.evalN(fr, st, n.Args) {
			m := under(fr.typeOf(n.Args[0])).(*types.Map)
			x.assumeType(r.st, r.vs[0].T, m)
			x.mapDelete(r.st, m, r.vs[0].T, x.coerce(r.st, r.vs[1], m.Key()).T)
			out = append(out, SVs{r.st, nil})
		}
		return out
	case "close":
		var out []SVs
		for _, r := range x.evalN(fr, st, n.Args) {
			if x.threads() {
				x.thClose(fr, r.st, r.vs[0], n)
			} else {
				x.closeChan(r.st, n, r.vs[0])
			}
			out = append(out, SVs{r.st, nil})
		}
		return out
	case "panic":
		var out []SVs
		for _, r := range x.eval(fr, st, n.Args[0]) {
			if x.threads() {
				v := x.coerce(r.st, r.v, fr.typeOf(n.Args[0]))
				t := x.termOf(x.coerce(r.st, v, types.NewInterfaceType(nil, nil)))
				x.raise(r.st, t)
				out = append(out, SVs{r.st, nil})
				continue
			}
			x.panicAt(r.st, n, "explicit panic: "+x.src(n))
		}
		return out
	case "min", "max":
		var out []SVs
		for _, r := range x.evalN(fr, st, n.Args) {
			t := r.vs[0].T
			for _, v := range r.vs[1:] {
				c := x.compare(token.LEQ, t, v.T, fr.typeOf(n))
				if name == "min" {
					t = Ite(c, t, v.T)
				} else {
					t = Ite(c, v.T, t)
				}
			}
			out = append(out, ret(r.st, t, fr.typeOf(n))...)
		}
		return out
	case "recover":
		if x.threads() {
			return x.thRecover(fr, st, fr.typeOf(n))
		}
		// panics are excluded, so there is nothing to recover from
		return ret(st, zeroOf(fr.typeOf(n)), fr.typeOf(n))
	case "clear":
		x.unsupported("clear")
	case "unsafe.String":
		var out []SVs
		for _, r := range x.evalN(fr, st, n.Args) {
			_ = r
			out = append(out, x.unsafeString(fr, r.st, n, r.vs)...)
		}
		return out
	case "unsafe.SliceData", "unsafe.StringData", "unsafe.Slice":
		var out []SVs
		for _, r := range x.evalN(fr, st, n.Args) {
			out = append(out, x.unsafeOp(fr, r.st, n, name, r.vs)...)
		}
		return out
	}
	x.unsupported("builtin %s at %s", name, x.pos(n))
	return nil
}

func (x *Exec) panicAt(st *State, n ast.Node, what string) {
	if x.spec != nil && len(x.spec.Panics) > 0 && x.dry == 0 {
		// allowed when the panic condition (over the entry state) holds
		var tags []string
		for _, p := range x.spec.Panics {
			tags = append(tags, p.Tags...)
		}
		x.check(st, x.panicCond(st), "panic", what+" only under the documented condition", n, tags)
	} else {
		x.check(st, False, "panic", what+" is unreachable", n, nil)
	}
	st.assume(False)
}

// panicCond: the documented panic condition of the function verified, over its entry state
func (x *Exec) panicCond(st *State) *Term {
	env := x.envFor(x.root, st)
	env.old = x.old
	var cs []*Term
	for _, p := range x.spec.Panics {
		cs = append(cs, x.specBool(env.atOld(), p.E))
	}
	return Or(cs...)
}

// unsafe.String(ptr, n) and friends: the pointer stands for the start of a slice or string.
func (x *Exec) unsafeString(fr *Frame, st *State, n *ast.CallExpr, vs []Val) []SVs {
	p := vs[0]
	if p.T != nil && p.T.Op == "sdata" {
		sl := p.T.Args[0]
		l := x.toInt(vs[1].T)
		x.check(st, And(Le(IntLit(0), l), Le(l, SlCap(sl))), "unsafe", "unsafe.String stays inside the slice", n, nil)
		m := x.get(st, memComp(TByte))
		return []SVs{{st, []Val{{T: bytesStr(Select(m, SlArr(sl)), SlOff(sl), l), Ty: TStr}}}}
	}
	x.unsupported("unsafe.String at %s", x.pos(n))
	return nil
}

func (x *Exec) unsafeOp(fr *Frame, st *State, n *ast.CallExpr, name string, vs []Val) []SVs {
	switch name {
	case "unsafe.SliceData":
		return []SVs{{st, []Val{{T: App("sdata", SRef, vs[0].T), Ty: fr.typeOf(n)}}}}
	case "unsafe.StringData":
		return []SVs{{st, []Val{{T: App("strdata", SRef, vs[0].T), Ty: fr.typeOf(n)}}}}
	case "unsafe.Slice":
		p := vs[0]
		if p.T != nil && p.T.Op == "strdata" {
			s := p.T.Args[0]
			l := x.toInt(vs[1].T)
			st.assume(And(strFacts(s)...))
			x.check(st, And(Le(IntLit(0), l), Le(l, App("slen", SInt, s))), "unsafe", "unsafe.Slice stays inside the string", n, nil)
			ref := App("strmem", SRef, s)
			sv, i := BoundVar("s", SStr), BoundVar("i", SInt)
			rv := App("strmem", SRef, sv)
			addAxiom("bytes of a string", []string{"strmem"}, Forall([]*Term{sv}, [][]*Term{{rv}}, And(App("isSub", SBool, rv), Not(mk("=", SBool, rv, Null)))))
			m := memComp(TByte)
			for _, q := range []*State{x.old, st} {
				st.assume(Select(x.get(q, allocComp()), ref))
				at := mk("select", SBV8, Select(x.get(q, m), ref), i)
				st.assume(Forall([]*Term{i}, [][]*Term{{at}}, Implies(And(Le(IntLit(0), i), Lt(i, App("slen", SInt, s))), Eq(at, App("sat", SBV8, s, i)))))
			}
			x.notes["the bytes of a string are memory apart from every allocated object; writing to them is a frame violation"] = true
			return []SVs{{st, []Val{{T: MkSlice(ref, IntLit(0), l, l), Ty: fr.typeOf(n)}}}}
		}
	}
	x.unsupported("%s at %s", name, x.pos(n))
	return nil
}

// builtinAppend: when the capacity suffices the elements are written in place, otherwise into a new array.
func (x *Exec) builtinAppend(fr *Frame, st *State, n *ast.CallExpr) []SVs {
	ty := fr.typeOf(n)
	su := under(ty).(*types.Slice)
	elem := su.Elem()
	m := memComp(elem)
	var out []SVs
	if len(n.Args) == 1 {
		for _, r := range x.eval(fr, st, n.Args[0]) {
			out = append(out, SVs{r.st, []Val{r.v}})
		}
		return out
	}
	for _, r := range x.evalN(fr, st, n.Args) {
		s := r.st
		base := x.coerce(s, r.vs[0], ty).T
		x.assumeType(s, base, ty)
		ln, cp, arr, off := SlLen(base), SlCap(base), SlArr(base), SlOff(base)
		M := x.get(s, m)
		var add *Term
		var fill func(contents, start *Term) *Term
		if n.Ellipsis.IsValid() {
			src := r.vs[1].T
			if src == nil {
				src = zeroOf(ty)
			}
			if src.S == SStr {
				s.assume(And(strFacts(src)...))
				add = App("slen", SInt, src)
				fill = func(c, start *Term) *Term {
					return x.fillCopy(s, c, start, add, func(i *Term) *Term { return App("sat", SBV8, src, i) }, nil)
				}
			} else {
				x.assumeType(s, src, ty)
				add = SlLen(src)
				x.guardRef(s, SlArr(src), false, "elements")
				sc := Select(M, SlArr(src))
				fill = func(c, start *Term) *Term {
					if add == IntLit(1) {
						return Store(c, start, Select(sc, SlOff(src)))
					}
					return x.fillCopy(s, c, start, add, nil, [2]*Term{sc, SlOff(src)})
				}
			}
		} else {
			k := len(n.Args) - 1
			add = IntLit(int64(k))
			var vs []*Term
			for _, v := range r.vs[1:] {
				vs = append(vs, x.termOf(x.coerce(s, v, elem)))
			}
			fill = func(c, start *Term) *Term {
				for i, v := range vs {
					c = Store(c, Add(start, IntLit(int64(i))), v)
				}
				return c
			}
		}
		x.guardRef(s, arr, true, "elements")
		nl := Add(ln, add)
		s.assume(Le(nl, BigLit(pow2(maxLenLog))))
		x.notes["allocation of memory succeeds; slices, maps and strings have at most 2^48 elements"] = true
		fits := Le(nl, cp)
		fresh := x.newObj(s, "app")
		ncap := NewConst("cap", SInt)
		s.assume(And(Le(nl, ncap), Le(ncap, BigLit(pow2(maxLenLog)))))
		// append(nil, nothing...) stays nil
		var ra *Term
		if x.mustGrow(base) {
			ra = fresh
			s.assume(Not(fits))
		} else {
			ra = Ite(fits, arr, fresh)
		}
		old := Select(M, arr)
		rt := x.refName(s, ra)
		nc := fill(old, Add(off, ln))
		x.put(s, m, rt, Store(M, rt, nc))
		if rt != arr && ra != fresh && x.rec != nil {
			x.rec.comp(m.name, arr)
			x.rec.comp(m.name, fresh)
		}
		rcap := Ite(fits, cp, ncap)
		if ra == fresh {
			rcap = ncap
		}
		out = append(out, SVs{s, []Val{{T: MkSlice(rt, off, nl, rcap), Ty: ty}}})
	}
	return out
}

func (x *Exec) mustGrow(base *Term) bool {
	c := SlCap(base)
	return c.num != nil && c.num.Sign() == 0
}

// refName names a compound reference so that heap terms stay small.
func (x *Exec) refName(st *State, r *Term) *Term {
	if len(r.Args) == 0 {
		return r
	}
	c := NewConst("r", SRef)
	st.assume(mk("=", SBool, c, r))
	return c
}

// fillCopy returns contents with [start, start+n) overwritten.
func (x *Exec) fillCopy(st *State, c, start, n *Term, f func(i *Term) *Term, src any) *Term {
	var get func(i *Term) *Term
	var args []*Term
	if f != nil {
		get = f
	} else {
		p := src.([2]*Term)
		get = func(i *Term) *Term { return Select(p[0], Add(p[1], i)) }
		args = p[:]
	}
	_ = args
	r := NewConst("cp", c.S)
	j := BoundVar("j", SInt)
	sel := mk("select", arrElem(c.S), r, j)
	st.assume(Forall([]*Term{j}, [][]*Term{{sel}}, mk("=", SBool, sel, Ite(And(Le(start, j), Lt(j, Add(start, n))), get(Sub(j, start)), Select(c, j)))))
	if f == nil {
		// also triggered from the source side
		p := src.([2]*Term)
		k := BoundVar("k", SInt)
		ss := mk("select", arrElem(c.S), p[0], k)
		if p[0].Op != "store" {
			st.assume(Forall([]*Term{k}, [][]*Term{{ss}}, Implies(And(Le(p[1], k), Lt(k, Add(p[1], n))), Eq(mk("select", arrElem(c.S), r, Add(Sub(k, p[1]), start)), ss))))
		}
	}
	return r
}

func (x *Exec) builtinCopy(fr *Frame, st *State, n *ast.CallExpr) []SVs {
	var out []SVs
	dt := under(fr.typeOf(n.Args[0])).(*types.Slice)
	m := memComp(dt.Elem())
	for _, r := range x.evalN(fr, st, n.Args) {
		s := r.st
		d, src := r.vs[0].T, r.vs[1].T
		x.assumeType(s, d, fr.typeOf(n.Args[0]))
		x.guardRef(s, SlArr(d), true, "elements")
		M := x.get(s, m)
		var cnt *Term
		old := Select(M, SlArr(d))
		var nc *Term
		if src.S == SStr {
			s.assume(And(strFacts(src)...))
			l := App("slen", SInt, src)
			cnt = x.nameInt(s, Ite(Le(l, SlLen(d)), l, SlLen(d)))
			nc = x.fillCopy(s, old, SlOff(d), cnt, func(i *Term) *Term { return App("sat", SBV8, src, i) }, nil)
		} else {
			x.assumeType(s, src, fr.typeOf(n.Args[1]))
			cnt = x.nameInt(s, Ite(Le(SlLen(src), SlLen(d)), SlLen(src), SlLen(d)))
			x.guardRef(s, SlArr(src), false, "elements")
			nc = x.fillCopy(s, old, SlOff(d), cnt, nil, [2]*Term{Select(M, SlArr(src)), SlOff(src)})
		}
		x.put(s, m, SlArr(d), Store(M, SlArr(d), nc))
		out = append(out, SVs{s, []Val{{T: cnt, Ty: TInt}}})
	}
	return out
}

func (x *Exec) nameInt(st *State, t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	c := NewConst("n", SInt)
	st.assume(mk("=", SBool, c, t))
	return c
}

var _ = big.NewInt
var _ = sort.Strings

// guardAccess checks lock discipline for guarded fields.
func (x *Exec) guardAccess(fr *Frame, st *State, p *Place, n ast.Node) {
	if p.kind != "heap" && p.kind != "obj" || len(x.set.Guards) == 0 {
		return
	}
	x.guardCheck(st, p, n, false)
}

func (x *Exec) guardCheck(st *State, p *Place, n ast.Node, write bool) {
	if p.kind != "heap" || p.c == nil {
		return
	}
	for _, g := range x.set.Guards {
		if !x.rootSpecOpt("guards") {
			continue
		}
		pre := "F|" + pkgShortSpec(g.Pkg) + "." + g.Type
		name := p.c.name
		if !strings.HasPrefix(name, pre) || !strings.HasSuffix(name, "."+g.Field) {
			continue
		}
		mid := name[len(pre) : len(name)-len(g.Field)-1]
		if mid != "" && mid[0] != '[' {
			continue
		}
		mn := strings.TrimSuffix(name, g.Field) + g.Mux
		mc, ok := compTab[mn]
		if !ok {
			mc = comp(mn, Arr(SRef, SInt), nil, 'f')
		}
		cur := Select(x.get(st, mc), p.ref)
		var held *Term
		what := "read of"
		if write {
			held = Eq(cur, IntLit(-1))
			what = "write to"
		} else {
			held = Not(Eq(cur, IntLit(0)))
		}
		free := True
		if x.old != nil {
			free = Select(x.get(x.old, allocComp()), p.ref)
		}
		x.check(st, Implies(free, held), "guard", what+" "+g.Type+"."+g.Field+" only with the lock held: "+x.src(n), n, []string{"C22"})
	}
}

func pkgShortSpec(p string) string { return p }

// guardRef: contents reached through a guarded field of the receiver or a parameter (elements of a slice, entries of a map,
// the object of a guarded pointer) are only touched with the lock held.
func (x *Exec) guardRef(st *State, ref *Term, write bool, what string) {
	if !x.rootSpecOpt("guards") || x.root == nil || x.root.fn == nil || ref == nil || ref.S != SRef || st.dead() {
		return
	}
	var names []string
	for n := range x.params {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pv := x.params[n]
		pt, ok := under(pv.Ty).(*types.Pointer)
		if !ok {
			continue
		}
		nt, ok := types.Unalias(pt.Elem()).(*types.Named)
		if !ok || nt.Obj().Pkg() == nil {
			continue
		}
		su, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for _, g := range x.set.Guards {
			if g.Type != nt.Obj().Name() || g.Pkg != pkgShort(nt.Obj().Pkg().Path()) {
				continue
			}
			var fc, mc *compInfo
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == g.Field {
					fc = fieldComp(pt.Elem(), su.Field(i))
				}
				if su.Field(i).Name() == g.Mux {
					mc = fieldComp(pt.Elem(), su.Field(i))
				}
			}
			if fc == nil || mc == nil {
				continue
			}
			t := Select(x.get(st, fc), pv.T)
			switch t.S {
			case SSl:
				t = SlArr(t)
			case SRef:
			default:
				continue
			}
			cur := Select(x.get(st, mc), pv.T)
			held := Not(Eq(cur, IntLit(0)))
			w := "read of"
			if write {
				held = Eq(cur, IntLit(-1))
				w = "write to"
			}
			x.check(st, Or(Not(Eq(t, ref)), Eq(ref, Null), held), "guard", w+" the "+what+" of "+g.Type+"."+g.Field+" only with the lock held", x.curNode, []string{"C22"})
		}
	}
}

// Channels: a buffered channel made by the function under verification and not yet seen by anyone else is a bounded
// sequence; a send must find room (nobody else can receive), and never follow a close.

func chanLen(u *types.Chan) *compInfo {
	return comp("$chlen|"+tkey(u.Elem()), Arr(SRef, SInt), nil, 'x')
}
func chanCap(u *types.Chan) *compInfo {
	return comp("$chcap|"+tkey(u.Elem()), Arr(SRef, SInt), nil, 'x')
}
func chanClosed(u *types.Chan) *compInfo {
	return comp("$chclosed|"+tkey(u.Elem()), Arr(SRef, SInt), nil, 'x')
}
func chanBuf(u *types.Chan) *compInfo {
	return comp("$chbuf|"+tkey(u.Elem()), Arr(SRef, Arr(SInt, sortOf(u.Elem()))), u.Elem(), 'x')
}

func (x *Exec) ownChan(st *State, n ast.Node, v Val) *types.Chan {
	u, ok := under(v.Ty).(*types.Chan)
	if !ok || v.T.fresh == 0 {
		x.unsupported("channel that is not made in this function at %s", x.pos(n))
	}
	return u
}

func (x *Exec) closeChan(st *State, n ast.Node, v Val) {
	u := x.ownChan(st, n, v)
	c := chanClosed(u)
	x.check(st, Eq(Select(x.get(st, c), v.T), IntLit(0)), "chan", "the channel is not closed twice: "+x.src(n), n, nil)
	x.put(st, c, v.T, Store(x.get(st, c), v.T, IntLit(1)))
}

func (x *Exec) sendChan(st *State, n ast.Node, ch, v Val) {
	u := x.ownChan(st, n, ch)
	x.check(st, Eq(Select(x.get(st, chanClosed(u)), ch.T), IntLit(0)), "chan", "no send on a closed channel: "+x.src(n), n, nil)
	l := Select(x.get(st, chanLen(u)), ch.T)
	x.check(st, Lt(l, Select(x.get(st, chanCap(u)), ch.T)), "chan", "the send finds room (it would block for ever): "+x.src(n), n, nil)
	b := chanBuf(u)
	cur := x.get(st, b)
	x.put(st, b, ch.T, Store(cur, ch.T, Store(Select(cur, ch.T), l, x.coerce(st, v, u.Elem()).T)))
	x.put(st, chanLen(u), ch.T, Store(x.get(st, chanLen(u)), ch.T, Add(l, IntLit(1))))
}
