package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

// Val is a value during symbolic execution.
type Val struct {
	T     *Term
	Clo   *Closure
	Place *Place // statically known pointer target
	Ty    types.Type
}

// Closure is a statically known function value.
type Closure struct {
	Lit  *ast.FuncLit
	Fr   *Frame
	Fn   *FuncInfo
	Std  *types.Func
	Sub  TSubst
	Recv *Val
}

type PC struct {
	up *PC
	t  *Term
	n  int
}

type deferred struct {
	c    *callee
	fr   *Frame
	call *ast.CallExpr
	args []Val
	fn   *Val
}

// State is one symbolic path.
type State struct {
	locals map[*types.Var]Val
	comps  map[string]*Term
	pc     *PC
	defers []deferred
	its    map[int]*Term
	pos    map[int]*Term // hidden string positions
	vis    map[int]*Term // hidden visited sets
	strs   map[*Term]bool
	heap   map[*types.Var]bool // boxed locals: value in locals is the box reference
	pan    *Term               // the value of a panic on its way up (option threads)
	unw    []*Term             // per active function: the panic its deferred calls run for, if any
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, locals: make(map[*types.Var]Val, len(s.locals)), comps: make(map[string]*Term, len(s.comps)), its: map[int]*Term{}, pos: map[int]*Term{}, vis: map[int]*Term{}}
	for k, v := range s.locals {
		n.locals[k] = v
	}
	for k, v := range s.comps {
		n.comps[k] = v
	}
	for k, v := range s.its {
		n.its[k] = v
	}
	for k, v := range s.pos {
		n.pos[k] = v
	}
	for k, v := range s.vis {
		n.vis[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	n.pan = s.pan
	n.unw = append([]*Term(nil), s.unw...)
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" && len(t.Vars) == 0 {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{s.pc, t, n}
}

func (s *State) dead() bool {
	return s.pc != nil && s.pc.t == False
}

func (s *State) pcList() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.up {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- heap components ----

type compInfo struct {
	name string
	s    Sort
	elem types.Type // element Go type (fields, cells) or nil
	kind byte       // f field, m memory, p cell, d map domain, v map value, c map size, g ghost field, s scalar ghost, a alloc
	init *Term
}

var compTab = map[string]*compInfo{}

func comp(name string, s Sort, elem types.Type, kind byte) *compInfo {
	if c, ok := compTab[name]; ok {
		if c.s != s {
			panic(fmt.Sprintf("component %s: sorts %s and %s", name, c.s, s))
		}
		return c
	}
	c := &compInfo{name: name, s: s, elem: elem, kind: kind}
	compTab[name] = c
	return c
}

func fieldComp(st types.Type, f *types.Var) *compInfo {
	return comp("F|"+tkey(st)+"."+f.Name(), Arr(SRef, sortOf(f.Type())), f.Type(), 'f')
}
func memComp(elem types.Type) *compInfo {
	return comp("M|"+tkey(elem), Arr(SRef, Arr(SInt, sortOf(elem))), elem, 'm')
}
func cellComp(elem types.Type) *compInfo {
	if at, ok := under(elem).(*types.Array); ok { // slices of the array share its elements
		return memComp(at.Elem())
	}
	return comp("P|"+tkey(elem), Arr(SRef, sortOf(elem)), elem, 'p')
}
func mapDom(m *types.Map) *compInfo {
	return comp("D|"+tkey(m), Arr(SRef, Arr(sortOf(m.Key()), SBool)), nil, 'd')
}
func mapVal(m *types.Map) *compInfo {
	return comp("V|"+tkey(m), Arr(SRef, Arr(sortOf(m.Key()), sortOf(m.Elem()))), m.Elem(), 'v')
}
func mapCard(m *types.Map) *compInfo {
	return comp("C|"+tkey(m), Arr(SRef, SInt), nil, 'c')
}
func allocComp() *compInfo { return comp("$alloc", Arr(SRef, SBool), nil, 'a') }

func (x *Exec) get(st *State, c *compInfo) *Term {
	if t, ok := st.comps[c.name]; ok {
		return t
	}
	if c.init == nil {
		c.init = Const("H0$"+sanitize(c.name), c.s)
		x.compFacts(st, c, c.init)
	}
	t := c.init
	if x.dryBase != nil {
		// inside a dry run an untouched component has an arbitrary value
		t = NewConst("dry$"+c.name, c.s)
	}
	st.comps[c.name] = t
	return t
}

// compFacts records facts true of every value of a component.
func (x *Exec) compFacts(st *State, c *compInfo, t *Term) {
	if c.name == "$alloc" {
		allocConsts = append(allocConsts, t)
		for _, n := range subNames {
			subAlloc(t, n)
		}
	}
	switch c.kind {
	case 'd':
		k := BoundVar("k", arrKey(arrElem(c.s)))
		sel := mk("select", SBool, mk("select", arrElem(c.s), t, Null), k)
		addAxiom("nil map is empty", []string{t.Op}, Forall([]*Term{k}, [][]*Term{{sel}}, Not(sel)))
	case 'c':
		r := BoundVar("r", SRef)
		sel := mk("select", SInt, t, r)
		addAxiom("map size is not negative", []string{t.Op}, Forall([]*Term{r}, [][]*Term{{sel}}, And(Le(IntLit(0), sel), Implies(Eq(r, Null), Eq(sel, IntLit(0))))))
	}
}

func (x *Exec) put(st *State, c *compInfo, ref *Term, t *Term) {
	st.comps[c.name] = t
	if x.rec != nil {
		x.rec.comp(c.name, ref)
	}
}

// havocComp gives a component a new arbitrary value.
func (x *Exec) havocComp(st *State, c *compInfo, hint string) *Term {
	t := NewConst(hint+"$"+c.name, c.s)
	x.compFacts(st, c, t)
	st.comps[c.name] = t
	if x.rec != nil {
		x.rec.comp(c.name, nil)
	}
	return t
}

// writeRec collects what a dry run writes.
type writeRec struct {
	comps  map[string]map[*Term]bool // nil term: unknown reference
	locals map[*types.Var]bool
	up     *writeRec
}

func newRec(up *writeRec) *writeRec {
	return &writeRec{comps: map[string]map[*Term]bool{}, locals: map[*types.Var]bool{}, up: up}
}
func (r *writeRec) comp(n string, ref *Term) {
	for ; r != nil; r = r.up {
		if r.comps[n] == nil {
			r.comps[n] = map[*Term]bool{}
		}
		r.comps[n][ref] = true
	}
}
func (r *writeRec) local(v *types.Var) {
	for ; r != nil; r = r.up {
		r.locals[v] = true
	}
}
func (r *writeRec) compNames() []string {
	var out []string
	for n := range r.comps {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// ---- places (lvalues) ----

type Place struct {
	kind string // var, heap, mem, obj, dt, elem, cell, map, blank
	v    *types.Var
	c    *compInfo
	ref  *Term
	idx  *Term
	base *Place
	fi   int
	Ty   types.Type
	mt   *types.Map
}

// The embedded structs of an allocated object are allocated (a fact of every state the allocation map of which is a constant).
var allocConsts []*Term
var subNames []string
var subSeen = map[string]bool{}

func subAlloc(a *Term, sub string) {
	r := BoundVar("r", SRef)
	s := mk(sub, SRef, r)
	addAxiom("embedded struct is allocated with its owner", []string{sub, a.Op}, Forall([]*Term{r}, [][]*Term{{s}}, mk("=", SBool, mk("select", SBool, a, r), mk("select", SBool, a, s))))
}

// fieldPlace is the place of field f of the struct at ref.
func fieldPlace(ref *Term, st types.Type, f *types.Var) *Place {
	if s, ok := isStructVal(f.Type()); ok {
		_ = s
		return &Place{kind: "obj", ref: subRef(st, f, ref), Ty: f.Type()}
	}
	return &Place{kind: "heap", c: fieldComp(st, f), ref: ref, Ty: f.Type()}
}

func subRef(st types.Type, f *types.Var, ref *Term) *Term {
	name := "sub$" + sanitize(structBase(st)+"."+f.Name())
	t := App(name, SRef, ref)
	if !subSeen[name] {
		subSeen[name] = true
		subNames = append(subNames, name)
		for _, a := range allocConsts {
			subAlloc(a, name)
		}
	}
	v := BoundVar("r", SRef)
	s := mk(name, SRef, v)
	own := App("own$"+name, SRef, s)
	isS := App("isSub", SBool, s)
	addAxiom("embedded struct", []string{name}, Forall([]*Term{v}, [][]*Term{{s}}, And(Eq(own, v), isS, mk("not", SBool, mk("=", SBool, s, Null)))))
	return t
}

func structBase(t types.Type) string {
	k := tkey(t)
	if i := strings.IndexByte(k, '['); i > 0 && k[0] != '[' {
		k = k[:i]
	}
	return k
}

func (x *Exec) load(st *State, p *Place) Val {
	switch p.kind {
	case "var":
		v, ok := st.locals[p.v]
		if !ok {
			return x.globalVal(st, p.v)
		}
		return v
	case "heap", "cell":
		t := Select(x.get(st, p.c), p.ref)
		x.assumeType(st, t, p.Ty)
		x.entryFacts(st, p.c, p.ref, nil, p.Ty)
		return Val{T: t, Ty: p.Ty}
	case "mem":
		x.guardRef(st, p.ref, false, "elements")
		t := Select(Select(x.get(st, p.c), p.ref), p.idx)
		x.assumeType(st, t, p.Ty)
		x.entryFacts(st, p.c, p.ref, p.idx, p.Ty)
		return Val{T: t, Ty: p.Ty}
	case "obj":
		return Val{T: x.loadObj(st, p.ref, p.Ty), Ty: p.Ty}
	case "dt":
		b := x.load(st, p.base)
		d := datatypes[b.T.S]
		t := SelDT(d, p.fi, b.T)
		x.assumeType(st, t, p.Ty)
		return Val{T: t, Ty: p.Ty}
	case "elem":
		b := x.load(st, p.base)
		t := Select(b.T, p.idx)
		x.assumeType(st, t, p.Ty)
		return Val{T: t, Ty: p.Ty}
	}
	panic("load " + p.kind)
}

// entryFacts: at entry the objects in use point to objects in use (told again where the component was changed since).
func (x *Exec) entryFacts(st *State, c *compInfo, ref, idx *Term, ty types.Type) {
	if x.old == nil || x.get(st, c) == x.get(x.old, c) || ref.fresh != 0 || len(ref.free) > 0 || idx != nil && len(idx.free) > 0 {
		return
	}
	a := x.get(x.old, allocComp())
	v := Select(x.get(x.old, c), ref)
	if idx != nil {
		v = Select(v, idx)
	}
	switch v.S {
	case SSl:
		v = SlArr(v)
	case SRef:
		switch under(types.Unalias(ty)).(type) {
		case *types.Pointer, *types.Map, *types.Chan:
		default:
			return
		}
	default:
		return
	}
	st.assume(Implies(Select(a, ref), Or(Eq(v, Null), Select(a, v))))
}

func (x *Exec) loadObj(st *State, ref *Term, ty types.Type) *Term {
	s, ok := isStructVal(ty)
	if !ok {
		panic("loadObj of " + ty.String())
	}
	sort := sortOf(ty)
	d := datatypes[sort]
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		args = append(args, x.load(st, fieldPlace(ref, ty, s.Field(i))).T)
	}
	return MkDT(d, args...)
}

func (x *Exec) store(st *State, p *Place, v Val) {
	switch p.kind {
	case "blank":
	case "var":
		if _, ok := st.locals[p.v]; !ok && x.isGlobal(p.v) {
			x.unsupported("assignment to package variable " + p.v.Name())
		}
		v.Ty = p.Ty
		st.locals[p.v] = v
		if x.rec != nil {
			x.rec.local(p.v)
		}
	case "heap", "cell":
		if v.Clo != nil && v.T == nil {
			v.T = x.closureTerm(v.Clo)
		}
		x.put(st, p.c, p.ref, Store(x.get(st, p.c), p.ref, v.T))
	case "mem":
		if v.Clo != nil && v.T == nil {
			v.T = x.closureTerm(v.Clo)
		}
		x.guardRef(st, p.ref, true, "elements")
		m := x.get(st, p.c)
		x.put(st, p.c, p.ref, Store(m, p.ref, Store(Select(m, p.ref), p.idx, v.T)))
	case "obj":
		s, _ := isStructVal(p.Ty)
		d := datatypes[sortOf(p.Ty)]
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, fieldPlace(p.ref, p.Ty, s.Field(i)), Val{T: SelDT(d, i, v.T), Ty: s.Field(i).Type()})
		}
	case "dt":
		b := x.load(st, p.base)
		d := datatypes[b.T.S]
		args := make([]*Term, len(d.Fields))
		for i := range args {
			args[i] = SelDT(d, i, b.T)
		}
		args[p.fi] = v.T
		x.store(st, p.base, Val{T: MkDT(d, args...), Ty: p.base.Ty})
	case "elem":
		b := x.load(st, p.base)
		x.store(st, p.base, Val{T: Store(b.T, p.idx, v.T), Ty: p.base.Ty})
	case "map":
		x.mapStore(st, p.mt, p.ref, p.idx, v.T)
	default:
		panic("store " + p.kind)
	}
}

func (x *Exec) mapStore(st *State, mt *types.Map, m, k, v *Term) {
	x.guardRef(st, m, true, "entries")
	d, vl, c := mapDom(mt), mapVal(mt), mapCard(mt)
	D, V, C := x.get(st, d), x.get(st, vl), x.get(st, c)
	had := Select(Select(D, m), k)
	x.put(st, c, m, Store(C, m, Ite(had, Select(C, m), Add(Select(C, m), IntLit(1)))))
	x.put(st, d, m, Store(D, m, Store(Select(D, m), k, True)))
	x.put(st, vl, m, Store(V, m, Store(Select(V, m), k, v)))
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	x.guardRef(st, m, true, "entries")
	d, c := mapDom(mt), mapCard(mt)
	D, C := x.get(st, d), x.get(st, c)
	had := Select(Select(D, m), k)
	// a nil map is left alone by delete
	x.put(st, c, m, Ite(Eq(m, Null), C, Store(C, m, Ite(had, Sub(Select(C, m), IntLit(1)), Select(C, m)))))
	x.put(st, d, m, Ite(Eq(m, Null), D, Store(D, m, Store(Select(D, m), k, False))))
}

const maxLenLog = 48

// assumeType adds what Go guarantees of every value of the type: integer ranges, slice shape, reachable references allocated.
func (x *Exec) assumeType(st *State, t *Term, ty types.Type) {
	if t == nil || ty == nil || len(t.free) > 0 {
		return
	}
	if x.typed[t] != nil && x.typedOK(st, t) {
		return
	}
	fs := x.typeFacts(st, t, ty)
	for _, f := range fs {
		st.assume(f)
	}
}

func (x *Exec) typedOK(st *State, t *Term) bool { return false }

func (x *Exec) typeFacts(st *State, t *Term, ty types.Type) []*Term {
	ty = types.Unalias(ty)
	var fs []*Term
	if isLit(t) || t.Op == "zero" {
		return nil
	}
	switch t.S {
	case SInt:
		if b, ok := under(ty).(*types.Basic); ok {
			if lo, hi, _, _, ok := intRange(b); ok {
				fs = append(fs, Le(BigLit(lo), t), Le(t, BigLit(hi)))
			}
		}
	case SSl:
		fs = append(fs, x.sliceFacts(st, t)...)
	case SRef:
		if t != Null && t.fresh == 0 {
			switch under(ty).(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				fs = append(fs, Or(Eq(t, Null), Select(x.get(st, allocComp()), t)))
				if m, ok := under(ty).(*types.Map); ok {
					fs = append(fs, Le(Select(x.get(st, mapCard(m)), t), BigLit(pow2(maxLenLog))))
					fs = append(fs, x.cardFacts(st, m, t)...)
				}
			}
		}
	case SStr:
		fs = append(fs, strFacts(t)...)
	default:
		if d, ok := datatypes[t.S]; ok && d != sliceDT {
			if s, ok := isStructVal(ty); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := SelDT(d, i, t)
					if f.Op == d.Fields[i] {
						fs = append(fs, x.typeFacts(st, f, s.Field(i).Type())...)
					}
				}
			}
		}
	}
	return fs
}

// cardFacts: an empty map has size 0 and conversely.
func (x *Exec) cardFacts(st *State, m *types.Map, t *Term) []*Term {
	k := BoundVar("k", sortOf(m.Key()))
	D := Select(x.get(st, mapDom(m)), t)
	sel := mk("select", SBool, D, k)
	C := Select(x.get(st, mapCard(m)), t)
	return []*Term{Le(IntLit(0), C),
		Forall([]*Term{k}, [][]*Term{{sel}}, Implies(sel, Lt(IntLit(0), C)))}
}

func strFacts(t *Term) []*Term {
	l := App("slen", SInt, t)
	return []*Term{Le(IntLit(0), l), Le(l, BigLit(pow2(maxLenLog)))}
}

func (x *Exec) sliceFacts(st *State, t *Term) []*Term {
	arr, off, ln, cp := SlArr(t), SlOff(t), SlLen(t), SlCap(t)
	fs := []*Term{Le(IntLit(0), ln), Le(ln, cp), Le(cp, BigLit(pow2(maxLenLog))), Le(IntLit(0), off), Le(off, BigLit(pow2(maxLenLog))),
		Implies(Eq(arr, Null), And(Eq(ln, IntLit(0)), Eq(cp, IntLit(0)), Eq(off, IntLit(0))))}
	if arr.fresh == 0 && arr != Null {
		fs = append(fs, Or(Eq(arr, Null), Select(x.get(st, allocComp()), arr)))
	}
	return fs
}

// newObj allocates a reference.
func (x *Exec) newObj(st *State, hint string) *Term {
	r := NewRef(hint)
	a := x.get(st, allocComp())
	st.assume(Not(Select(a, r)))
	st.assume(Not(Eq(mk("=", SBool, r, Null), True)))
	st.assume(Not(App("isSub", SBool, r)))
	x.put(st, allocComp(), r, Store(a, r, True))
	return r
}

// newStruct allocates a struct object with the given value.
func (x *Exec) newStruct(st *State, ty types.Type, v *Term) *Term {
	r := x.newObj(st, "new_"+structBase(ty))
	x.allocSubs(st, r, ty)
	x.store(st, &Place{kind: "obj", ref: r, Ty: ty}, Val{T: v, Ty: ty})
	x.zeroGhosts(st, r, ty)
	return r
}

// zeroGhosts: the ghost fields of a new object are zero.
func (x *Exec) zeroGhosts(st *State, r *Term, ty types.Type) {
	n, ok := types.Unalias(ty).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || x.root == nil {
		return
	}
	pre := pkgShort(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "."
	var names []string
	for k := range x.set.GFld {
		if strings.HasPrefix(k, pre) {
			names = append(names, k[len(pre):])
		}
	}
	sort.Strings(names)
	for _, g := range names {
		c, gt := x.envFor(x.root, st).ghostComp(ty, g)
		if c != nil {
			x.put(st, c, r, Store(x.get(st, c), r, zeroOf(gt)))
		}
	}
}

func (x *Exec) allocSubs(st *State, r *Term, ty types.Type) {
	s, ok := isStructVal(ty)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := isStructVal(f.Type()); ok {
			sr := subRef(ty, f, r)
			a := x.get(st, allocComp())
			st.assume(Not(Select(a, sr)))
			x.put(st, allocComp(), sr, Store(a, sr, True))
			x.allocSubs(st, sr, f.Type())
		}
	}
}
