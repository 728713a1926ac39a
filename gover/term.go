package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is the textual SMT-LIB sort.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SRef  Sort = "Ref"
	SBV8  Sort = "(_ BitVec 8)"
	SStr  Sort = "Str"
	SAny  Sort = "Any"
	SFn   Sort = "Fn"
	SSl   Sort = "Slice"
)

type sortPair struct{ k, v Sort }

var arrSorts = map[Sort]sortPair{}

func Arr(k, v Sort) Sort {
	s := Sort("(Array " + string(k) + " " + string(v) + ")")
	arrSorts[s] = sortPair{k, v}
	return s
}

func isArr(s Sort) bool { _, ok := arrSorts[s]; return ok }
func arrElem(s Sort) Sort {
	p, ok := arrSorts[s]
	if !ok {
		panic(fmt.Sprintf("not an array sort: %s", s))
	}
	return p.v
}
func arrKey(s Sort) Sort { return arrSorts[s].k }

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	Op    string
	Args  []*Term
	S     Sort
	Vars  []*Term // quantifier-bound variables
	Trig  [][]*Term
	bound bool  // is itself a bound variable
	free  []int // ids of free bound variables
	fresh int   // >0: a freshly allocated reference
	num   *big.Int
	size  int
	// fn: an uninterpreted function that has to be declared
	decl bool
}

var (
	termTab = map[string]*Term{}
	termSeq int
	symSeq  int
	// declared functions: name -> signature
	funDecls  = map[string]funSig{}
	termAll   []*Term
	freshSeq  int
	datatypes = map[Sort]*Datatype{}
	dtOrder   []Sort
	dtCtor    = map[string]*Datatype{}
	dtSel     = map[string]int{} // selector -> index
	sortDecls = map[Sort]bool{}
)

type funSig struct {
	args []Sort
	ret  Sort
}

type Datatype struct {
	S      Sort
	Ctor   string
	Fields []string
	Sorts  []Sort
}

func declSort(s Sort) Sort {
	sortDecls[s] = true
	return s
}

func declDatatype(d *Datatype) {
	if _, ok := datatypes[d.S]; ok {
		return
	}
	datatypes[d.S] = d
	dtOrder = append(dtOrder, d.S)
	dtCtor[d.Ctor] = d
	for i, f := range d.Fields {
		dtSel[f] = i
	}
}

func mergeFree(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	r := make([]int, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Ints(r)
	return r
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(string(t.S))
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if len(t.Vars) > 0 {
		sb.WriteByte('#')
		for _, v := range t.Vars {
			fmt.Fprintf(&sb, ",%d", v.id)
		}
		for _, tr := range t.Trig {
			sb.WriteByte('!')
			for _, x := range tr {
				fmt.Fprintf(&sb, ",%d", x.id)
			}
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	t.size = 1
	for _, a := range t.Args {
		t.free = mergeFree(t.free, a.free)
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.bound {
		t.free = []int{t.id}
	}
	if len(t.Vars) > 0 {
		for _, tr := range t.Trig {
			for _, x := range tr {
				t.free = mergeFree(t.free, x.free)
			}
		}
		m := map[int]bool{}
		for _, v := range t.Vars {
			m[v.id] = true
		}
		var r []int
		for _, x := range t.free {
			if !m[x] {
				r = append(r, x)
			}
		}
		t.free = r
	}
	termTab[k] = t
	termAll = append(termAll, t)
	return t
}

func mk(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, S: s, Args: args})
}

// Const declares (once) and returns a constant.
func Const(name string, s Sort) *Term {
	return intern(&Term{Op: name, S: s, decl: true})
}

// NewConst returns a constant with a new name.
func NewConst(prefix string, s Sort) *Term {
	symSeq++
	return Const(fmt.Sprintf("%s!%d", sanitize(prefix), symSeq), s)
}

func NewRef(prefix string) *Term {
	symSeq++
	freshSeq++
	t := Const(fmt.Sprintf("%s!%d", sanitize(prefix), symSeq), SRef)
	t.fresh = freshSeq
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!', r == '@', r == '^', r == '<', r == '>', r == '~':
			sb.WriteRune(r)
		case r == '*':
			sb.WriteByte('^')
		case r == '[':
			sb.WriteByte('<')
		case r == ']':
			sb.WriteByte('>')
		case r == '/':
			sb.WriteByte('.')
		case r == ',':
			sb.WriteByte('~')
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func BoundVar(name string, s Sort) *Term {
	symSeq++
	return intern(&Term{Op: fmt.Sprintf("%s?%d", sanitize(name), symSeq), S: s, bound: true})
}

// App applies an uninterpreted function, declaring it when first seen.
func App(name string, ret Sort, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return Const(name, ret)
	}
	if d, ok := funDecls[name]; !ok {
		sg := funSig{ret: ret}
		for _, a := range args {
			sg.args = append(sg.args, a.S)
		}
		funDecls[name] = sg
	} else {
		if len(d.args) != len(args) || d.ret != ret {
			panic(fmt.Sprintf("function %s used at two signatures: %v->%v / %v", name, d.args, d.ret, ret))
		}
		for i := range args {
			if d.args[i] != args[i].S {
				panic(fmt.Sprintf("function %s arg %d: %s vs %s", name, i, d.args[i], args[i].S))
			}
		}
	}
	return mk(name, ret, args...)
}

var (
	True  = mk("true", SBool)
	False = mk("false", SBool)
	Null  = Const("null", SRef)
)

func IntLit(n int64) *Term { return BigLit(big.NewInt(n)) }
func BigLit(n *big.Int) *Term {
	var op string
	if n.Sign() < 0 {
		op = "(- " + new(big.Int).Neg(n).String() + ")"
	} else {
		op = n.String()
	}
	t := mk(op, SInt)
	t.num = new(big.Int).Set(n)
	return t
}
func BVLit(n int) *Term {
	t := mk(fmt.Sprintf("#x%02x", n&255), SBV8)
	t.num = big.NewInt(int64(n & 255))
	return t
}
func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}

func isLit(t *Term) bool { return t.num != nil }

func Not(t *Term) *Term {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.Op == "not":
		return t.Args[0]
	}
	return mk("not", SBool, t)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t == True {
			continue
		}
		if t == False {
			return False
		}
		if t.Op == "and" && len(t.Vars) == 0 {
			for _, a := range t.Args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].id] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t == False {
			continue
		}
		if t == True {
			return True
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].id] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.S == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s", a.S, b.S))
	}
	return mk("ite", a.S, c, a, b)
}

// distinctRefs reports whether two references are known to differ syntactically.
func distinctRefs(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.fresh > 0 && b.fresh > 0 {
		return true
	}
	if (a.fresh > 0 && b == Null) || (b.fresh > 0 && a == Null) {
		return true
	}
	if a.Op == "subref" || strings.HasPrefix(a.Op, "sub$") || strings.HasPrefix(b.Op, "sub$") {
		if strings.HasPrefix(a.Op, "sub$") && strings.HasPrefix(b.Op, "sub$") {
			if a.Op != b.Op {
				return true
			}
			return distinctRefs(a.Args[0], b.Args[0])
		}
		if a.fresh > 0 || b.fresh > 0 || a == Null || b == Null {
			return true
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("= sorts %s / %s: %s = %s", a.S, b.S, a, b))
	}
	if isLit(a) && isLit(b) {
		return BoolLit(a.num.Cmp(b.num) == 0)
	}
	if a.S == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.S == SRef && distinctRefs(a, b) {
		return False
	}
	if d, ok := dtCtor[a.Op]; ok && a.Op == b.Op && len(a.Args) == len(d.Fields) {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.S == SInt {
		// normalise  x + c = y + d
		if ca, ta := splitConst(a); true {
			cb, tb := splitConst(b)
			if ta == tb {
				return BoolLit(ca.Cmp(cb) == 0)
			}
		}
	}
	if a.id > b.id && !isLit(b) {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

// splitConst writes t as (sum, const).
func splitConst(t *Term) (*big.Int, *Term) {
	if t.num != nil {
		return t.num, nil
	}
	if t.Op == "+" && t.S == SInt {
		last := t.Args[len(t.Args)-1]
		if last.num != nil {
			if len(t.Args) == 2 {
				return last.num, t.Args[0]
			}
			return last.num, mk("+", SInt, t.Args[:len(t.Args)-1]...)
		}
	}
	return big.NewInt(0), t
}

// linear form: coefficient map over non-linear atoms
type lin struct {
	m map[int]*big.Int
	t map[int]*Term
	c *big.Int
}

func linOf(t *Term) lin {
	l := lin{m: map[int]*big.Int{}, t: map[int]*Term{}, c: new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *Term, k *big.Int) {
	if t.num != nil {
		l.c.Add(l.c, new(big.Int).Mul(k, t.num))
		return
	}
	switch {
	case t.Op == "+" && t.S == SInt:
		for _, a := range t.Args {
			l.add(a, k)
		}
		return
	case t.Op == "-" && t.S == SInt && len(t.Args) == 2:
		l.add(t.Args[0], k)
		l.add(t.Args[1], new(big.Int).Neg(k))
		return
	case t.Op == "-" && t.S == SInt && len(t.Args) == 1:
		l.add(t.Args[0], new(big.Int).Neg(k))
		return
	case t.Op == "*" && t.S == SInt && len(t.Args) == 2 && t.Args[0].num != nil:
		l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].num))
		return
	}
	if o, ok := l.m[t.id]; ok {
		l.m[t.id] = new(big.Int).Add(o, k)
	} else {
		l.m[t.id] = k
		l.t[t.id] = t
	}
}

func (l lin) term() *Term {
	var ids []int
	for id, k := range l.m {
		if k.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		k := l.m[id]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, l.t[id])
		} else {
			args = append(args, mk("*", SInt, BigLit(k), l.t[id]))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigLit(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", SInt, args...)
}

func Add(a, b *Term) *Term {
	if a.S == SReal {
		return mk("+", SReal, a, b)
	}
	l := linOf(a)
	l.add(b, big.NewInt(1))
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a.S == SReal {
		return mk("-", SReal, a, b)
	}
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(IntLit(0), a) }
func Mul(a, b *Term) *Term {
	if a.num != nil {
		l := lin{m: map[int]*big.Int{}, t: map[int]*Term{}, c: new(big.Int)}
		l.add(b, a.num)
		return l.term()
	}
	if b.num != nil {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a.S == SReal {
		return mk("<=", SBool, a, b)
	}
	if a == b {
		return True
	}
	if a.S == SInt {
		l := linOf(b)
		l.add(a, big.NewInt(-1))
		d := l.term()
		if d.num != nil {
			return BoolLit(d.num.Sign() >= 0)
		}
	}
	return mk("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.S == SInt {
		l := linOf(b)
		l.add(a, big.NewInt(-1))
		d := l.term()
		if d.num != nil {
			return BoolLit(d.num.Sign() > 0)
		}
	}
	return mk("<", SBool, a, b)
}

// Div and Mod are SMT-LIB (floor for positive divisor).
func Div(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return BigLit(q)
	}
	if b.num != nil && b.num.IsInt64() && b.num.Int64() == 1 {
		return a
	}
	return mk("div", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return BigLit(m)
	}
	return mk("mod", SInt, a, b)
}

func Select(a, i *Term) *Term {
	if !isArr(a.S) {
		panic("select on " + string(a.S) + ": " + a.String())
	}
	if arrKey(a.S) != i.S {
		panic(fmt.Sprintf("select key sort %s vs %s", arrKey(a.S), i.S))
	}
	for a.Op == "store" {
		j := a.Args[1]
		if i == j {
			return a.Args[2]
		}
		if isLit(i) && isLit(j) {
			a = a.Args[0]
			continue
		}
		if i.S == SRef && distinctRefs(i, j) {
			a = a.Args[0]
			continue
		}
		if i.S == SInt {
			l := linOf(i)
			l.add(j, big.NewInt(-1))
			if d := l.term(); d.num != nil && d.num.Sign() != 0 {
				a = a.Args[0]
				continue
			}
		}
		break
	}
	return mk("select", arrElem(a.S), a, i)
}

func Store(a, i, v *Term) *Term {
	if arrElem(a.S) != v.S || arrKey(a.S) != i.S {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.S, i.S, v.S))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.S, a, i, v)
}

func Quant(q string, vars []*Term, trig [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	// drop unused variables
	used := map[int]bool{}
	for _, f := range body.free {
		used[f] = true
	}
	var vs []*Term
	for _, v := range vars {
		if used[v.id] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return intern(&Term{Op: q, S: SBool, Args: []*Term{body}, Vars: vs, Trig: trig})
}
func Forall(vars []*Term, trig [][]*Term, body *Term) *Term { return Quant("forall", vars, trig, body) }
func Exists(vars []*Term, trig [][]*Term, body *Term) *Term { return Quant("exists", vars, trig, body) }

// Datatype construction and selection.
func MkDT(d *Datatype, args ...*Term) *Term {
	for i, a := range args {
		if a.S != d.Sorts[i] {
			panic(fmt.Sprintf("ctor %s field %s: %s vs %s", d.Ctor, d.Fields[i], a.S, d.Sorts[i]))
		}
	}
	// eta: mk(f1(x),f2(x),...) = x
	if len(args) > 0 {
		var base *Term
		ok := true
		for i, a := range args {
			if a.Op != d.Fields[i] || len(a.Args) != 1 {
				ok = false
				break
			}
			if base == nil {
				base = a.Args[0]
			} else if base != a.Args[0] {
				ok = false
				break
			}
		}
		if ok && base != nil {
			return base
		}
	}
	return mk(d.Ctor, d.S, args...)
}
func SelDT(d *Datatype, i int, x *Term) *Term {
	if x.Op == d.Ctor && len(x.Args) == len(d.Fields) {
		return x.Args[i]
	}
	if x.Op == "ite" && len(x.Args) == 3 {
		a, b := x.Args[1], x.Args[2]
		if a.Op == d.Ctor || b.Op == d.Ctor || a.Op == "ite" || b.Op == "ite" {
			return Ite(x.Args[0], SelDT(d, i, a), SelDT(d, i, b))
		}
	}
	return mk(d.Fields[i], d.Sorts[i], x)
}

var sliceDT = &Datatype{S: SSl, Ctor: "mkSlice", Fields: []string{"s.arr", "s.off", "s.len", "s.cap"}, Sorts: []Sort{SRef, SInt, SInt, SInt}}

func init() { declDatatype(sliceDT) }

func MkSlice(arr, off, ln, cp *Term) *Term { return MkDT(sliceDT, arr, off, ln, cp) }
func SlArr(s *Term) *Term                  { return SelDT(sliceDT, 0, s) }
func SlOff(s *Term) *Term                  { return SelDT(sliceDT, 1, s) }
func SlLen(s *Term) *Term                  { return SelDT(sliceDT, 2, s) }
func SlCap(s *Term) *Term                  { return SelDT(sliceDT, 3, s) }

// substitution of constants/bound vars
func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		var trig [][]*Term
		for _, tr := range t.Trig {
			var n []*Term
			for _, x := range tr {
				y := rec(x)
				if y != x {
					ch = true
				}
				n = append(n, y)
			}
			trig = append(trig, n)
		}
		if !ch {
			memo[t] = t
			return t
		}
		r := rebuild(t, args, trig)
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, trig [][]*Term) *Term {
	if len(t.Vars) > 0 {
		return Quant(t.Op, t.Vars, trig, args[0])
	}
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "+":
		if t.S == SInt {
			r := args[0]
			for _, a := range args[1:] {
				r = Add(r, a)
			}
			return r
		}
	case "*":
		if t.S == SInt && len(args) == 2 {
			return Mul(args[0], args[1])
		}
	}
	if d, ok := dtCtor[t.Op]; ok && len(args) == len(d.Fields) {
		return MkDT(d, args...)
	}
	if i, ok := dtSel[t.Op]; ok && len(args) == 1 {
		return SelDT(datatypes[args[0].S], i, args[0])
	}
	return mk(t.Op, t.S, args...)
}

// String prints without sharing (debugging).
func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	return sb.String()
}

func quoteSym(s string) string {
	if s == "" {
		return "||"
	}
	if s[0] == '(' || s[0] == '#' {
		return s
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.$!@^<>~=+-*/?%&", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func printTerm(sb *strings.Builder, t *Term, names map[*Term]string) {
	if n, ok := names[t]; ok {
		sb.WriteString(n)
		return
	}
	if len(t.Vars) > 0 {
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + quoteSym(v.Op) + " " + string(v.S) + ")")
		}
		sb.WriteString(") ")
		if len(t.Trig) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.Args[0], names)
		for _, tr := range t.Trig {
			sb.WriteString(" :pattern (")
			for i, x := range tr {
				if i > 0 {
					sb.WriteByte(' ')
				}
				printTerm(sb, x, names)
			}
			sb.WriteString(")")
		}
		if len(t.Trig) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(quoteSym(t.Op))
		return
	}
	sb.WriteString("(")
	sb.WriteString(quoteSym(t.Op))
	for _, a := range t.Args {
		sb.WriteByte(' ')
		printTerm(sb, a, names)
	}
	sb.WriteString(")")
}
