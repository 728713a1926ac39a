package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// GArr is a ghost total map type (an SMT array), used in specifications only.
type GArr struct{ K, V types.Type }

func (g *GArr) Underlying() types.Type { return g }
func (g *GArr) String() string         { return "map<" + tkey(g.K) + "," + tkey(g.V) + ">" }

// GNamed is a built-in ghost type.
type GNamed struct {
	N string
	S Sort
}

func (g *GNamed) Underlying() types.Type { return g }
func (g *GNamed) String() string         { return g.N }

var (
	TReal = &GNamed{"real", SReal}
	TRef  = &GNamed{"ref", SRef}
	TMath = &GNamed{"mathint", SInt}
	TInt  = types.Typ[types.Int]
	TBool = types.Typ[types.Bool]
	TByte = types.Universe.Lookup("byte").Type()
	TStr  = types.Typ[types.String]
)

var tctx = types.NewContext()

type TSubst map[*types.TypeParam]types.Type

func substT(t types.Type, m TSubst) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := m[x]; ok {
			return r
		}
		return x
	case *types.Alias:
		return substT(types.Unalias(x), m)
	case *types.Pointer:
		e := substT(x.Elem(), m)
		if e == x.Elem() {
			return x
		}
		return types.NewPointer(e)
	case *types.Slice:
		e := substT(x.Elem(), m)
		if e == x.Elem() {
			return x
		}
		return types.NewSlice(e)
	case *types.Array:
		e := substT(x.Elem(), m)
		if e == x.Elem() {
			return x
		}
		return types.NewArray(e, x.Len())
	case *types.Chan:
		e := substT(x.Elem(), m)
		if e == x.Elem() {
			return x
		}
		return types.NewChan(x.Dir(), e)
	case *types.Map:
		k, e := substT(x.Key(), m), substT(x.Elem(), m)
		if k == x.Key() && e == x.Elem() {
			return x
		}
		return types.NewMap(k, e)
	case *types.Named:
		if x.TypeArgs().Len() == 0 {
			return x
		}
		var args []types.Type
		ch := false
		for i := 0; i < x.TypeArgs().Len(); i++ {
			a := x.TypeArgs().At(i)
			b := substT(a, m)
			if a != b {
				ch = true
			}
			args = append(args, b)
		}
		if !ch {
			return x
		}
		r, err := types.Instantiate(tctx, x.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, substTuple(x.Params(), m), substTuple(x.Results(), m), x.Variadic())
	case *types.Tuple:
		return substTuple(x, m)
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		ch := false
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			ft := substT(f.Type(), m)
			if ft != f.Type() {
				ch = true
			}
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), ft, f.Embedded()))
			tags = append(tags, x.Tag(i))
		}
		if !ch {
			return x
		}
		return types.NewStruct(fs, tags)
	case *GArr:
		return &GArr{substT(x.K, m), substT(x.V, m)}
	}
	return t
}

func substTuple(t *types.Tuple, m TSubst) *types.Tuple {
	if t == nil {
		return nil
	}
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		v := t.At(i)
		vs = append(vs, types.NewParam(v.Pos(), v.Pkg(), v.Name(), substT(v.Type(), m)))
	}
	return types.NewTuple(vs...)
}

// tkey is a stable textual key for a type.
func tkey(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.TypeParam:
		return x.Obj().Name()
	case *types.Pointer:
		return "*" + tkey(x.Elem())
	case *types.Slice:
		return "[]" + tkey(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), tkey(x.Elem()))
	case *types.Map:
		return "map[" + tkey(x.Key()) + "]" + tkey(x.Elem())
	case *types.Chan:
		return "chan[" + tkey(x.Elem()) + "]"
	case *types.Named:
		n := x.Obj().Name()
		if x.Obj().Pkg() != nil {
			n = pkgShort(x.Obj().Pkg().Path()) + "." + n
		}
		if x.TypeArgs().Len() > 0 {
			var as []string
			for i := 0; i < x.TypeArgs().Len(); i++ {
				as = append(as, tkey(x.TypeArgs().At(i)))
			}
			n += "[" + strings.Join(as, ",") + "]"
		} else if x.TypeParams().Len() > 0 {
			var as []string
			for i := 0; i < x.TypeParams().Len(); i++ {
				as = append(as, tkey(x.TypeParams().At(i)))
			}
			n += "[" + strings.Join(as, ",") + "]"
		}
		return n
	case *types.Basic:
		if x.Kind() == types.Uint8 {
			return "byte"
		}
		if x.Kind() == types.Int32 {
			return "int32"
		}
		return x.Name()
	case *types.Interface:
		if x.NumMethods() == 0 {
			return "any"
		}
		return x.String()
	case *types.Struct:
		var as []string
		for i := 0; i < x.NumFields(); i++ {
			as = append(as, x.Field(i).Name()+" "+tkey(x.Field(i).Type()))
		}
		return "struct{" + strings.Join(as, ";") + "}"
	case *GArr:
		return x.String()
	case *GNamed:
		return x.N
	case *types.Signature:
		var ps, rs []string
		for i := 0; i < x.Params().Len(); i++ {
			ps = append(ps, tkey(x.Params().At(i).Type()))
		}
		for i := 0; i < x.Results().Len(); i++ {
			rs = append(rs, tkey(x.Results().At(i).Type()))
		}
		return "func(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
	}
	return t.String()
}

func pkgShort(p string) string {
	const mod = "github.com/miniLCT/gosb/"
	if p == modPath+"/gogenerics/gconcurrent/sync" {
		return "gsync"
	}
	if strings.HasPrefix(p, mod) {
		p = p[strings.LastIndex(p, "/")+1:]
		return p
	}
	return p
}

// under is the underlying type, seeing through a core-type constraint of a type parameter.
func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		if c := coreType(tp); c != nil {
			return c
		}
		return tp
	}
	return t.Underlying()
}

func coreType(tp *types.TypeParam) types.Type {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var core types.Type
	n := 0
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		e := iface.EmbeddedType(i)
		switch u := e.(type) {
		case *types.Union:
			for j := 0; j < u.Len(); j++ {
				core = u.Term(j).Type().Underlying()
				n++
			}
		default:
			if _, isI := e.Underlying().(*types.Interface); isI {
				return nil
			}
			core = e.Underlying()
			n++
		}
	}
	if n == 1 {
		return core
	}
	return nil
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func isMutex(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

func isAtomicPtr(t types.Type) (types.Type, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Pointer" && n.TypeArgs().Len() == 1 {
		return types.NewPointer(n.TypeArgs().At(0)), true
	}
	return nil, false
}

// atomicElem gives the content type of a sync/atomic box.
func atomicElem(t types.Type) (types.Type, bool) {
	if e, ok := isAtomicPtr(t); ok {
		return e, true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" {
		switch n.Obj().Name() {
		case "Int64":
			return types.Typ[types.Int64], true
		case "Int32":
			return types.Typ[types.Int32], true
		case "Uint32":
			return types.Typ[types.Uint32], true
		case "Uint64":
			return types.Typ[types.Uint64], true
		case "Bool":
			return TBool, true
		case "Value":
			return types.NewInterfaceType(nil, nil), true
		}
	}
	return nil, false
}

// inMod: a struct type of this module (or an anonymous struct), represented field by field.
func isStructVal(t types.Type) (*types.Struct, bool) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if isNamed(t, "sync", "Pool") || isNamed(t, "sync", "noCopy") || isNamed(t, "bytes", "Buffer") || isNamed(t, "container/list", "List") || isNamed(t, "container/list", "Element") || isNamed(t, "strings", "Builder") {
			s, ok := t.Underlying().(*types.Struct)
			return s, ok
		}
		if n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/miniLCT/gosb") {
			return nil, false
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func intRange(b *types.Basic) (lo, hi *big.Int, signed bool, w uint, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		w, signed = 64, true
	case types.Int32:
		w, signed = 32, true
	case types.Int16:
		w, signed = 16, true
	case types.Int8:
		w, signed = 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		w = 64
	case types.Uint32:
		w = 32
	case types.Uint16:
		w = 16
	case types.Uint8:
		w = 8
	default:
		return nil, nil, false, 0, false
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, w-1), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, w-1))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
	}
	return lo, hi, signed, w, true
}

// sortOf maps a Go (or ghost) type to its SMT sort.
func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *GArr:
		return Arr(sortOf(x.K), sortOf(x.V))
	case *GNamed:
		return x.S
	case *types.TypeParam:
		if c := coreType(x); c != nil {
			return sortOf(c)
		}
		return declSort(Sort("TP_" + x.Obj().Name()))
	}
	if isNamed(t, "time", "Time") {
		return SInt
	}
	if isMutex(t) {
		return SInt
	}
	if e, ok := atomicElem(t); ok {
		return sortOf(e)
	}
	if isNamed(t, "reflect", "Value") {
		return declSort(Sort("O_" + sanitize(tkey(t))))
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return SBool
		case x.Kind() == types.Uint8:
			return SBV8
		case x.Info()&types.IsInteger != 0:
			return SInt
		case x.Info()&types.IsFloat != 0:
			return SReal
		case x.Info()&types.IsString != 0:
			return SStr
		case x.Kind() == types.UntypedNil:
			return SRef
		case x.Kind() == types.UnsafePointer:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Slice:
		return SSl
	case *types.Array:
		return Arr(SInt, sortOf(x.Elem()))
	case *types.Signature:
		return SFn
	case *types.Interface:
		return SAny
	case *types.Struct:
		return structSort(t, x)
	case *types.Tuple:
		return "Tuple"
	}
	panic(fmt.Sprintf("no sort for type %s", t))
}

func structSort(t types.Type, st *types.Struct) Sort {
	k := sanitize(tkey(t))
	s := Sort("S_" + k)
	if len(string(k)) > 0 {
		if _, ok := datatypes[s]; ok {
			return s
		}
	}
	if st.NumFields() == 0 {
		d := &Datatype{S: "Unit", Ctor: "unit"}
		declDatatype(d)
		return "Unit"
	}
	if _, ok := isStructVal(t); !ok {
		return declSort(s)
	}
	d := &Datatype{S: s, Ctor: "mk_" + k}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		d.Fields = append(d.Fields, "f_"+k+"."+f.Name())
		d.Sorts = append(d.Sorts, sortOf(f.Type()))
	}
	declDatatype(d)
	return s
}

// zeroOf is the zero value of a type.
func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.TypeParam:
		if coreType(x) == nil {
			return Const("zero_"+string(sortOf(x)), sortOf(x))
		}
		return zeroOf(coreType(x))
	case *GArr:
		return zeroArr(sortOf(x), zeroOf(x.V))
	case *GNamed:
		switch x.S {
		case SReal:
			return mk("0.0", SReal)
		case SRef:
			return Null
		case SInt:
			return IntLit(0)
		case SStr:
			return Const("str.empty", SStr)
		}
		return Const("zero_"+sanitize(string(x.S)), x.S)
	}
	s := sortOf(t)
	return zeroSort(t, s)
}

func zeroSort(t types.Type, s Sort) *Term {
	switch s {
	case SInt:
		if isNamed(t, "time", "Time") {
			return Const("time.zero", SInt)
		}
		return IntLit(0)
	case SBool:
		return False
	case SBV8:
		return BVLit(0)
	case SReal:
		return mk("0.0", SReal)
	case SRef:
		return Null
	case SStr:
		return Const("str.empty", SStr)
	case SAny:
		return Const("any.nil", SAny)
	case SFn:
		return Const("fn.nil", SFn)
	case SSl:
		return MkSlice(Null, IntLit(0), IntLit(0), IntLit(0))
	}
	if e, ok := atomicElem(t); ok {
		return zeroOf(e)
	}
	if isArr(s) {
		if a, ok := under(t).(*types.Array); ok {
			return zeroArr(s, zeroOf(a.Elem()))
		}
	}
	if d, ok := datatypes[s]; ok {
		st, ok := under(t).(*types.Struct)
		if ok {
			var args []*Term
			for i := 0; i < st.NumFields(); i++ {
				args = append(args, zeroOf(st.Field(i).Type()))
			}
			return MkDT(d, args...)
		}
	}
	return Const("zero_"+sanitize(string(s)), s)
}

var zeroArrs = map[string]*Term{}

// zeroArr is an array constant all of whose elements are z.
func zeroArr(s Sort, z *Term) *Term {
	n := fmt.Sprintf("zeroarr_%s_%d", sanitize(string(s)), z.id)
	if c, ok := zeroArrs[n]; ok {
		return c
	}
	c := Const(n, s)
	zeroArrs[n] = c
	i := BoundVar("i", arrKey(s))
	sel := mk("select", arrElem(s), c, i)
	addAxiom("zero array", []string{n}, Forall([]*Term{i}, [][]*Term{{sel}}, Eq(sel, z)))
	return c
}

type Axiom struct {
	Name string
	Need []string // emitted when one of these symbols occurs
	T    *Term
}

var axioms []*Axiom
var axSeen = map[string]bool{}

func addAxiom(name string, need []string, t *Term) {
	k := name + "/" + strings.Join(need, ",")
	if axSeen[k] {
		return
	}
	axSeen[k] = true
	axioms = append(axioms, &Axiom{name, need, t})
}
