package main

import (
	"go/ast"
	"go/types"
	"reflect"
	"strings"
)

// encoding/json on records of this module: a record is encoded field by field under the names of its fields.
// The text of a field's value is not described; reading the field of a text back gives what was written
// (for values that survive the encoding, which contracts that use it have to say).
// jsonField(text, F, ty(T)) in contracts is the value of field F in the text.

func jsonField(text *Term, name string, ty types.Type) *Term {
	return App(sanitize("json$"+name+"$"+tkey(ty)), sortOf(ty), text)
}

// jsonName: the name under which a field is encoded, "" if it is not.
func jsonName(s *types.Struct, i int) string {
	f := s.Field(i)
	if !f.Exported() || f.Embedded() {
		return ""
	}
	name := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]
	if name == "-" {
		return ""
	}
	if name == "" {
		name = f.Name()
	}
	return name
}

func (x *Exec) jsonCall(fr *Frame, st *State, name string, args []Val, n *ast.CallExpr) ([]SVs, bool) {
	bytesT := types.NewSlice(types.Typ[types.Byte])
	errT := types.Universe.Lookup("error").Type()
	why := "encoding/json: a record is encoded field by field; decoding a text gives the fields it holds (no text of a cache file is null)"
	switch name {
	case "Marshal", "MarshalIndent":
		ty := args[0].Ty
		rec := args[0].T
		if p, ok := under(ty).(*types.Pointer); ok {
			ty = p.Elem()
			if _, ok := isStructVal(ty); ok {
				rec = x.loadObj(st, rec, ty)
			}
		}
		s, ok := isStructVal(ty)
		if !ok {
			return nil, false
		}
		x.notes[why] = true
		d := datatypes[sortOf(ty)]
		ref := x.newObj(st, "json")
		m := memComp(types.Typ[types.Byte])
		x.put(st, m, ref, Store(x.get(st, m), ref, NewConst("jsontext", arrElem(m.s))))
		l := NewConst("jsonlen", SInt)
		st.assume(Le(IntLit(1), l))
		st.assume(Lt(l, IntLit(1<<40)))
		sl := MkSlice(ref, IntLit(0), l, l)
		err := NewConst("err", sortOf(errT))
		text := bytesStr(Select(x.get(st, m), SlArr(sl)), SlOff(sl), SlLen(sl))
		good := []*Term{App("jsonOK", SBool, text)}
		for i := 0; i < s.NumFields(); i++ {
			if nm := jsonName(s, i); nm != "" {
				good = append(good, Eq(jsonField(text, nm, s.Field(i).Type()), SelDT(d, i, rec)))
			}
		}
		st.assume(Implies(Eq(err, zeroOf(errT)), And(good...)))
		return []SVs{{st, []Val{{T: sl, Ty: bytesT}, {T: err, Ty: errT}}}}, true
	case "Unmarshal":
		pt, ok := under(args[1].Ty).(*types.Pointer)
		if !ok {
			return nil, false
		}
		ref, ty := args[1].T, pt.Elem()
		if p, ok := under(ty).(*types.Pointer); ok {
			ref = x.load(st, x.boxPlace(args[1], ty)).T
			ty = p.Elem()
			x.check(st, Not(Eq(ref, Null)), "nil", "json.Unmarshal into a record that is there", n, nil)
		}
		s, ok := isStructVal(ty)
		if !ok || ref == nil {
			return nil, false
		}
		x.notes[why] = true
		text := bytesStr(Select(x.get(st, memComp(types.Typ[types.Byte])), SlArr(args[0].T)), SlOff(args[0].T), SlLen(args[0].T))
		err := NewConst("err", sortOf(errT))
		ok1 := Eq(err, zeroOf(errT))
		st.assume(Eq(ok1, App("jsonOK", SBool, text)))
		for i := 0; i < s.NumFields(); i++ {
			nm := jsonName(s, i)
			if nm == "" {
				continue
			}
			ft := s.Field(i).Type()
			v := NewConst("json"+nm, sortOf(ft))
			x.assumeType(st, v, ft)
			x.store(st, fieldPlace(ref, ty, s.Field(i)), Val{T: v, Ty: ft})
			st.assume(Implies(ok1, Eq(v, jsonField(text, nm, ft))))
		}
		return []SVs{{st, []Val{{T: err, Ty: errT}}}}, true
	}
	return nil, false
}
