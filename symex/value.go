package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"
)

// Value is a (possibly symbolic) Go value.
//
//	ints, bools : n (sign- or zero-extended to 64 bits), or ref = *Expr when symbolic
//	floats      : n = bits (always concrete)
//	string      : ref = string | *SymStr (nil: "")
//	pointer     : ref = *Value (nil: nil pointer)
//	slice       : ref = []Value (nil: nil slice)
//	array,struct: ref = *Agg
//	map         : ref = *MapObj
//	interface   : ref = *Iface
//	func        : ref = *Closure
//	tuple       : ref = *Agg
type Value struct {
	n   uint64
	ref any
}

type Agg struct {
	f   []Value
	ext any // state of natively modelled types (locks, builders)
}

type Iface struct {
	rt *RType
	v  Value
}

type Closure struct {
	fn   *Func
	free []Value
}

// RType is a canonical run-time type.
type RType struct {
	t    types.Type
	name string
	kind kind
	w    uint8
	sgn  bool
}

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kArray
	kStruct
	kMap
	kIface
	kFunc
	kChan
	kTuple
	kOther
)

func classify(t types.Type) (k kind, w uint8, sgn bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool, 0, false
		case types.Int, types.Int64, types.UntypedInt:
			return kInt, 64, true
		case types.Int8:
			return kInt, 8, true
		case types.Int16:
			return kInt, 16, true
		case types.Int32, types.UntypedRune:
			return kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			return kInt, 64, false
		case types.Uint8:
			return kInt, 8, false
		case types.Uint16:
			return kInt, 16, false
		case types.Uint32:
			return kInt, 32, false
		case types.String, types.UntypedString:
			return kString, 0, false
		case types.Float32:
			return kFloat, 32, true
		case types.Float64, types.UntypedFloat:
			return kFloat, 64, true
		case types.UnsafePointer:
			return kPtr, 0, false
		case types.UntypedNil:
			return kPtr, 0, false
		}
		return kOther, 0, false
	case *types.Pointer:
		return kPtr, 0, false
	case *types.Slice:
		return kSlice, 0, false
	case *types.Array:
		return kArray, 0, false
	case *types.Struct:
		return kStruct, 0, false
	case *types.Map:
		return kMap, 0, false
	case *types.Interface:
		return kIface, 0, false
	case *types.Signature:
		return kFunc, 0, false
	case *types.Chan:
		return kChan, 0, false
	case *types.Tuple:
		return kTuple, 0, false
	}
	return kOther, 0, false
}

func normInt(v uint64, w uint8, sgn bool) uint64 {
	if w == 64 {
		return v
	}
	if sgn {
		return uint64(sext(mask(v, w), w))
	}
	return mask(v, w)
}

func (v *Value) sym() *Expr {
	if v.ref == nil {
		return nil
	}
	e, _ := v.ref.(*Expr)
	return e
}

func boolVal(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func intVal(i int) Value { return Value{n: uint64(int64(i))} }

func strVal(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{ref: s}
}

func (bd *Builder) toExpr(v Value, w uint8) *Expr {
	if e := v.sym(); e != nil {
		return e
	}
	return bd.Const(v.n, w)
}

func fromExpr(e *Expr, sgn bool) Value {
	if e.isConst() {
		return Value{n: normInt(e.k, e.w, sgn && e.w != 0)}
	}
	return Value{ref: e}
}

func fromBool(e *Expr) Value {
	if e.isConst() {
		return Value{n: e.k}
	}
	return Value{ref: e}
}

func sliceOf(v Value) []Value {
	if v.ref == nil {
		return nil
	}
	return v.ref.([]Value)
}

func sliceVal(s []Value) Value {
	if s == nil {
		return Value{}
	}
	return Value{ref: s}
}

func tuple(vs ...Value) Value { return Value{ref: &Agg{f: vs}} }

// ---- strings ----

// strElem of a flattened symbolic string: a concrete rune, an invalid byte (0x200000|b), or an
// expression of width 32 known to be a valid Unicode scalar value.
type strElem struct {
	r int32
	e *Expr
}

const badByte = 0x200000

type SymStr struct {
	parts []any // string | *Expr | *SymStr
	flat  []strElem
}

func isStr(v Value) (string, bool) {
	if v.ref == nil {
		return "", true
	}
	s, ok := v.ref.(string)
	return s, ok
}

func flattenString(s string, out []strElem) []strElem {
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			out = append(out, strElem{r: int32(badByte | int(s[i]))})
			i++
			continue
		}
		out = append(out, strElem{r: r})
		i += n
	}
	return out
}

func (s *SymStr) elems() []strElem {
	if s.flat != nil {
		return s.flat
	}
	var out []strElem
	for _, p := range s.parts {
		switch p := p.(type) {
		case string:
			out = flattenString(p, out)
		case *Expr:
			out = append(out, strElem{e: p})
		case *SymStr:
			out = append(out, p.elems()...)
		}
	}
	s.flat = out
	return out
}

func strElems(v Value) []strElem {
	switch s := v.ref.(type) {
	case nil:
		return nil
	case string:
		return flattenString(s, nil)
	case *SymStr:
		return s.elems()
	}
	panic(fmt.Sprintf("strElems: %T", v.ref))
}

func elemsToStr(es []strElem) Value {
	allc := true
	for _, e := range es {
		if e.e != nil {
			allc = false
			break
		}
	}
	if allc {
		var b []byte
		for _, e := range es {
			if e.r >= badByte {
				b = append(b, byte(e.r))
			} else {
				b = utf8.AppendRune(b, e.r)
			}
		}
		return strVal(string(b))
	}
	return Value{ref: &SymStr{flat: append([]strElem(nil), es...)}}
}

func concatStr(vs ...Value) Value {
	allc := true
	n := 0
	for i := range vs {
		if vs[i].ref == nil {
			continue
		}
		if s, ok := vs[i].ref.(string); ok {
			n += len(s)
		} else {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, 0, n)
		for i := range vs {
			if s, ok := vs[i].ref.(string); ok {
				b = append(b, s...)
			}
		}
		return strVal(string(b))
	}
	r := &SymStr{}
	for i := range vs {
		if vs[i].ref != nil {
			r.parts = append(r.parts, vs[i].ref)
		}
	}
	if len(r.parts) == 1 {
		return Value{ref: r.parts[0]}
	}
	return Value{ref: r}
}

// ---- maps ----

type MapObj struct {
	keys []Value
	vals []*Value
	live []bool
	n    int
	idx  map[any]int // concrete scalar keys
	symk bool        // some key is symbolic
}

func newMap() *MapObj { return &MapObj{idx: map[any]int{}} }

// concKey returns a Go map key for a concrete scalar key value.
func concKey(k kind, v Value) (any, bool) {
	switch k {
	case kInt, kBool:
		if v.sym() != nil {
			return nil, false
		}
		return v.n, true
	case kString:
		s, ok := isStr(v)
		return s, ok
	case kPtr:
		if v.ref == nil {
			return nil, true
		}
		p, ok := v.ref.(*Value)
		return p, ok
	}
	return nil, false
}
