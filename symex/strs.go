package main

import (
	"go/token"
	"unicode/utf8"
)

// Symbolic strings are sequences of code points; the length and bytes of the UTF-8 encoding are
// derived on demand.

type strIter struct {
	es  []strElem
	i   int
	off Value
}

func (bd *Builder) runeLen(e *Expr, w uint8) *Expr {
	c := func(v uint64) *Expr { return bd.Const(v, w) }
	lt := func(v uint64) *Expr { return bd.Cmp(OpUlt, e, bd.Const(v, 32)) }
	return bd.Ite(lt(0x80), c(1), bd.Ite(lt(0x800), c(2), bd.Ite(lt(0x10000), c(3), c(4))))
}

func elemLenC(e strElem) int {
	if e.r >= badByte {
		return 1
	}
	return utf8.RuneLen(rune(e.r))
}

func (t *Thread) elemLen(e strElem) Value {
	if e.e == nil {
		return intVal(elemLenC(e))
	}
	return fromExpr(t.p.bd.runeLen(e.e, 64), true)
}

func (t *Thread) addInt(a, b Value) Value {
	if a.ref == nil && b.ref == nil {
		return Value{n: a.n + b.n}
	}
	bd := t.p.bd
	return fromExpr(bd.Bin(OpAdd, bd.toExpr(a, 64), bd.toExpr(b, 64)), true)
}

func (e strElem) rune() Value {
	if e.e != nil {
		return Value{ref: e.e}
	}
	if e.r >= badByte {
		return Value{n: utf8.RuneError}
	}
	return Value{n: uint64(int64(e.r))}
}

func (it *strIter) next(t *Thread) Value {
	if it.i >= len(it.es) {
		return tuple(Value{}, Value{}, Value{})
	}
	e := it.es[it.i]
	it.i++
	off := it.off
	it.off = t.addInt(it.off, t.elemLen(e))
	return tuple(Value{n: 1}, off, e.rune())
}

func (t *Thread) strLen(v Value) Value {
	if s, ok := isStr(v); ok {
		return intVal(len(s))
	}
	r := Value{}
	for _, e := range strElems(v) {
		r = t.addInt(r, t.elemLen(e))
	}
	return r
}

// elemBytes returns the encoding of one element, forking on its length.
func (t *Thread) elemBytes(e strElem) []Value {
	if e.e == nil {
		if e.r >= badByte {
			return []Value{{n: uint64(e.r & 0xff)}}
		}
		var out []Value
		for _, b := range []byte(string(rune(e.r))) {
			out = append(out, Value{n: uint64(b)})
		}
		return out
	}
	p, bd := t.p, t.p.bd
	x := e.e
	part := func(sh uint64, m, or uint64) Value {
		y := x
		if sh > 0 {
			y = bd.Bin(OpLshr, y, bd.Const(sh, 32))
		}
		if m != 0 {
			y = bd.Bin(OpAnd, y, bd.Const(m, 32))
		}
		if or != 0 {
			y = bd.Bin(OpOr, y, bd.Const(or, 32))
		}
		return fromExpr(bd.Trunc(y, 8), false)
	}
	if p.branchAt(t, bd.Cmp(OpUlt, x, bd.Const(0x80, 32))) {
		return []Value{part(0, 0, 0)}
	}
	if p.branchAt(t, bd.Cmp(OpUlt, x, bd.Const(0x800, 32))) {
		return []Value{part(6, 0, 0xC0), part(0, 0x3F, 0x80)}
	}
	if p.branchAt(t, bd.Cmp(OpUlt, x, bd.Const(0x10000, 32))) {
		return []Value{part(12, 0, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []Value{part(18, 0, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
}

func (t *Thread) strBytes(v Value) []Value {
	if s, ok := isStr(v); ok {
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Value{n: uint64(s[i])}
		}
		return out
	}
	out := []Value{}
	for _, e := range strElems(v) {
		out = append(out, t.elemBytes(e)...)
	}
	return out
}

func (t *Thread) strIndex(v, iv Value, iw uint8, isgn bool) Value {
	if s, ok := isStr(v); ok {
		i := t.index(iv, iw, isgn, len(s))
		return Value{n: uint64(s[i])}
	}
	i := int(int64(t.concInt(iv, iw, isgn)))
	if i < 0 {
		t.rtPanic("index out of range")
	}
	k := 0
	for _, e := range strElems(v) {
		b := t.elemBytes(e)
		if i < k+len(b) {
			return b[i-k]
		}
		k += len(b)
	}
	t.rtPanic("index out of range")
	return Value{}
}

// strSlice returns s[l:h] (h < 0: to the end).
func (t *Thread) strSlice(v Value, l, h int) Value {
	es := strElems(v)
	if l < 0 || h >= 0 && h < l {
		t.rtPanic("slice bounds out of range")
	}
	start, end := -1, -1
	k := 0
	for i := 0; ; i++ {
		if k == l && start < 0 {
			start = i
			if h < 0 {
				end = len(es)
				break
			}
		}
		if k == h {
			end = i
			break
		}
		if i == len(es) {
			t.rtPanic("slice bounds out of range")
		}
		k += len(t.elemBytes(es[i]))
		if k > l && start < 0 || h >= 0 && k > h {
			panic(unsupported("string cut inside a symbolic character"))
		}
	}
	return elemsToStr(es[start:end])
}

func (t *Thread) elemEq(a, b strElem) *Expr {
	bd := t.p.bd
	if a.e == nil && b.e == nil {
		return bd.Bool(a.r == b.r)
	}
	if a.e == nil && a.r >= badByte || b.e == nil && b.r >= badByte {
		return bd.False
	}
	x, y := a.e, b.e
	if x == nil {
		x = bd.Const(uint64(a.r), 32)
	}
	if y == nil {
		y = bd.Const(uint64(b.r), 32)
	}
	return bd.Cmp(OpEq, x, y)
}

func (t *Thread) strEq(a, b Value) Value {
	s, ok1 := isStr(a)
	u, ok2 := isStr(b)
	if ok1 && ok2 {
		return boolVal(s == u)
	}
	x, y := strElems(a), strElems(b)
	if len(x) != len(y) {
		return boolVal(false)
	}
	r := t.p.bd.True
	for i := range x {
		r = t.p.bd.And(r, t.elemEq(x[i], y[i]))
	}
	return fromBool(r)
}

func (t *Thread) strLess(op token.Token, a, b Value) Value {
	bd := t.p.bd
	x, y := strElems(a), strElems(b)
	lt := bd.Bool(len(x) < len(y))
	eq := bd.Bool(len(x) == len(y))
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	for i := n - 1; i >= 0; i-- {
		l, r := x[i].rune(), y[i].rune()
		c := bd.Cmp(OpUlt, bd.toExpr(l, 32), bd.toExpr(r, 32))
		e := bd.Cmp(OpEq, bd.toExpr(l, 32), bd.toExpr(r, 32))
		lt = bd.Or(c, bd.And(e, lt))
		eq = bd.And(e, eq)
	}
	switch op {
	case token.LSS:
		return fromBool(lt)
	case token.LEQ:
		return fromBool(bd.Or(lt, eq))
	case token.GTR:
		return fromBool(bd.Not(bd.Or(lt, eq)))
	}
	return fromBool(bd.Not(lt))
}

func (t *Thread) strToRunes(v Value) []Value {
	es := strElems(v)
	out := make([]Value, len(es), roundupsize(len(es)*4)/4)
	for i, e := range es {
		out[i] = e.rune()
	}
	return out
}

func validRuneExpr(e *Expr) bool {
	if e.rune_ {
		return true
	}
	switch e.op {
	case OpVar:
		return e.rune_
	case OpConst:
		return e.k < 0xD800 || e.k >= 0xE000 && e.k <= 0x10FFFF
	case OpIte:
		return validRuneExpr(e.b) && validRuneExpr(e.c)
	case OpZext:
		return e.a.w < 16
	}
	return false
}

// runeElem converts a rune value to a string element (invalid values become U+FFFD).
func (t *Thread) runeElem(v Value) strElem {
	bd := t.p.bd
	if e := v.sym(); e != nil {
		if !validRuneExpr(e) {
			lo := bd.Cmp(OpUlt, e, bd.Const(0xD800, 32))
			hi := bd.And(bd.Cmp(OpUle, bd.Const(0xE000, 32), e), bd.Cmp(OpUle, e, bd.Const(0x10FFFF, 32)))
			e = bd.Ite(bd.Or(lo, hi), e, bd.Const(0xFFFD, 32))
			if e.isConst() {
				return strElem{r: int32(e.k)}
			}
		}
		return strElem{e: e}
	}
	r := int64(v.n)
	if r < 0 || r >= 0xD800 && r < 0xE000 || r > utf8.MaxRune {
		r = utf8.RuneError
	}
	return strElem{r: int32(r)}
}

func (t *Thread) runesToStr(vs []Value) Value {
	es := make([]strElem, len(vs))
	for i := range vs {
		es[i] = t.runeElem(vs[i])
	}
	return elemsToStr(es)
}

func (t *Thread) bytesToStr(vs []Value) Value {
	conc := true
	for i := range vs {
		if vs[i].ref != nil {
			conc = false
		}
	}
	if conc {
		b := make([]byte, len(vs))
		for i := range vs {
			b[i] = byte(vs[i].n)
		}
		return strVal(string(b))
	}
	bd := t.p.bd
	var parts []Value
	for i := 0; i < len(vs); {
		if vs[i].ref == nil {
			j := i
			var b []byte
			for j < len(vs) && vs[j].ref == nil {
				b = append(b, byte(vs[j].n))
				j++
			}
			parts = append(parts, strVal(string(b)))
			i = j
			continue
		}
		e := vs[i].sym()
		if t.p.branchAt(t, bd.Cmp(OpUlt, e, bd.Const(0x80, 8))) {
			parts = append(parts, Value{ref: &SymStr{parts: []any{bd.Zext(e, 32)}}})
			i++
			continue
		}
		// the encoding of a symbolic character of two to four bytes
		n := 0
		for k, lim := range []uint64{0xE0, 0xF0, 0xF8} {
			lo := []uint64{0xC2, 0xE0, 0xF0}[k]
			if t.p.branchAt(t, bd.And(bd.Cmp(OpUle, bd.Const(lo, 8), e), bd.Cmp(OpUlt, e, bd.Const(lim, 8)))) {
				n = k + 2
				break
			}
		}
		if n == 0 || i+n > len(vs) {
			panic(unsupported("string from symbolic bytes"))
		}
		r := bd.Bin(OpAnd, bd.Zext(e, 32), bd.Const([]uint64{0x1F, 0x0F, 0x07}[n-2], 32))
		good := bd.Bool(true)
		for k := 1; k < n; k++ {
			c := bd.Const(vs[i+k].n, 8)
			if vs[i+k].ref != nil {
				c = vs[i+k].sym()
			}
			good = bd.And(good, bd.And(bd.Cmp(OpUle, bd.Const(0x80, 8), c), bd.Cmp(OpUlt, c, bd.Const(0xC0, 8))))
			r = bd.Bin(OpOr, bd.Bin(OpShl, r, bd.Const(6, 32)), bd.Bin(OpAnd, bd.Zext(c, 32), bd.Const(0x3F, 32)))
		}
		lo := []uint64{0x80, 0x800, 0x10000}[n-2]
		good = bd.And(good, bd.And(bd.Cmp(OpUle, bd.Const(lo, 32), r), bd.Cmp(OpUle, r, bd.Const(0x10FFFF, 32))))
		good = bd.And(good, bd.Or(bd.Cmp(OpUlt, r, bd.Const(0xD800, 32)), bd.Cmp(OpUle, bd.Const(0xE000, 32), r)))
		if !t.p.branchAt(t, good) {
			panic(unsupported("string from symbolic bytes"))
		}
		parts = append(parts, Value{ref: &SymStr{parts: []any{r}}})
		i += n
	}
	return concatStr(parts...)
}
