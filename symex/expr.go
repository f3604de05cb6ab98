package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Expressions are hash-consed bit-vector / boolean terms. Every worker owns its own Builder,
// so no locking is needed.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLshr
	OpAshr
	OpCom
	OpNeg
	OpZext
	OpSext
	OpTrunc
	OpIte
	// boolean results
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBNot
	OpBAnd
	OpBOr
)

// Expr: w is the width in bits, 0 for Bool.
type Expr struct {
	op      Op
	w       uint8
	rune_   bool // a variable known to be a valid Unicode scalar value
	a, b, c *Expr
	k       uint64
	id      uint32
	size    uint32
	vars    []int32
	text    string
	named   bool
	gen     uint32
	ev      uint64
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

type Builder struct {
	cases map[*Expr]caseMap // expressions that are unicode.To of another
	tab   map[ekey]*Expr
	next  uint32
	gen   uint32
	True  *Expr
	False *Expr
}

func NewBuilder() *Builder {
	b := &Builder{tab: map[ekey]*Expr{}}
	b.next = 1
	b.True = b.mk(OpConst, 0, nil, nil, nil, 1)
	b.False = b.mk(OpConst, 0, nil, nil, nil, 0)
	return b
}

func idOf(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func mask(v uint64, w uint8) uint64 {
	switch w {
	case 0:
		return v & 1
	case 64:
		return v
	}
	return v & (1<<w - 1)
}

func sext(v uint64, w uint8) int64 {
	if w == 64 || w == 0 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// quick subset checks
	i, j := 0, 0
	aSub, bSub := true, true
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			aSub = false
			i++
		} else {
			bSub = false
			j++
		}
	}
	if i < len(a) {
		aSub = false
	}
	if j < len(b) {
		bSub = false
	}
	if aSub {
		return b
	}
	if bSub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			out = append(out, b[j])
			j++
		case j == len(b):
			out = append(out, a[i])
			i++
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	return out
}

func (bd *Builder) mk(op Op, w uint8, a, b, c *Expr, k uint64) *Expr {
	key := ekey{op, w, idOf(a), idOf(b), idOf(c), k}
	if e, ok := bd.tab[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: c, k: k, id: bd.next, size: 1}
	bd.next++
	for _, x := range [3]*Expr{a, b, c} {
		if x != nil {
			e.vars = mergeVars(e.vars, x.vars)
			e.size += x.size
			if e.size > 1<<24 {
				e.size = 1 << 24
			}
		}
	}
	bd.tab[key] = e
	return e
}

// Var returns the i-th variable of a path, of the given width.
func (bd *Builder) Var(i int, w uint8, isRune bool) *Expr {
	k := uint64(i) << 1
	if isRune {
		k |= 1
	}
	e := bd.mk(OpVar, w, nil, nil, nil, k)
	if e.vars == nil {
		e.vars = []int32{int32(i)}
		e.rune_ = isRune
	}
	return e
}

func (bd *Builder) Const(v uint64, w uint8) *Expr {
	return bd.mk(OpConst, w, nil, nil, nil, mask(v, w))
}

func (bd *Builder) Bool(b bool) *Expr {
	if b {
		return bd.True
	}
	return bd.False
}

func (e *Expr) isConst() bool { return e.op == OpConst }

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OpAdd:
		return mask(x+y, w), true
	case OpSub:
		return mask(x-y, w), true
	case OpMul:
		return mask(x*y, w), true
	case OpUDiv:
		if y == 0 {
			return mask(^uint64(0), w), true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1, true
			}
			return mask(^uint64(0), w), true
		}
		if sext(y, w) == -1 {
			return mask(-x, w), true
		}
		return mask(uint64(sext(x, w)/sext(y, w)), w), true
	case OpSRem:
		if y == 0 {
			return x, true
		}
		if sext(y, w) == -1 {
			return 0, true
		}
		return mask(uint64(sext(x, w)%sext(y, w)), w), true
	case OpAnd:
		return x & y, true
	case OpOr:
		return x | y, true
	case OpXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return mask(x<<y, w), true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return mask(uint64(sext(x, w)>>y), w), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OpEq:
		return x == y
	case OpUlt:
		return x < y
	case OpUle:
		return x <= y
	case OpSlt:
		return sext(x, w) < sext(y, w)
	case OpSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func (bd *Builder) Bin(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch %d %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		v, _ := evalBin(op, w, a.k, b.k)
		return bd.Const(v, w)
	}
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch {
		case b.k == 0 && (op == OpAdd || op == OpSub || op == OpOr || op == OpXor || op == OpShl || op == OpLshr || op == OpAshr):
			return a
		case b.k == 0 && (op == OpMul || op == OpAnd):
			return b
		case b.k == 1 && op == OpMul:
			return a
		case op == OpAnd && b.k == mask(^uint64(0), w):
			return a
		case op == OpSub:
			return bd.Bin(OpAdd, a, bd.Const(-b.k, w))
		case op == OpAdd && a.op == OpAdd && a.b.isConst():
			return bd.Bin(OpAdd, a.a, bd.Const(a.b.k+b.k, w))
		}
	}
	if op == OpSub && a == b {
		return bd.Const(0, w)
	}
	return bd.mk(op, w, a, b, nil, 0)
}

func (bd *Builder) Cmp(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp width mismatch %d %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return bd.Bool(evalCmp(op, w, a.k, b.k))
	}
	if a == b {
		return bd.Bool(op == OpEq || op == OpUle || op == OpSle)
	}
	if len(bd.cases) > 0 && w == 32 {
		if r := bd.caseCmp(op, a, b); r != nil {
			return r
		}
	}
	if op == OpEq {
		if w == 0 {
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() {
				if b.k == 1 {
					return a
				}
				return bd.Not(a)
			}
		}
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OpZext:
				if b.k != mask(b.k, a.a.w) {
					return bd.False
				}
				return bd.Cmp(OpEq, a.a, bd.Const(b.k, a.a.w))
			case OpSext:
				if mask(uint64(sext(mask(b.k, a.a.w), a.a.w)), w) != b.k {
					return bd.False
				}
				return bd.Cmp(OpEq, a.a, bd.Const(b.k, a.a.w))
			case OpIte:
				if a.b.isConst() && a.c.isConst() {
					t, f := a.b.k == b.k, a.c.k == b.k
					switch {
					case t && f:
						return bd.True
					case t:
						return a.a
					case f:
						return bd.Not(a.a)
					default:
						return bd.False
					}
				}
			case OpAdd:
				if a.b.isConst() {
					return bd.Cmp(OpEq, a.a, bd.Const(b.k-a.b.k, w))
				}
			}
		}
	}
	if a.op == OpSext && (op == OpSlt || op == OpSle) {
		if b.isConst() {
			iw := a.a.w
			v := sext(b.k, w)
			lo, hi := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
			if v < lo {
				return bd.False
			}
			if v > hi {
				return bd.True
			}
			return bd.Cmp(op, a.a, bd.Const(uint64(v), iw))
		}
		if b.op == OpSext && b.a.w == a.a.w {
			return bd.Cmp(op, a.a, b.a)
		}
	}
	if b.op == OpSext && (op == OpSlt || op == OpSle) && a.isConst() {
		iw := b.a.w
		v := sext(a.k, w)
		lo, hi := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
		if v < lo {
			return bd.True
		}
		if v > hi {
			return bd.False
		}
		return bd.Cmp(op, bd.Const(uint64(v), iw), b.a)
	}
	return bd.mk(op, 0, a, b, nil, 0)
}

func (bd *Builder) Not(a *Expr) *Expr {
	if a.isConst() {
		return bd.Bool(a.k == 0)
	}
	if a.op == OpBNot {
		return a.a
	}
	switch a.op {
	case OpUlt:
		return bd.mk(OpUle, 0, a.b, a.a, nil, 0)
	case OpUle:
		return bd.mk(OpUlt, 0, a.b, a.a, nil, 0)
	case OpSlt:
		return bd.mk(OpSle, 0, a.b, a.a, nil, 0)
	case OpSle:
		return bd.mk(OpSlt, 0, a.b, a.a, nil, 0)
	}
	return bd.mk(OpBNot, 0, a, nil, nil, 0)
}

func (bd *Builder) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if bd.Not(a) == b {
		return bd.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bd.mk(OpBAnd, 0, a, b, nil, 0)
}

func (bd *Builder) Or(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if bd.Not(a) == b {
		return bd.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bd.mk(OpBOr, 0, a, b, nil, 0)
}

func (bd *Builder) Ite(c, a, b *Expr) *Expr {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("Ite width")
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k == 1 {
				return bd.Or(c, b)
			}
			return bd.And(bd.Not(c), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return bd.Or(bd.Not(c), a)
			}
			return bd.And(c, a)
		}
	}
	if c.op == OpBNot {
		return bd.Ite(c.a, b, a)
	}
	return bd.mk(OpIte, a.w, c, a, b, 0)
}

func (bd *Builder) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return bd.Const(a.k, w)
	}
	if a.op == OpZext {
		return bd.Zext(a.a, w)
	}
	return bd.mk(OpZext, w, a, nil, nil, 0)
}

func (bd *Builder) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return bd.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.op == OpSext {
		return bd.Sext(a.a, w)
	}
	if a.op == OpZext && a.a.w < a.w {
		return bd.Zext(a.a, w)
	}
	return bd.mk(OpSext, w, a, nil, nil, 0)
}

func (bd *Builder) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return bd.Const(a.k, w)
	}
	if a.op == OpZext || a.op == OpSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return bd.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return bd.Zext(a.a, w)
		}
		return bd.Sext(a.a, w)
	}
	if a.op == OpIte && a.b.isConst() && a.c.isConst() {
		return bd.Ite(a.a, bd.Trunc(a.b, w), bd.Trunc(a.c, w))
	}
	return bd.mk(OpTrunc, w, a, nil, nil, 0)
}

func (bd *Builder) Com(a *Expr) *Expr {
	if a.isConst() {
		return bd.Const(^a.k, a.w)
	}
	return bd.mk(OpCom, a.w, a, nil, nil, 0)
}

func (bd *Builder) Neg(a *Expr) *Expr {
	if a.isConst() {
		return bd.Const(-a.k, a.w)
	}
	return bd.mk(OpNeg, a.w, a, nil, nil, 0)
}

// Eval evaluates e under the model (indexed by variable number).
func (bd *Builder) Eval(e *Expr, model []uint64) uint64 {
	bd.gen++
	return bd.eval(e, model)
}

func (bd *Builder) eval(e *Expr, m []uint64) uint64 {
	switch e.op {
	case OpConst:
		return e.k
	case OpVar:
		i := int(e.k >> 1)
		if i < len(m) {
			return mask(m[i], e.w)
		}
		return 0
	}
	if e.gen == bd.gen {
		return e.ev
	}
	var r uint64
	switch e.op {
	case OpBNot:
		r = 1 - bd.eval(e.a, m)
	case OpBAnd:
		r = bd.eval(e.a, m)
		if r == 1 {
			r = bd.eval(e.b, m)
		}
	case OpBOr:
		r = bd.eval(e.a, m)
		if r == 0 {
			r = bd.eval(e.b, m)
		}
	case OpIte:
		if bd.eval(e.a, m) == 1 {
			r = bd.eval(e.b, m)
		} else {
			r = bd.eval(e.c, m)
		}
	case OpZext:
		r = bd.eval(e.a, m)
	case OpSext:
		r = mask(uint64(sext(bd.eval(e.a, m), e.a.w)), e.w)
	case OpTrunc:
		r = mask(bd.eval(e.a, m), e.w)
	case OpCom:
		r = mask(^bd.eval(e.a, m), e.w)
	case OpNeg:
		r = mask(-bd.eval(e.a, m), e.w)
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		r = b2u(evalCmp(e.op, e.a.w, bd.eval(e.a, m), bd.eval(e.b, m)))
	default:
		r, _ = evalBin(e.op, e.w, bd.eval(e.a, m), bd.eval(e.b, m))
	}
	e.gen = bd.gen
	e.ev = r
	return r
}

var opNames = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpCom: "bvnot", OpNeg: "bvneg",
	OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBNot: "not", OpBAnd: "and", OpBOr: "or", OpIte: "ite",
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constText(v uint64, w uint8) string {
	switch w {
	case 0:
		if v == 1 {
			return "true"
		}
		return "false"
	case 8, 16, 32, 64:
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func varText(e *Expr) string {
	r := ""
	if e.rune_ {
		r = "r"
	}
	return fmt.Sprintf("v%d_%d%s", e.k>>1, e.w, r)
}

// smt returns the SMT-LIB text of e; sub-terms that are large are defined once as functions
// (written to defs).
func (e *Expr) smt(defs *strings.Builder) string {
	if e.text != "" {
		return e.text
	}
	var t string
	switch e.op {
	case OpConst:
		t = constText(e.k, e.w)
	case OpVar:
		t = varText(e)
		fmt.Fprintf(defs, "(declare-const %s %s)\n", t, sortName(e.w))
	case OpZext:
		t = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, e.a.smt(defs))
	case OpSext:
		t = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, e.a.smt(defs))
	case OpTrunc:
		t = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, e.a.smt(defs))
	case OpIte:
		t = "(ite " + e.a.smt(defs) + " " + e.b.smt(defs) + " " + e.c.smt(defs) + ")"
	case OpBNot, OpCom, OpNeg:
		t = "(" + opNames[e.op] + " " + e.a.smt(defs) + ")"
	default:
		t = "(" + opNames[e.op] + " " + e.a.smt(defs) + " " + e.b.smt(defs) + ")"
	}
	if e.size > 12 && len(t) > 60 {
		n := fmt.Sprintf("e%d", e.id)
		fmt.Fprintf(defs, "(define-fun %s () %s %s)\n", n, sortName(e.w), t)
		t = n
	}
	e.text = t
	return t
}
