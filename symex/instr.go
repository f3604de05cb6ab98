package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) instr(in ssa.Instruction) opFn {
	e := c.e
	switch in := in.(type) {
	case *ssa.Alloc:
		dst := c.reg(in)
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			p := new(Value)
			*p = e.zero(t)
			fr.regs[dst] = Value{ref: p}
		}
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.Call:
		dst := c.reg(in)
		return c.call(&in.Call, dst, in)
	case *ssa.Defer:
		prep := c.prepCall(&in.Call)
		c.f.hasDefer = true
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn, args})
		}
	case *ssa.Go:
		prep := c.prepCall(&in.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.t.p.spawn(fr.t, fn, args)
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Store:
		a, v := c.opnd(in.Addr), c.opnd(in.Val)
		agg := isAggType(in.Val.Type())
		return func(fr *frame) {
			p := fr.ptr(fr.get(&a))
			fr.t.store(p, fr.get(&v), agg)
		}
	case *ssa.FieldAddr:
		dst, x, fi := c.reg(in), c.opnd(in.X), in.Field
		return func(fr *frame) {
			p := fr.ptr(fr.get(&x))
			a, ok := p.ref.(*Agg)
			if !ok || fi >= len(a.f) {
				panic(unsupported("field of opaque value"))
			}
			fr.regs[dst] = Value{ref: &a.f[fi]}
		}
	case *ssa.Field:
		dst, x, fi := c.reg(in), c.opnd(in.X), in.Field
		return func(fr *frame) {
			fr.regs[dst] = fr.get(&x).ref.(*Agg).f[fi]
		}
	case *ssa.IndexAddr:
		dst, x, ix := c.reg(in), c.opnd(in.X), c.opnd(in.Index)
		_, iw, isgn := classify(in.Index.Type())
		return func(fr *frame) {
			xv := fr.get(&x)
			var s []Value
			switch r := xv.ref.(type) {
			case []Value:
				s = r
			case *Value:
				s = r.ref.(*Agg).f
			case nil:
				if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
					fr.t.rtPanic("invalid memory address or nil pointer dereference")
				}
			}
			i := fr.index(fr.get(&ix), iw, isgn, len(s))
			fr.regs[dst] = Value{ref: &s[i]}
		}
	case *ssa.Index:
		dst, x, ix := c.reg(in), c.opnd(in.X), c.opnd(in.Index)
		_, iw, isgn := classify(in.Index.Type())
		k, _, _ := classify(in.X.Type())
		return func(fr *frame) {
			xv := fr.get(&x)
			if k == kString {
				fr.regs[dst] = fr.t.strIndex(xv, fr.get(&ix), iw, isgn)
				return
			}
			a := xv.ref.(*Agg)
			i := fr.index(fr.get(&ix), iw, isgn, len(a.f))
			fr.regs[dst] = a.f[i]
		}
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.MapUpdate:
		m, k, v := c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		kk := e.rtype(mt.Key())
		return func(fr *frame) {
			mo, _ := fr.get(&m).ref.(*MapObj)
			if mo == nil {
				fr.t.rtPanic("assignment to entry in nil map")
			}
			fr.t.noteMapWrite(mo)
			fr.t.mapSet(mo, kk, fr.get(&k), copyVal(fr.get(&v)))
		}
	case *ssa.MakeMap:
		dst := c.reg(in)
		return func(fr *frame) { fr.regs[dst] = Value{ref: newMap()} }
	case *ssa.MakeSlice:
		dst, l, cp := c.reg(in), c.opnd(in.Len), c.opnd(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		agg := isAggType(et)
		return func(fr *frame) {
			n := int(int64(fr.concInt(fr.get(&l), 64, true)))
			m := int(int64(fr.concInt(fr.get(&cp), 64, true)))
			if n < 0 || m < n {
				fr.t.rtPanic("makeslice: len out of range")
			}
			if m > 1<<22 {
				panic(unsupported("huge makeslice"))
			}
			s := make([]Value, m)
			if agg {
				for i := range s {
					s[i] = e.zero(et)
				}
			}
			fr.regs[dst] = Value{ref: s[:n]}
		}
	case *ssa.MakeClosure:
		dst := c.reg(in)
		fn := e.getFunc(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.opnd(b))
		}
		return func(fr *frame) {
			cl := &Closure{fn: fn, free: make([]Value, len(bs))}
			for i := range bs {
				cl.free[i] = fr.get(&bs[i])
			}
			fr.regs[dst] = Value{ref: cl}
		}
	case *ssa.MakeInterface:
		dst, x := c.reg(in), c.opnd(in.X)
		rt := e.rtype(in.X.Type())
		return func(fr *frame) {
			fr.regs[dst] = Value{ref: &Iface{rt: rt, v: fr.get(&x)}}
		}
	case *ssa.ChangeInterface:
		dst, x := c.reg(in), c.opnd(in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.ChangeType:
		dst, x := c.reg(in), c.opnd(in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.Convert:
		return c.convert(in)
	case *ssa.MultiConvert:
		return c.unsup("MultiConvert")
	case *ssa.Extract:
		dst, x, i := c.reg(in), c.opnd(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).ref.(*Agg).f[i] }
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Range:
		dst, x := c.reg(in), c.opnd(in.X)
		k, _, _ := classify(in.X.Type())
		return func(fr *frame) {
			xv := fr.get(&x)
			if k == kString {
				fr.regs[dst] = Value{ref: &strIter{es: strElems(xv)}}
				return
			}
			mo, _ := xv.ref.(*MapObj)
			if mo != nil {
				fr.t.noteMapRead(mo)
			}
			it := &mapIter{m: mo}
			if mo != nil {
				for i := range mo.keys {
					if mo.live[i] {
						it.rest = append(it.rest, i)
					}
				}
			}
			fr.regs[dst] = Value{ref: it}
		}
	case *ssa.Next:
		dst, x := c.reg(in), c.opnd(in.Iter)
		return func(fr *frame) {
			switch it := fr.get(&x).ref.(type) {
			case *strIter:
				fr.regs[dst] = it.next(fr.t)
			case *mapIter:
				fr.regs[dst] = it.next(fr.t)
			}
		}
	case *ssa.SliceToArrayPointer:
		return c.unsup("SliceToArrayPointer")
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		return c.chanInstr(in)
	}
	return c.unsup(fmt.Sprintf("%T", in))
}

func (c *compiler) unsup(s string) opFn {
	name := c.f.name
	return func(fr *frame) { panic(unsupported(s + " in " + name)) }
}

// ptr returns the memory cell of a pointer, panicking (in the target) when it is nil.
func (fr *frame) ptr(v Value) *Value {
	p, ok := v.ref.(*Value)
	if !ok {
		if v.ref == nil {
			fr.t.rtPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported(fmt.Sprintf("pointer of kind %T", v.ref)))
	}
	return p
}

func (fr *frame) concInt(v Value, w uint8, sgn bool) uint64 {
	return fr.t.concInt(v, w, sgn)
}

// concInt makes an integer concrete, forking over its possible values.
func (t *Thread) concInt(v Value, w uint8, sgn bool) uint64 {
	e := v.sym()
	if e == nil {
		return v.n
	}
	k := t.p.concretize(e)
	return normInt(k, w, sgn)
}

// index checks 0 <= i < n, forking on the check when i is symbolic.
func (fr *frame) index(iv Value, w uint8, sgn bool, n int) int {
	return fr.t.index(iv, w, sgn, n)
}

func (t *Thread) index(iv Value, w uint8, sgn bool, n int) int {
	if e := iv.sym(); e != nil {
		bd := t.p.bd
		var ok *Expr
		x := e
		if w < 64 {
			if sgn {
				x = bd.Sext(e, 64)
			} else {
				x = bd.Zext(e, 64)
			}
		}
		ok = bd.Cmp(OpUlt, x, bd.Const(uint64(n), 64))
		if !t.p.branch(ok) {
			t.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
		}
		return int(t.p.concretize(x))
	}
	i := int64(iv.n)
	if !sgn && iv.n > math.MaxInt64 || i < 0 || i >= int64(n) {
		t.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

func (c *compiler) unop(in *ssa.UnOp) opFn {
	dst, x := c.reg(in), c.opnd(in.X)
	k, w, sgn := classify(in.X.Type())
	switch in.Op {
	case token.ARROW:
		return c.chanInstr(in)
	case token.MUL:
		agg := isAggType(in.Type())
		if x.reg == -2 {
			g := x.g
			return func(fr *frame) {
				p := fr.t.p.globalAddr(g)
				fr.t.noteRead(p)
				v := *p
				if agg {
					v = copyVal(v)
				}
				fr.regs[dst] = v
			}
		}
		return func(fr *frame) {
			p := fr.ptr(fr.get(&x))
			fr.t.noteRead(p)
			v := *p
			if agg {
				fr.t.noteReadAgg(v)
				v = copyVal(v)
			}
			fr.regs[dst] = v
		}
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(&x)
			if e := v.sym(); e != nil {
				fr.regs[dst] = fromBool(fr.t.p.bd.Not(e))
			} else {
				fr.regs[dst] = Value{n: 1 - v.n}
			}
		}
	case token.SUB:
		return func(fr *frame) {
			v := fr.get(&x)
			if e := v.sym(); e != nil {
				fr.regs[dst] = fromExpr(fr.t.p.bd.Neg(e), sgn)
			} else if k == kFloat {
				fr.regs[dst] = Value{n: math.Float64bits(-math.Float64frombits(v.n))}
			} else {
				fr.regs[dst] = Value{n: normInt(-v.n, w, sgn)}
			}
		}
	case token.XOR:
		return func(fr *frame) {
			v := fr.get(&x)
			if e := v.sym(); e != nil {
				fr.regs[dst] = fromExpr(fr.t.p.bd.Com(e), sgn)
			} else {
				fr.regs[dst] = Value{n: normInt(^v.n, w, sgn)}
			}
		}
	}
	return c.unsup("unop " + in.Op.String())
}

func (c *compiler) binop(in *ssa.BinOp) opFn {
	dst, xo, yo := c.reg(in), c.opnd(in.X), c.opnd(in.Y)
	k, w, sgn := classify(in.X.Type())
	_, yw, ysgn := classify(in.Y.Type())
	op := in.Op
	rt := c.e.rtype(in.X.Type())
	rty := c.e.rtype(in.Y.Type())
	switch op {
	case token.EQL, token.NEQ:
		if (k == kInt || k == kBool) && op == token.EQL {
			return func(fr *frame) {
				a, b := fr.get(&xo), fr.get(&yo)
				if a.ref == nil && b.ref == nil {
					fr.regs[dst] = Value{n: b2u(a.n == b.n)}
					return
				}
				bd := fr.t.p.bd
				fr.regs[dst] = fromBool(bd.Cmp(OpEq, bd.toExpr(a, w), bd.toExpr(b, w)))
			}
		}
		return func(fr *frame) {
			a, b := fr.get(&xo), fr.get(&yo)
			var r Value
			if (k == kInt || k == kBool) && a.ref == nil && b.ref == nil {
				r = Value{n: b2u(a.n == b.n)}
			} else {
				r = fr.t.equal(rt, rty, a, b)
			}
			if op == token.NEQ {
				if e := r.sym(); e != nil {
					r = fromBool(fr.t.p.bd.Not(e))
				} else {
					r.n = 1 - r.n
				}
			}
			fr.regs[dst] = r
		}
	}
	switch k {
	case kString:
		return func(fr *frame) {
			a, b := fr.get(&xo), fr.get(&yo)
			if op == token.ADD {
				fr.regs[dst] = concatStr(a, b)
				return
			}
			s, ok1 := isStr(a)
			t, ok2 := isStr(b)
			if !ok1 || !ok2 {
				fr.regs[dst] = fr.t.strLess(op, a, b)
				return
			}
			var r bool
			switch op {
			case token.LSS:
				r = s < t
			case token.LEQ:
				r = s <= t
			case token.GTR:
				r = s > t
			case token.GEQ:
				r = s >= t
			}
			fr.regs[dst] = boolVal(r)
		}
	case kFloat:
		return func(fr *frame) {
			a, b := math.Float64frombits(fr.get(&xo).n), math.Float64frombits(fr.get(&yo).n)
			var f float64
			switch op {
			case token.ADD:
				f = a + b
			case token.SUB:
				f = a - b
			case token.MUL:
				f = a * b
			case token.QUO:
				f = a / b
			case token.LSS:
				fr.regs[dst] = boolVal(a < b)
				return
			case token.LEQ:
				fr.regs[dst] = boolVal(a <= b)
				return
			case token.GTR:
				fr.regs[dst] = boolVal(a > b)
				return
			case token.GEQ:
				fr.regs[dst] = boolVal(a >= b)
				return
			}
			fr.regs[dst] = Value{n: math.Float64bits(f)}
		}
	case kInt, kBool:
	default:
		return c.unsup("binop " + op.String() + " on " + in.X.Type().String())
	}
	// integers
	cmp := func(o Op, swap, neg bool, conc func(a, b Value) bool) opFn {
		return func(fr *frame) {
			a, b := fr.get(&xo), fr.get(&yo)
			if a.ref == nil && b.ref == nil {
				fr.regs[dst] = Value{n: b2u(conc(a, b))}
				return
			}
			bd := fr.t.p.bd
			ae, be := bd.toExpr(a, w), bd.toExpr(b, w)
			if swap {
				ae, be = be, ae
			}
			fr.regs[dst] = fromBool(bd.Cmp(o, ae, be))
		}
	}
	lt, le := OpUlt, OpUle
	if sgn {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.LSS:
		return cmp(lt, false, false, func(a, b Value) bool {
			if sgn {
				return int64(a.n) < int64(b.n)
			}
			return a.n < b.n
		})
	case token.LEQ:
		return cmp(le, false, false, func(a, b Value) bool {
			if sgn {
				return int64(a.n) <= int64(b.n)
			}
			return a.n <= b.n
		})
	case token.GTR:
		return cmp(lt, true, false, func(a, b Value) bool {
			if sgn {
				return int64(a.n) > int64(b.n)
			}
			return a.n > b.n
		})
	case token.GEQ:
		return cmp(le, true, false, func(a, b Value) bool {
			if sgn {
				return int64(a.n) >= int64(b.n)
			}
			return a.n >= b.n
		})
	}
	var o Op
	shift := false
	notY := false
	switch op {
	case token.ADD:
		o = OpAdd
	case token.SUB:
		o = OpSub
	case token.MUL:
		o = OpMul
	case token.QUO:
		o = OpUDiv
		if sgn {
			o = OpSDiv
		}
	case token.REM:
		o = OpURem
		if sgn {
			o = OpSRem
		}
	case token.AND:
		o = OpAnd
	case token.OR:
		o = OpOr
	case token.XOR:
		o = OpXor
	case token.AND_NOT:
		o = OpAnd
		notY = true
	case token.SHL:
		o, shift = OpShl, true
	case token.SHR:
		o, shift = OpLshr, true
		if sgn {
			o = OpAshr
		}
	default:
		return c.unsup("int binop " + op.String())
	}
	if shift {
		return func(fr *frame) {
			a, b := fr.get(&xo), fr.get(&yo)
			if b.sym() == nil && ysgn && int64(b.n) < 0 {
				fr.t.rtPanic("negative shift amount")
			}
			if a.ref == nil && b.ref == nil {
				v, _ := evalBin(o, w, mask(a.n, w), b.n)
				fr.regs[dst] = Value{n: normInt(v, w, sgn)}
				return
			}
			bd := fr.t.p.bd
			be := bd.toExpr(b, yw)
			if be.w < w {
				be = bd.Zext(be, w)
			} else if be.w > w {
				if !be.isConst() {
					panic(unsupported("wide symbolic shift"))
				}
				v := be.k
				if v >= uint64(w) {
					v = uint64(w)
				}
				be = bd.Const(v, w)
			}
			fr.regs[dst] = fromExpr(bd.Bin(o, bd.toExpr(a, w), be), sgn)
		}
	}
	isDiv := op == token.QUO || op == token.REM
	return func(fr *frame) {
		a, b := fr.get(&xo), fr.get(&yo)
		if a.ref == nil && b.ref == nil {
			var v uint64
			switch o {
			case OpAdd:
				v = a.n + b.n
			case OpSub:
				v = a.n - b.n
			default:
				if isDiv && b.n == 0 {
					fr.t.rtPanic("integer divide by zero")
				}
				y := b.n
				if notY {
					y = ^y
				}
				v, _ = evalBin(o, w, mask(a.n, w), mask(y, w))
			}
			fr.regs[dst] = Value{n: normInt(v, w, sgn)}
			return
		}
		bd := fr.t.p.bd
		be := bd.toExpr(b, w)
		if isDiv {
			if fr.t.p.branch(bd.Cmp(OpEq, be, bd.Const(0, w))) {
				fr.t.rtPanic("integer divide by zero")
			}
		}
		if notY {
			be = bd.Com(be)
		}
		fr.regs[dst] = fromExpr(bd.Bin(o, bd.toExpr(a, w), be), sgn)
	}
}

func (c *compiler) convert(in *ssa.Convert) opFn {
	dst, x := c.reg(in), c.opnd(in.X)
	sk, sw, ss := classify(in.X.Type())
	dk, dw, ds := classify(in.Type())
	switch {
	case sk == kInt && dk == kInt:
		return func(fr *frame) {
			v := fr.get(&x)
			if e := v.sym(); e != nil {
				bd := fr.t.p.bd
				var r *Expr
				switch {
				case dw == sw:
					r = e
				case dw < sw:
					r = bd.Trunc(e, dw)
				case ss:
					r = bd.Sext(e, dw)
				default:
					r = bd.Zext(e, dw)
				}
				fr.regs[dst] = fromExpr(r, ds)
				return
			}
			fr.regs[dst] = Value{n: normInt(v.n, dw, ds)}
		}
	case sk == kInt && dk == kString:
		return func(fr *frame) {
			v := fr.get(&x)
			fr.regs[dst] = fr.t.runesToStr([]Value{fr.t.widenRune(v, sw, ss)})
		}
	case sk == kString && dk == kString, sk == kSlice && dk == kSlice, sk == kPtr && dk == kPtr:
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case sk == kString && dk == kSlice:
		_, ew, _ := classify(in.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			v := fr.get(&x)
			if ew == 32 {
				fr.regs[dst] = sliceVal(fr.t.strToRunes(v))
				return
			}
			s, ok := isStr(v)
			if !ok {
				bs := fr.t.strBytes(v)
				fr.regs[dst] = sliceVal(bs)
				return
			}
			out := make([]Value, len(s))
			for i := 0; i < len(s); i++ {
				out[i] = Value{n: uint64(s[i])}
			}
			fr.regs[dst] = sliceVal(out)
		}
	case sk == kSlice && dk == kString:
		_, ew, _ := classify(in.X.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			s := sliceOf(fr.get(&x))
			for i := range s {
				fr.t.noteRead(&s[i])
			}
			if ew == 32 {
				fr.regs[dst] = fr.t.runesToStr(s)
				return
			}
			fr.regs[dst] = fr.t.bytesToStr(s)
		}
	case sk == kInt && dk == kFloat:
		return func(fr *frame) {
			n := fr.concInt(fr.get(&x), sw, ss)
			f := float64(n)
			if ss {
				f = float64(int64(n))
			}
			fr.regs[dst] = Value{n: math.Float64bits(f)}
		}
	case sk == kFloat && dk == kInt:
		return func(fr *frame) {
			f := math.Float64frombits(fr.get(&x).n)
			fr.regs[dst] = Value{n: normInt(uint64(int64(f)), dw, ds)}
		}
	case sk == kFloat && dk == kFloat:
		return func(fr *frame) {
			f := math.Float64frombits(fr.get(&x).n)
			if dw == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = Value{n: math.Float64bits(f)}
		}
	}
	return c.unsup("convert " + in.X.Type().String() + " to " + in.Type().String())
}

func (t *Thread) widenRune(v Value, w uint8, sgn bool) Value {
	if e := v.sym(); e != nil {
		bd := t.p.bd
		switch {
		case w < 32 && sgn:
			return Value{ref: bd.Sext(e, 32)}
		case w < 32:
			return Value{ref: bd.Zext(e, 32)}
		case w > 32:
			hi := bd.Cmp(OpUlt, e, bd.Const(0x110000, 64))
			return fromExpr(bd.Ite(hi, bd.Trunc(e, 32), bd.Const(utf8.RuneError, 32)), true)
		}
		return v
	}
	if int64(v.n) < 0 || v.n > utf8.MaxRune {
		return Value{n: utf8.RuneError}
	}
	return v
}

func (c *compiler) slice(in *ssa.Slice) opFn {
	dst, x := c.reg(in), c.opnd(in.X)
	var lo, hi, mx *opnd
	if in.Low != nil {
		o := c.opnd(in.Low)
		lo = &o
	}
	if in.High != nil {
		o := c.opnd(in.High)
		hi = &o
	}
	if in.Max != nil {
		o := c.opnd(in.Max)
		mx = &o
	}
	k, _, _ := classify(in.X.Type())
	return func(fr *frame) {
		xv := fr.get(&x)
		geti := func(o *opnd, def int) int {
			if o == nil {
				return def
			}
			return int(int64(fr.concInt(fr.get(o), 64, true)))
		}
		if k == kString {
			if s, ok := isStr(xv); ok {
				l := geti(lo, 0)
				h := geti(hi, len(s))
				if l < 0 || h < l || h > len(s) {
					fr.t.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(s)))
				}
				fr.regs[dst] = strVal(s[l:h])
				return
			}
			l := geti(lo, 0)
			if hi == nil {
				fr.regs[dst] = fr.t.strSlice(xv, l, -1)
			} else {
				fr.regs[dst] = fr.t.strSlice(xv, l, geti(hi, 0))
			}
			return
		}
		var s []Value
		isNil := false
		switch r := xv.ref.(type) {
		case []Value:
			s = r
		case *Value:
			s = r.ref.(*Agg).f
		case nil:
			if k == kPtr {
				fr.t.rtPanic("invalid memory address or nil pointer dereference")
			}
			isNil = true
		}
		l := geti(lo, 0)
		h := geti(hi, len(s))
		m := geti(mx, cap(s))
		if l < 0 || h < l || m < h || m > cap(s) {
			fr.t.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(s)))
		}
		if isNil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{ref: s[l:h:m]}
	}
}

func (c *compiler) lookup(in *ssa.Lookup) opFn {
	dst, x, ix := c.reg(in), c.opnd(in.X), c.opnd(in.Index)
	k, _, _ := classify(in.X.Type())
	if k == kString {
		_, iw, isgn := classify(in.Index.Type())
		return func(fr *frame) {
			fr.regs[dst] = fr.t.strIndex(fr.get(&x), fr.get(&ix), iw, isgn)
		}
	}
	mt := in.X.Type().Underlying().(*types.Map)
	kr := c.e.rtype(mt.Key())
	vr := c.e.rtype(mt.Elem())
	e := c.e
	return func(fr *frame) {
		mo, _ := fr.get(&x).ref.(*MapObj)
		v, ok := fr.t.mapGet(mo, kr, vr, fr.get(&ix))
		if ok.ref == nil && ok.n == 0 {
			v = e.zero(mt.Elem())
		} else {
			v = copyVal(v)
		}
		if in.CommaOk {
			fr.regs[dst] = tuple(v, ok)
		} else {
			fr.regs[dst] = v
		}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) opFn {
	dst, x := c.reg(in), c.opnd(in.X)
	e := c.e
	at := in.AssertedType
	iface, isIface := at.Underlying().(*types.Interface)
	art := e.rtype(at)
	return func(fr *frame) {
		v := fr.get(&x)
		i, _ := v.ref.(*Iface)
		ok := false
		var r Value
		if i != nil {
			if isIface {
				if e.implements(i.rt, iface) {
					ok = true
					r = v
				}
			} else if i.rt == art {
				ok = true
				r = i.v
			}
		}
		if in.CommaOk {
			if !ok {
				r = e.zero(at)
			}
			fr.regs[dst] = tuple(r, boolVal(ok))
			return
		}
		if !ok {
			fr.t.rtPanic("interface conversion: wrong dynamic type")
		}
		fr.regs[dst] = r
	}
}

// ---- calls ----

type callTarget struct {
	fn   *Func
	free []Value
	bi   *ssa.Builtin
	call *ssa.CallCommon
}

func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *frame) (callTarget, []Value) {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.opnd(a))
	}
	e := c.e
	if cc.IsInvoke() {
		recv := c.opnd(cc.Value)
		name := cc.Method
		return func(fr *frame) (callTarget, []Value) {
			i, _ := fr.get(&recv).ref.(*Iface)
			if i == nil {
				fr.t.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := e.findMethod(i.rt, name.Pkg(), name.Name())
			if fn == nil {
				panic(unsupported("method " + name.Name() + " of " + i.rt.name))
			}
			vs := make([]Value, len(args)+1)
			vs[0] = i.v
			for k := range args {
				vs[k+1] = fr.get(&args[k])
			}
			return callTarget{fn: fn}, vs
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return func(fr *frame) (callTarget, []Value) {
			vs := make([]Value, len(args))
			for k := range args {
				vs[k] = fr.get(&args[k])
			}
			return callTarget{bi: bi, call: cc}, vs
		}
	}
	if sf := cc.StaticCallee(); sf != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			fn := e.getFunc(sf)
			return func(fr *frame) (callTarget, []Value) {
				vs := make([]Value, len(args))
				for k := range args {
					vs[k] = fr.get(&args[k])
				}
				return callTarget{fn: fn}, vs
			}
		}
	}
	fv := c.opnd(cc.Value)
	return func(fr *frame) (callTarget, []Value) {
		f := fr.get(&fv)
		vs := make([]Value, len(args))
		for k := range args {
			vs[k] = fr.get(&args[k])
		}
		cl, ok := f.ref.(*Closure)
		if !ok {
			if f.ref == nil {
				fr.t.rtPanic("invalid memory address or nil pointer dereference")
			}
			panic(unsupported(fmt.Sprintf("call of %T", f.ref)))
		}
		return callTarget{fn: cl.fn, free: cl.free}, vs
	}
}

func (c *compiler) call(cc *ssa.CallCommon, dst int, in *ssa.Call) opFn {
	prep := c.prepCall(cc)
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(bi, cc)
		return func(fr *frame) {
			_, args := prep(fr)
			fr.regs[dst] = f(fr, args)
		}
	}
	return func(fr *frame) {
		ct, args := prep(fr)
		fr.regs[dst] = fr.t.call(ct.fn, args, ct.free)
	}
}

func (t *Thread) callTarget(fr *frame, ct callTarget, args []Value) Value {
	if ct.bi != nil {
		c := &compiler{e: t.p.e}
		return c.builtin(ct.bi, ct.call)(fr, args)
	}
	return t.call(ct.fn, args, ct.free)
}

func (c *compiler) builtin(bi *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame, args []Value) Value {
	name := bi.Name()
	switch name {
	case "len", "cap":
		k, _, _ := classify(cc.Args[0].Type())
		at := cc.Args[0].Type().Underlying()
		return func(fr *frame, args []Value) Value {
			v := args[0]
			switch k {
			case kString:
				return fr.t.strLen(v)
			case kSlice:
				s := sliceOf(v)
				if name == "cap" {
					return intVal(cap(s))
				}
				return intVal(len(s))
			case kChan:
				ch, _ := v.ref.(*chanObj)
				if ch == nil {
					return intVal(0)
				}
				if name == "cap" {
					return intVal(ch.cap)
				}
				return intVal(len(ch.buf))
			case kMap:
				mo, _ := v.ref.(*MapObj)
				if mo == nil {
					return intVal(0)
				}
				fr.t.noteMapRead(mo)
				return intVal(mo.n)
			case kArray:
				return intVal(int(at.(*types.Array).Len()))
			case kPtr:
				return intVal(int(at.(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
			}
			panic(unsupported("len of " + cc.Args[0].Type().String()))
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		esz := int(c.e.sizes.Sizeof(et))
		agg := isAggType(et)
		k2, _, _ := classify(cc.Args[1].Type())
		return func(fr *frame, args []Value) Value {
			var add []Value
			if k2 == kString {
				add = fr.t.strBytes(args[1])
			} else {
				add = sliceOf(args[1])
			}
			return fr.t.appendVals(args[0], add, esz, agg)
		}
	case "copy":
		k2, _, _ := classify(cc.Args[1].Type())
		return func(fr *frame, args []Value) Value {
			d := sliceOf(args[0])
			var s []Value
			if k2 == kString {
				s = fr.t.strBytes(args[1])
			} else {
				s = sliceOf(args[1])
			}
			n := len(s)
			if len(d) < n {
				n = len(d)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				fr.t.noteRead(&s[i])
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				fr.t.store(&d[i], tmp[i], false)
			}
			return intVal(n)
		}
	case "delete":
		kr := c.e.rtype(cc.Args[0].Type().Underlying().(*types.Map).Key())
		return func(fr *frame, args []Value) Value {
			mo, _ := args[0].ref.(*MapObj)
			if mo != nil {
				fr.t.noteMapWrite(mo)
				fr.t.mapDelete(mo, kr, args[1])
			}
			return Value{}
		}
	case "close":
		return func(fr *frame, args []Value) Value { fr.t.closeChan(args[0]); return Value{} }
	case "recover":
		return func(fr *frame, args []Value) Value { return fr.doRecover() }
	case "print", "println":
		return func(fr *frame, args []Value) Value { return Value{} }
	case "min", "max":
		k, w, sgn := classify(cc.Args[0].Type())
		return func(fr *frame, args []Value) Value {
			if k != kInt {
				panic(unsupported(name))
			}
			bd := fr.t.p.bd
			r := args[0]
			for _, a := range args[1:] {
				o := OpUlt
				if sgn {
					o = OpSlt
				}
				x, y := bd.toExpr(a, w), bd.toExpr(r, w)
				if name == "max" {
					x, y = y, x
				}
				cnd := bd.Cmp(o, x, y)
				r = fromExpr(bd.Ite(cnd, bd.toExpr(a, w), bd.toExpr(r, w)), sgn)
			}
			return r
		}
	case "clear":
		return func(fr *frame, args []Value) Value {
			if mo, ok := args[0].ref.(*MapObj); ok {
				*mo = *newMap()
			}
			return Value{}
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, args []Value) Value {
			if args[0].ref == nil {
				fr.t.rtPanic("value method called using nil pointer")
			}
			return args[0]
		}
	}
	return func(fr *frame, args []Value) Value { panic(unsupported("builtin " + name)) }
}
