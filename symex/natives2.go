package main

import (
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Further parts of the standard library that cannot be interpreted from their source.

type openFile struct {
	data []Value
	pos  int
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// newPtrTo returns a pointer (in an interface) to a new value of the type with the given fields set.
func (e *Engine) newPtrTo(t types.Type, fields ...Value) Value {
	p := new(Value)
	*p = e.zero(t)
	a := p.ref.(*Agg)
	for i := range fields {
		a.f[i] = fields[i]
	}
	return Value{ref: &Iface{rt: e.rtypeL(types.NewPointer(t)), v: Value{ref: p}}}
}

func (t *Thread) notExist(op, name string) Value {
	e := t.p.e
	pe, en := e.namedType("io/fs", "PathError"), e.namedType("syscall", "Errno")
	if pe == nil || en == nil {
		return e.newError(strVal(op + " " + name + ": no such file or directory"))
	}
	return e.newPtrTo(pe, strVal(op), strVal(name), Value{ref: &Iface{rt: e.rtypeL(en), v: Value{n: 2}}})
}

// unwrap calls the Unwrap method of an error.
func (t *Thread) unwrap(i *Iface) *Iface {
	m := t.p.e.findMethod(i.rt, nil, "Unwrap")
	if m == nil || m.fn == nil || m.fn.Signature.Params().Len() != 0 || m.fn.Signature.Results().Len() != 1 {
		return nil
	}
	if _, isSlice := m.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSlice {
		panic(unsupported("Unwrap of several errors"))
	}
	r, _ := t.call(m, []Value{i.v}, nil).ref.(*Iface)
	return r
}

// truth decides a boolean value.
func (t *Thread) truth(v Value) bool {
	if e := v.sym(); e != nil {
		return t.p.branchAt(t, e)
	}
	return v.n == 1
}

func (t *Thread) deepEqual(rt *RType, a, b Value, depth int) bool {
	if depth > 200 {
		panic(unsupported("DeepEqual of a deep value"))
	}
	e := t.p.e
	switch rt.kind {
	case kIface:
		x, _ := a.ref.(*Iface)
		y, _ := b.ref.(*Iface)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return x.rt == y.rt && t.deepEqual(x.rt, x.v, y.v, depth+1)
	case kPtr:
		if a.ref == nil || b.ref == nil {
			return a.ref == nil && b.ref == nil
		}
		x, ok1 := a.ref.(*Value)
		y, ok2 := b.ref.(*Value)
		if !ok1 || !ok2 {
			return t.truth(t.equal(rt, rt, a, b))
		}
		if x == y {
			return true
		}
		t.noteRead(x)
		t.noteRead(y)
		return t.deepEqual(e.rtypeL(deref(rt.t)), *x, *y, depth+1)
	case kSlice, kArray:
		var x, y []Value
		var el types.Type
		if rt.kind == kSlice {
			if (a.ref == nil) != (b.ref == nil) {
				return false
			}
			x, y = sliceOf(a), sliceOf(b)
			el = rt.t.Underlying().(*types.Slice).Elem()
		} else {
			x, y = a.ref.(*Agg).f, b.ref.(*Agg).f
			el = rt.t.Underlying().(*types.Array).Elem()
		}
		if len(x) != len(y) {
			return false
		}
		er := e.rtypeL(el)
		for i := range x {
			if !t.deepEqual(er, x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case kStruct:
		x, y := a.ref.(*Agg), b.ref.(*Agg)
		st := rt.t.Underlying().(*types.Struct)
		for i := range x.f {
			if !t.deepEqual(e.rtypeL(st.Field(i).Type()), x.f[i], y.f[i], depth+1) {
				return false
			}
		}
		return true
	case kMap:
		x, _ := a.ref.(*MapObj)
		y, _ := b.ref.(*MapObj)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.n != y.n {
			return false
		}
		mt := rt.t.Underlying().(*types.Map)
		kr, vr := e.rtypeL(mt.Key()), e.rtypeL(mt.Elem())
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			j := t.findKey(y, kr, x.keys[i])
			if j < 0 || !t.deepEqual(vr, *x.vals[i], *y.vals[j], depth+1) {
				return false
			}
		}
		return true
	case kFunc:
		return a.ref == nil && b.ref == nil
	}
	return t.truth(t.equal(rt, rt, a, b))
}

// aggExt returns the model state kept for a struct of the standard library.
func (t *Thread) aggExt(v Value) *Agg {
	if t.spec > 0 {
		panic(specAbort{})
	}
	p, _ := v.ref.(*Value)
	if p == nil {
		t.rtPanic("invalid memory address or nil pointer dereference")
	}
	t.atomicOp(p)
	return p.ref.(*Agg)
}

// caseExpr is unicode.To(case, e).
func (t *Thread) caseExpr(e *Expr, which int) *Expr {
	bd := t.p.bd
	r := e
	for i := len(unicode.CaseRanges) - 1; i >= 0; i-- {
		cr := unicode.CaseRanges[i]
		d := cr.Delta[which]
		if d == 0 {
			continue
		}
		in := bd.And(bd.Cmp(OpUle, bd.Const(uint64(cr.Lo), 32), e), bd.Cmp(OpUle, e, bd.Const(uint64(cr.Hi), 32)))
		var v *Expr
		if d > unicode.MaxRune {
			// alternating upper and lower case: Lo + ((e-Lo) &^ 1 | which&1)
			o := bd.Bin(OpSub, e, bd.Const(uint64(cr.Lo), 32))
			o = bd.Bin(OpOr, bd.Bin(OpAnd, o, bd.Const(0xFFFFFFFE, 32)), bd.Const(uint64(which&1), 32))
			v = bd.Bin(OpAdd, o, bd.Const(uint64(cr.Lo), 32))
		} else {
			v = bd.Bin(OpAdd, e, bd.Const(uint64(uint32(d)), 32))
		}
		r = bd.Ite(in, v, r)
	}
	if bd.cases == nil {
		bd.cases = map[*Expr]caseMap{}
	}
	if !r.isConst() {
		r.rune_ = validRuneExpr(e)
		bd.cases[r] = caseMap{e, which}
	}
	return r
}

type caseMap struct {
	e     *Expr
	which int
}

type caseKey struct {
	op    Op
	which int
	c     uint64
	left  bool
}

var (
	caseMu     sync.Mutex
	caseRanges = map[caseKey][][2]uint64{}
	caseTables = map[int][]int32{}
)

// caseCmp decides a comparison of unicode.To(e) with a constant on e.
func (bd *Builder) caseCmp(op Op, a, b *Expr) *Expr {
	left := true
	cm, ok := bd.cases[a]
	c := b
	if !ok {
		left = false
		cm, ok = bd.cases[b]
		c = a
	}
	if !ok || !c.isConst() {
		return nil
	}
	k := caseKey{op, cm.which, c.k, left}
	caseMu.Lock()
	rs, ok := caseRanges[k]
	if !ok {
		tab := caseTables[cm.which]
		if tab == nil {
			tab = make([]int32, unicode.MaxRune+1)
			for r := range tab {
				tab[r] = unicode.To(cm.which, rune(r))
			}
			caseTables[cm.which] = tab
		}
		for r, x := range tab {
			y, z := uint64(x), c.k
			if !left {
				y, z = z, y
			}
			if evalCmp(op, 32, y, z) {
				if n := len(rs); n > 0 && rs[n-1][1] == uint64(r)-1 {
					rs[n-1][1]++
				} else {
					rs = append(rs, [2]uint64{uint64(r), uint64(r)})
				}
			}
		}
		caseRanges[k] = rs
	}
	caseMu.Unlock()
	if len(rs) > 64 {
		return nil
	}
	r := bd.False
	for _, x := range rs {
		if x[0] == x[1] {
			r = bd.Or(r, bd.Cmp(OpEq, cm.e, bd.Const(x[0], 32)))
			continue
		}
		in := bd.Cmp(OpUle, cm.e, bd.Const(x[1], 32))
		if x[0] > 0 {
			in = bd.And(in, bd.Cmp(OpUle, bd.Const(x[0], 32), cm.e))
		}
		r = bd.Or(r, in)
	}
	if validRuneExpr(cm.e) {
		return r
	}
	out := bd.Cmp(op, cm.e, c)
	if !left {
		out = bd.Cmp(op, c, cm.e)
	}
	return bd.Or(r, bd.And(bd.Cmp(OpUlt, bd.Const(unicode.MaxRune, 32), cm.e), out))
}

func (t *Thread) caseElems(s Value, which int) Value {
	var out []strElem
	for _, e := range strElems(s) {
		if e.e == nil {
			if e.r < badByte {
				e.r = unicode.To(which, e.r)
			}
			out = append(out, e)
			continue
		}
		// case mappings of valid characters are valid characters
		out = append(out, strElem{e: t.caseExpr(e.e, which)})
	}
	return elemsToStr(out)
}

func (t *Thread) hexElems(e *Expr, digits int) []strElem {
	bd := t.p.bd
	var es []strElem
	for sh := 4 * (digits - 1); sh >= 0; sh -= 4 {
		d := bd.Bin(OpAnd, bd.Bin(OpLshr, e, bd.Const(uint64(sh), 32)), bd.Const(15, 32))
		es = append(es, strElem{e: bd.Ite(bd.Cmp(OpUlt, d, bd.Const(10, 32)), bd.Bin(OpAdd, d, bd.Const('0', 32)), bd.Bin(OpAdd, d, bd.Const('a'-10, 32)))})
	}
	return es
}

// quote is strconv.Quote; characters from U+00A1 on count as printable (that is checked natively
// when a counterexample depends on it).
func (t *Thread) quote(s Value, q rune) Value {
	bd := t.p.bd
	out := []strElem{{r: q}}
	for _, e := range strElems(s) {
		if e.e == nil {
			var str string
			if e.r >= badByte {
				const hex = "0123456789abcdef"
				str = `\x` + string(hex[e.r>>4&15]) + string(hex[e.r&15])
			} else {
				str = quoteOne(e.r, q)
			}
			out = flattenString(str, out)
			continue
		}
		is := func(c rune) bool { return t.cond(bd.Cmp(OpEq, e.e, bd.Const(uint64(c), 32))) }
		if t.cond(bd.And(bd.Cmp(OpUle, bd.Const(0x20, 32), e.e), bd.Cmp(OpUlt, e.e, bd.Const(0x7f, 32)))) {
			if is(q) || is('\\') {
				out = append(out, strElem{r: '\\'})
			}
			out = append(out, e)
			continue
		}
		if t.cond(bd.Cmp(OpUlt, bd.Const(0xa0, 32), e.e)) {
			out = append(out, e)
			continue
		}
		short := false
		for i, c := range "\a\b\f\n\r\t\v" {
			if is(c) {
				out = append(out, strElem{r: '\\'}, strElem{r: rune("abfnrtv"[i])})
				short = true
				break
			}
		}
		if short {
			continue
		}
		if t.cond(bd.Cmp(OpUle, e.e, bd.Const(0x7f, 32))) {
			out = append(out, strElem{r: '\\'}, strElem{r: 'x'})
			out = append(out, t.hexElems(e.e, 2)...)
		} else {
			out = append(out, strElem{r: '\\'}, strElem{r: 'u'})
			out = append(out, t.hexElems(e.e, 4)...)
		}
	}
	return elemsToStr(append(out, strElem{r: q}))
}

func (t *Thread) indexByte(s []Value, c Value) Value {
	bd := t.p.bd
	for i := range s {
		if s[i].ref == nil && c.ref == nil {
			if s[i].n == c.n {
				return intVal(i)
			}
			continue
		}
		if t.cond(bd.Cmp(OpEq, bd.toExpr(s[i], 8), bd.toExpr(c, 8))) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func init() {
	reg := func(f nativeFn, names ...string) {
		for _, n := range names {
			natives[n] = f
		}
	}
	anyRT := func(t *Thread) *RType { return t.p.e.rtypeL(types.NewInterfaceType(nil, nil)) }

	// errors
	reg(func(t *Thread, a []Value) Value {
		err := t.sprintf(a[0], sliceOf(a[1]))
		f, _ := isStr(a[0])
		var wrapped []Value
		k := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == ' ' || f[i] >= '0' && f[i] <= '9') {
				i++
			}
			if i >= len(f) || f[i] == '%' {
				continue
			}
			if f[i] == 'w' && k < len(sliceOf(a[1])) {
				wrapped = append(wrapped, sliceOf(a[1])[k])
			}
			k++
		}
		wt := t.p.e.namedType("fmt", "wrapError")
		if len(wrapped) == 1 && wt != nil && wrapped[0].ref != nil {
			return t.p.e.newPtrTo(wt, err, wrapped[0])
		}
		return t.p.e.newError(err)
	}, "fmt.Errorf")
	reg(func(t *Thread, a []Value) Value {
		i, _ := a[0].ref.(*Iface)
		target, _ := a[1].ref.(*Iface)
		if i == nil || target == nil {
			return boolVal(i == target)
		}
		for ; i != nil; i = t.unwrap(i) {
			if i.rt == target.rt && t.truth(t.equal(i.rt, i.rt, i.v, target.v)) {
				return boolVal(true)
			}
			if m := t.p.e.findMethod(i.rt, nil, "Is"); m != nil && m.fn != nil && m.fn.Signature.Params().Len() == 1 {
				if t.truth(t.call(m, []Value{i.v, a[1]}, nil)) {
					return boolVal(true)
				}
			}
		}
		return boolVal(false)
	}, "errors.Is")
	reg(func(t *Thread, a []Value) Value {
		i, _ := a[0].ref.(*Iface)
		target, _ := a[1].ref.(*Iface)
		if target == nil || target.rt.kind != kPtr || target.v.ref == nil {
			panic(&targetPanic{msg: "errors: target cannot be nil"})
		}
		et := deref(target.rt.t)
		p := target.v.ref.(*Value)
		for ; i != nil; i = t.unwrap(i) {
			if it, ok := et.Underlying().(*types.Interface); ok {
				if t.p.e.implements(i.rt, it) {
					t.store(p, Value{ref: i}, false)
					return boolVal(true)
				}
			} else if i.rt == t.p.e.rtypeL(et) {
				t.store(p, i.v, isAggType(et))
				return boolVal(true)
			}
		}
		return boolVal(false)
	}, "errors.As")
	reg(func(t *Thread, a []Value) Value {
		i, _ := a[0].ref.(*Iface)
		if i == nil {
			return Value{}
		}
		if i = t.unwrap(i); i == nil {
			return Value{}
		}
		return Value{ref: i}
	}, "errors.Unwrap")
	reg(func(t *Thread, a []Value) Value { return boolVal(t.deepEqual(anyRT(t), a[0], a[1], 0)) }, "reflect.DeepEqual")

	// files
	readFile := func(t *Thread, a []Value) Value {
		name, ok := isStr(a[0])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		if c, ok := t.p.files[name]; ok {
			return tuple(t.strBytesKeep(c), Value{})
		}
		return tuple(Value{}, t.notExist("open", name))
	}
	reg(readFile, "io/ioutil.ReadFile", "os.ReadFile")
	reg(func(t *Thread, a []Value) Value {
		name, ok := isStr(a[0])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		c, ok := t.p.files[name]
		if !ok {
			return tuple(Value{}, t.notExist("open", name))
		}
		p := new(Value)
		*p = t.p.e.zero(t.p.e.namedType("os", "File"))
		p.ref.(*Agg).ext = &openFile{data: t.strBytes(c)}
		return tuple(Value{ref: p}, Value{})
	}, "os.Open")
	file := func(t *Thread, v Value) *openFile {
		p, _ := v.ref.(*Value)
		if p == nil {
			t.rtPanic("invalid memory address or nil pointer dereference")
		}
		f, ok := p.ref.(*Agg).ext.(*openFile)
		if !ok {
			panic(unsupported("file operation"))
		}
		return f
	}
	reg(func(t *Thread, a []Value) Value {
		if t.spec > 0 {
			panic(specAbort{})
		}
		f := file(t, a[0])
		b := sliceOf(a[1])
		if len(b) == 0 {
			return tuple(Value{}, Value{})
		}
		if f.pos >= len(f.data) {
			return tuple(Value{}, *t.p.globalAddr(t.p.e.prog.ImportedPackage("io").Var("EOF")))
		}
		n := 0
		for n < len(b) && f.pos < len(f.data) {
			t.store(&b[n], f.data[f.pos], false)
			n++
			f.pos++
		}
		return tuple(intVal(n), Value{})
	}, "(*os.File).Read")
	reg(func(t *Thread, a []Value) Value { return Value{} }, "(*os.File).Close", "(*os.File).Sync")
	reg(func(t *Thread, a []Value) Value {
		name, ok := isStr(a[0])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		c, ok := t.p.files[name]
		if !ok {
			return tuple(Value{}, t.notExist("stat", name))
		}
		st := t.p.e.namedType("os", "fileStat")
		r := t.p.e.newPtrTo(st)
		u := st.Underlying().(*types.Struct)
		f := r.ref.(*Iface).v.ref.(*Value).ref.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "name":
				f.f[i] = strVal(name)
			case "size":
				f.f[i] = t.strLen(c)
			case "mode":
				f.f[i] = Value{n: 0o644}
			}
		}
		return tuple(r, Value{})
	}, "os.Stat", "os.Lstat")
	reg(func(t *Thread, a []Value) Value { return Value{} }, "os.Getenv")
	reg(func(t *Thread, a []Value) Value { return tuple(Value{}, Value{}) }, "os.LookupEnv")

	// time stands still
	reg(func(t *Thread, a []Value) Value {
		v := t.p.e.zero(t.p.e.namedType("time", "Time"))
		v.ref.(*Agg).f[1] = Value{n: 63900000000}
		return v
	}, "time.Now")
	reg(func(t *Thread, a []Value) Value { return Value{} }, "time.Since", "time.Until")
	reg(func(t *Thread, a []Value) Value {
		if t.spec > 0 {
			panic(specAbort{})
		}
		t.switchPoint()
		return Value{}
	}, "time.Sleep")

	// sync
	reg(func(t *Thread, a []Value) Value {
		g := t.aggExt(a[0])
		l, _ := g.ext.([]Value)
		if len(l) > 0 {
			v := l[len(l)-1]
			g.ext = l[: len(l)-1 : len(l)-1]
			return v
		}
		st := deref(t.p.e.namedType("sync", "Pool")).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				if cl, ok := g.f[i].ref.(*Closure); ok {
					return t.call(cl.fn, nil, cl.free)
				}
			}
		}
		return Value{}
	}, "(*sync.Pool).Get")
	reg(func(t *Thread, a []Value) Value {
		g := t.aggExt(a[0])
		l, _ := g.ext.([]Value)
		if a[1].ref != nil {
			g.ext = append(l, a[1])
		}
		return Value{}
	}, "(*sync.Pool).Put")
	reg(func(t *Thread, a []Value) Value { return Value{} }, "(*sync.copyChecker).check")
	condLock := func(t *Thread, v Value, name string) {
		st := deref(t.p.e.namedType("sync", "Cond")).Underlying().(*types.Struct)
		g := t.aggExt(v)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				l := g.f[i].ref.(*Iface)
				t.call(t.p.e.findMethod(l.rt, nil, name), []Value{l.v}, nil)
			}
		}
	}
	reg(func(t *Thread, a []Value) Value {
		g := t.aggExt(a[0])
		w := &chanItem{}
		l, _ := g.ext.([]*chanItem)
		g.ext = append(l, w)
		condLock(t, a[0], "Unlock")
		t.block(func() bool { return w.taken })
		t.clock = t.clock.join(w.clock)
		condLock(t, a[0], "Lock")
		return Value{}
	}, "(*sync.Cond).Wait")
	signal := func(all bool) nativeFn {
		return func(t *Thread, a []Value) Value {
			g := t.aggExt(a[0])
			l, _ := g.ext.([]*chanItem)
			for len(l) > 0 {
				l[0].taken, l[0].clock = true, t.clock.copy()
				l = l[1:]
				if !all {
					break
				}
			}
			g.ext = l
			return Value{}
		}
	}
	reg(signal(false), "(*sync.Cond).Signal")
	reg(signal(true), "(*sync.Cond).Broadcast")
	syncMap := func(t *Thread, v Value) *MapObj {
		g := t.aggExt(v)
		m, _ := g.ext.(*MapObj)
		if m == nil {
			m = newMap()
			g.ext = m
		}
		return m
	}
	reg(func(t *Thread, a []Value) Value {
		m := syncMap(t, a[0])
		if i := t.findKey(m, anyRT(t), a[1]); i >= 0 {
			return tuple(*m.vals[i], boolVal(true))
		}
		return tuple(Value{}, boolVal(false))
	}, "(*sync.Map).Load")
	reg(func(t *Thread, a []Value) Value { t.mapSet(syncMap(t, a[0]), anyRT(t), a[1], a[2]); return Value{} }, "(*sync.Map).Store")
	reg(func(t *Thread, a []Value) Value {
		m := syncMap(t, a[0])
		if i := t.findKey(m, anyRT(t), a[1]); i >= 0 {
			return tuple(*m.vals[i], boolVal(true))
		}
		t.mapSet(m, anyRT(t), a[1], a[2])
		return tuple(a[2], boolVal(false))
	}, "(*sync.Map).LoadOrStore")
	reg(func(t *Thread, a []Value) Value { t.mapDelete(syncMap(t, a[0]), anyRT(t), a[1]); return Value{} }, "(*sync.Map).Delete")
	reg(func(t *Thread, a []Value) Value {
		m := syncMap(t, a[0])
		if i := t.findKey(m, anyRT(t), a[1]); i >= 0 {
			v := *m.vals[i]
			t.mapDelete(m, anyRT(t), a[1])
			return tuple(v, boolVal(true))
		}
		return tuple(Value{}, boolVal(false))
	}, "(*sync.Map).LoadAndDelete")
	reg(func(t *Thread, a []Value) Value {
		m := syncMap(t, a[0])
		cl := a[1].ref.(*Closure)
		for i := range append([]Value(nil), m.keys...) {
			if m.live[i] && !t.truth(t.call(cl.fn, []Value{m.keys[i], *m.vals[i]}, cl.free)) {
				break
			}
		}
		return Value{}
	}, "(*sync.Map).Range")
	atomics := func(w string, wd uint8) {
		for _, sg := range []string{"Int", "Uint"} {
			reg(func(t *Thread, a []Value) Value {
				p := a[0].ref.(*Value)
				t.atomicOp(p)
				bd := t.p.bd
				if t.cond(bd.Cmp(OpEq, bd.toExpr(*p, wd), bd.toExpr(a[1], wd))) {
					*p = a[2]
					return boolVal(true)
				}
				return boolVal(false)
			}, "sync/atomic.CompareAndSwap"+sg+w)
			reg(func(t *Thread, a []Value) Value {
				p := a[0].ref.(*Value)
				t.atomicOp(p)
				old := *p
				*p = a[1]
				return old
			}, "sync/atomic.Swap"+sg+w)
		}
	}
	atomics("32", 32)
	atomics("64", 64)
	reg(func(t *Thread, a []Value) Value {
		g := t.aggExt(a[0])
		v, _ := g.ext.(*Iface)
		if v == nil {
			return Value{}
		}
		return Value{ref: v}
	}, "(*sync/atomic.Value).Load")
	reg(func(t *Thread, a []Value) Value {
		g := t.aggExt(a[0])
		if a[1].ref == nil {
			panic(&targetPanic{msg: "sync/atomic: store of nil value into Value"})
		}
		g.ext = a[1].ref.(*Iface)
		return Value{}
	}, "(*sync/atomic.Value).Store")

	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10} {
		f := f
		reg(func(t *Thread, a []Value) Value { return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))} }, "math."+n)
	}

	// types as values
	typeOf := func(t *Thread, a []Value) Value {
		i, _ := a[0].ref.(*Iface)
		if i == nil {
			return Value{}
		}
		return i.rt.typeValue(t.p.e)
	}
	reg(typeOf, "reflect.TypeOf")
	reg(func(t *Thread, a []Value) Value { return Value{} }, "internal/reflectlite.TypeOf")
	reg(func(t *Thread, a []Value) Value {
		return strVal(a[0].ref.(*Value).ref.(*Agg).ext.(*RType).name)
	}, "(*reflect.rtype).String")
	reg(func(t *Thread, a []Value) Value {
		rt := a[0].ref.(*Value).ref.(*Agg).ext.(*RType)
		if n, ok := rt.t.(*types.Named); ok {
			return strVal(n.Obj().Name())
		}
		if b, ok := rt.t.(*types.Basic); ok {
			return strVal(b.Name())
		}
		return Value{}
	}, "(*reflect.rtype).Name")
	reg(func(t *Thread, a []Value) Value {
		i, _ := a[1].ref.(*Iface)
		if i == nil || i.rt.name != "*errors.errorString" {
			return boolVal(false)
		}
		s, _ := isStr(i.v.ref.(*Value).ref.(*Agg).f[0])
		switch s {
		case "permission denied":
			return boolVal(a[0].n == 13 || a[0].n == 1)
		case "file already exists":
			return boolVal(a[0].n == 17 || a[0].n == 39)
		case "file does not exist":
			return boolVal(a[0].n == 2)
		}
		return boolVal(false)
	}, "(syscall.Errno).Is")
	isErr := func(ns ...uint64) nativeFn {
		return func(t *Thread, a []Value) Value {
			i, _ := a[0].ref.(*Iface)
			for i != nil && (i.rt.name == "*fs.PathError" || i.rt.name == "*io/fs.PathError") {
				i, _ = i.v.ref.(*Value).ref.(*Agg).f[2].ref.(*Iface)
			}
			if i == nil || i.rt.name != "syscall.Errno" {
				return boolVal(false)
			}
			for _, n := range ns {
				if i.v.n == n {
					return boolVal(true)
				}
			}
			return boolVal(false)
		}
	}
	reg(isErr(2), "os.IsNotExist")
	reg(isErr(13, 1), "os.IsPermission")
	reg(isErr(17, 39), "os.IsExist")

	// bytes
	reg(func(t *Thread, a []Value) Value { return t.indexByte(sliceOf(a[0]), a[1]) }, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(t *Thread, a []Value) Value {
		return t.strEq(t.bytesToStr(sliceOf(a[0])), t.bytesToStr(sliceOf(a[1])))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(t *Thread, a []Value) Value {
		bd := t.p.bd
		n := Value{}
		for _, b := range sliceOf(a[0]) {
			if t.truth(fromBool(bd.Cmp(OpEq, bd.toExpr(b, 8), bd.toExpr(a[1], 8)))) {
				n.n++
			}
		}
		return n
	}, "internal/bytealg.Count")

	symFns["unicode/utf8.DecodeLastRuneInString"] = func(t *Thread, a []Value) Value {
		es := strElems(a[0])
		if len(es) == 0 {
			return tuple(Value{n: utf8.RuneError}, Value{})
		}
		return tuple(es[len(es)-1].rune(), t.elemLen(es[len(es)-1]))
	}
	symFns["unicode.ToUpper"] = func(t *Thread, a []Value) Value { return fromExpr(t.caseExpr(a[0].sym(), unicode.UpperCase), true) }
	symFns["unicode.ToLower"] = func(t *Thread, a []Value) Value { return fromExpr(t.caseExpr(a[0].sym(), unicode.LowerCase), true) }
	symFns["strings.ToUpper"] = func(t *Thread, a []Value) Value { return t.caseElems(a[0], unicode.UpperCase) }
	symFns["strings.ToLower"] = func(t *Thread, a []Value) Value { return t.caseElems(a[0], unicode.LowerCase) }
	symFns["strconv.Quote"] = func(t *Thread, a []Value) Value { return t.quote(a[0], '"') }
	symFns["strconv.QuoteRune"] = func(t *Thread, a []Value) Value { return t.quote(t.runesToStr(a[:1]), '\'') }
	symFns["strings.EqualFold"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		if len(x) != len(y) {
			return boolVal(false)
		}
		bd := t.p.bd
		r := bd.True
		for i := range x {
			if x[i].e == nil && y[i].e == nil {
				f := func(e strElem) string {
					if e.r >= badByte {
						return "\xff"
					}
					return string(e.r)
				}
				r = bd.And(r, bd.Bool(strings.EqualFold(f(x[i]), f(y[i]))))
				continue
			}
			c := t.elemEq(x[i], y[i])
			if x[i].e != nil && y[i].e != nil {
				f := func(e *Expr) *Expr { return t.caseExpr(t.caseExpr(e, unicode.UpperCase), unicode.LowerCase) }
				c = bd.Or(c, bd.Cmp(OpEq, f(x[i].e), f(y[i].e)))
			} else {
				u, v := x[i], y[i]
				if u.e == nil {
					u, v = v, u
				}
				if v.r < badByte {
					for o := unicode.SimpleFold(v.r); o != v.r; o = unicode.SimpleFold(o) {
						c = bd.Or(c, bd.Cmp(OpEq, u.e, bd.Const(uint64(o), 32)))
					}
				}
			}
			r = bd.And(r, c)
		}
		return fromBool(r)
	}
	symFns["strings.Compare"] = func(t *Thread, a []Value) Value {
		if t.truth(t.strEq(a[0], a[1])) {
			return Value{}
		}
		if t.truth(t.strLess(token.LSS, a[0], a[1])) {
			return intVal(-1)
		}
		return intVal(1)
	}
	symFns["strings.Count"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		if len(y) == 0 {
			return intVal(len(x) + 1)
		}
		n := 0
		for i := 0; i+len(y) <= len(x); {
			if t.cond(t.matchAt(x, i, y)) {
				n++
				i += len(y)
				continue
			}
			i++
		}
		return intVal(n)
	}
	symFns["strings.LastIndex"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		for i := len(x) - len(y); i >= 0; i-- {
			if t.cond(t.matchAt(x, i, y)) {
				return t.strLen(elemsToStr(x[:i]))
			}
		}
		return intVal(-1)
	}
	symFns["strings.IndexAny"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		for i := range x {
			c := t.p.bd.False
			for _, e := range y {
				c = t.p.bd.Or(c, t.elemEq(x[i], e))
			}
			if t.cond(c) {
				return t.strLen(elemsToStr(x[:i]))
			}
		}
		return intVal(-1)
	}
}

// ---- channels ----

type chanItem struct {
	v     Value
	clock vclock
	from  *Thread
	taken bool
}

type chanObj struct {
	cap    int
	buf    []*chanItem
	closed bool
	clock  vclock // of receivers and of close
	recvs  int    // threads waiting to receive
}

func (ch *chanObj) canSend() bool {
	if ch.closed {
		return true
	}
	if ch.cap > 0 {
		return len(ch.buf) < ch.cap
	}
	return ch.recvs > len(ch.buf)
}

func (ch *chanObj) canRecv() bool { return len(ch.buf) > 0 || ch.closed }

func (t *Thread) chanOf(v Value) *chanObj {
	if t.spec > 0 {
		panic(specAbort{})
	}
	ch, _ := v.ref.(*chanObj)
	return ch
}

func (t *Thread) tick() {
	t.clock = t.clock.join(make(vclock, t.id+1))
	t.clock[t.id]++
}

func (t *Thread) send(ch *chanObj, v Value) {
	if ch == nil {
		t.block(func() bool { return false })
	}
	t.switchPoint()
	if ch.cap > 0 {
		t.block(func() bool { return ch.canSend() })
	}
	t.put(ch, v)
}

// put sends on a channel that is ready (or, without a buffer, waits until the value is taken).
func (t *Thread) put(ch *chanObj, v Value) {
	if ch.closed {
		panic(&targetPanic{msg: "send on closed channel"})
	}
	t.clock = t.clock.join(ch.clock)
	it := &chanItem{v: copyVal(v), clock: t.clock.copy(), from: t}
	t.tick()
	ch.buf = append(ch.buf, it)
	if ch.cap == 0 {
		t.block(func() bool { return it.taken || ch.closed })
		if !it.taken {
			panic(&targetPanic{msg: "send on closed channel"})
		}
		t.clock = t.clock.join(ch.clock)
	}
}

func (t *Thread) recv(ch *chanObj, zero Value) (Value, bool) {
	if ch == nil {
		t.block(func() bool { return false })
	}
	t.switchPoint()
	ch.recvs++
	t.block(ch.canRecv)
	ch.recvs--
	return t.take(ch, zero)
}

func (t *Thread) take(ch *chanObj, zero Value) (Value, bool) {
	if len(ch.buf) == 0 {
		t.clock = t.clock.join(ch.clock)
		return zero, false
	}
	it := ch.buf[0]
	ch.buf = append([]*chanItem(nil), ch.buf[1:]...)
	it.taken = true
	t.clock = t.clock.join(it.clock)
	ch.clock = ch.clock.join(t.clock)
	t.tick()
	return it.v, true
}

func (c *compiler) chanInstr(in ssa.Instruction) opFn {
	e := c.e
	switch in := in.(type) {
	case *ssa.MakeChan:
		dst, sz := c.reg(in), c.opnd(in.Size)
		return func(fr *frame) {
			n := int(int64(fr.concInt(fr.get(&sz), 64, true)))
			if n < 0 {
				fr.t.rtPanic("makechan: size out of range")
			}
			fr.regs[dst] = Value{ref: &chanObj{cap: n}}
		}
	case *ssa.Send:
		ch, x := c.opnd(in.Chan), c.opnd(in.X)
		return func(fr *frame) { fr.t.send(fr.t.chanOf(fr.get(&ch)), fr.get(&x)) }
	case *ssa.UnOp:
		dst, ch := c.reg(in), c.opnd(in.X)
		el := in.X.Type().Underlying().(*types.Chan).Elem()
		ok := in.CommaOk
		return func(fr *frame) {
			v, more := fr.t.recv(fr.t.chanOf(fr.get(&ch)), e.zero(el))
			if ok {
				fr.regs[dst] = tuple(v, boolVal(more))
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.Select:
		dst := c.reg(in)
		type state struct {
			send  bool
			ch, x opnd
			el    types.Type
		}
		var states []state
		for _, s := range in.States {
			st := state{send: s.Dir == types.SendOnly, ch: c.opnd(s.Chan), el: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if st.send {
				st.x = c.opnd(s.Send)
			}
			states = append(states, st)
		}
		return func(fr *frame) {
			t := fr.t
			if t.spec > 0 {
				panic(specAbort{})
			}
			chs := make([]*chanObj, len(states))
			for i := range states {
				chs[i] = t.chanOf(fr.get(&states[i].ch))
			}
			ready := func() []int {
				var r []int
				for i, ch := range chs {
					if ch != nil && (states[i].send && ch.canSend() || !states[i].send && ch.canRecv()) {
						r = append(r, i)
					}
				}
				return r
			}
			t.switchPoint()
			res := make([]Value, 2)
			for i := range states {
				if !states[i].send {
					res = append(res, e.zero(states[i].el))
				}
			}
			rs := ready()
			if len(rs) == 0 && !in.Blocking {
				res[0] = intVal(-1)
				fr.regs[dst] = tuple(res...)
				return
			}
			if len(rs) == 0 {
				for i, ch := range chs {
					if ch != nil && !states[i].send {
						ch.recvs++
					}
				}
				t.block(func() bool { return len(ready()) > 0 })
				for i, ch := range chs {
					if ch != nil && !states[i].send {
						ch.recvs--
					}
				}
				rs = ready()
			}
			k := rs[0]
			if len(rs) > 1 {
				k = rs[t.p.choose(len(rs), "sched")]
			}
			res[0] = intVal(k)
			if states[k].send {
				t.put(chs[k], fr.get(&states[k].x))
			} else {
				v, ok := t.take(chs[k], e.zero(states[k].el))
				res[1] = boolVal(ok)
				j := 2
				for i := 0; i < k; i++ {
					if !states[i].send {
						j++
					}
				}
				res[j] = v
			}
			fr.regs[dst] = tuple(res...)
		}
	}
	return c.unsup("channel operation")
}

func (t *Thread) closeChan(v Value) {
	ch := t.chanOf(v)
	if ch == nil {
		panic(&targetPanic{msg: "close of nil channel"})
	}
	t.switchPoint()
	if ch.closed {
		panic(&targetPanic{msg: "close of closed channel"})
	}
	ch.closed = true
	ch.clock = ch.clock.join(t.clock)
	t.tick()
}

// quoteOne is a character as strconv.Quote writes it between quotes q.
func quoteOne(c rune, q rune) string {
	if c == q {
		return `\` + string(q)
	}
	if c == '"' || c == '\'' {
		return string(c)
	}
	s := strconv.Quote(string(c))
	return s[1 : len(s)-1]
}

// typeValue is reflect.TypeOf of a value of the type.
func (rt *RType) typeValue(e *Engine) Value {
	e.rtMu.Lock()
	tv, ok := typeVals[rt]
	e.rtMu.Unlock()
	if !ok {
		nt := e.namedType("reflect", "rtype")
		v := e.newPtrTo(nt)
		v.ref.(*Iface).v.ref.(*Value).ref.(*Agg).ext = rt
		e.rtMu.Lock()
		if tv, ok = typeVals[rt]; !ok {
			typeVals[rt], tv = v, v
		}
		e.rtMu.Unlock()
	}
	return tv
}

var typeVals = map[*RType]Value{}
