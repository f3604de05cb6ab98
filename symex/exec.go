package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	t         *Thread
	f         *Func
	regs      []Value
	defers    []deferred
	prev      int
	result    Value
	panicking *targetPanic
	recovered bool
	caller    *frame
	deferOf   *frame // when this frame runs a deferred call: the frame that deferred it
}

type deferred struct {
	ct   callTarget
	args []Value
}

// targetPanic is a panic of the program under test.
type targetPanic struct {
	val Value
	msg string
}

// pathAbort ends the path.
type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abLimit    // step / depth limit: candidate for non-termination
	abDeadlock // all threads blocked
	abExit     // os.Exit
	abDone     // other thread finished the path
	abStop     // the whole exploration stops
	abUnknown  // solver gave no answer
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func unsupported(s string) *pathAbort { return &pathAbort{abUnsupported, s} }

type specAbort struct{}

// Thread is one goroutine of the program under test.
type Thread struct {
	p            *Path
	id           int
	depth        int
	top          *frame
	stack        []Value
	sp           int
	wake         chan bool
	ended        chan struct{}
	done         bool
	blockd       func() bool // nil, or condition under which the thread may continue
	clock        vclock
	spec         int
	initDepth    int
	pendingDefer []*frame
}

const maxDepth = 3000

func (t *Thread) rtPanic(msg string) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{msg: "runtime error: " + msg, val: Value{ref: &Iface{rt: t.p.e.rtErr, v: strVal("runtime error: " + msg)}}})
}

func (t *Thread) allocRegs(n int) []Value {
	if t.sp+n > len(t.stack) {
		sz := 2 * len(t.stack)
		if sz < 4096 {
			sz = 4096
		}
		if sz < n {
			sz = n
		}
		// frames already running keep their slices of the old stack
		t.stack = make([]Value, sz)
		t.sp = 0
	}
	r := t.stack[t.sp : t.sp+n : t.sp+n]
	t.sp += n
	return r
}

func (t *Thread) call(f *Func, args []Value, free []Value) Value {
	if f.native != nil {
		return f.native(t, args)
	}
	if f.blocks == nil {
		if ab := t.p.e.initOnly(f); ab {
			return Value{}
		}
		t.p.e.ensureCompiled(f)
	}
	if t.depth >= maxDepth {
		panic(&pathAbort{abLimit, "recursion deeper than " + fmt.Sprint(maxDepth) + " in " + f.name})
	}
	t.p.w.noteFunc(f)
	oldStack, oldSp := t.stack, t.sp
	fr := frame{t: t, f: f, caller: t.top}
	fr.regs = t.allocRegs(f.nregs)
	copy(fr.regs, args)
	copy(fr.regs[f.params:], free)
	t.depth++
	t.top = &fr
	if f.hasDefer {
		fr.runWithDefers()
	} else {
		fr.run(0)
	}
	t.top = fr.caller
	t.depth--
	for i := range fr.regs {
		fr.regs[i] = Value{}
	}
	if len(oldStack) > 0 {
		t.stack, t.sp = oldStack, oldSp
	} else {
		t.sp = 0
	}
	return fr.result
}

func (fr *frame) runWithDefers() {
	t := fr.t
	depth := t.depth
	ok := false
	var abortErr any
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				abortErr = r
				return
			}
			fr.panicking = tp
		}()
		fr.run(0)
		ok = true
	}()
	if ok {
		return
	}
	if abortErr != nil {
		panic(abortErr)
	}
	// unwinding: run the deferred calls
	t.top = fr
	t.depth = depth
	fr.runDefers()
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	// recovered
	if fr.f.recover_ >= 0 {
		fr.run(fr.f.recover_)
	} else {
		fr.result = t.p.e.zeroResults(fr.f)
	}
}

func (e *Engine) zeroResults(f *Func) Value {
	switch len(f.resKinds) {
	case 0:
		return Value{}
	case 1:
		return e.zero(f.resKinds[0].t)
	}
	a := &Agg{}
	for _, r := range f.resKinds {
		a.f = append(a.f, e.zero(r.t))
	}
	return Value{ref: a}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDeferred(d)
	}
}

func (fr *frame) runDeferred(d deferred) {
	t := fr.t
	if fr.panicking == nil {
		t.deferCall(fr, d)
		return
	}
	// a panic inside the deferred call replaces the current one
	ok := false
	var other any
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			if tp, is := r.(*targetPanic); is {
				fr.panicking = tp
			} else {
				other = r
			}
		}()
		t.deferCall(fr, d)
		ok = true
	}()
	if other != nil {
		panic(other)
	}
}

func (t *Thread) deferCall(fr *frame, d deferred) {
	if d.ct.bi != nil {
		t.callTarget(fr, d.ct, d.args)
		return
	}
	f := d.ct.fn
	if f.native != nil {
		f.native(t, d.args)
		return
	}
	t.pendingDefer = append(t.pendingDefer, fr)
	n := len(t.pendingDefer)
	t.call(f, d.args, d.ct.free)
	t.pendingDefer = t.pendingDefer[:n-1]
}

// doRecover implements recover() called from a deferred function.
func (fr *frame) doRecover() Value {
	t := fr.t
	for i := len(t.pendingDefer) - 1; i >= 0; i-- {
		pf := t.pendingDefer[i]
		if pf == fr.caller && pf.panicking != nil {
			tp := pf.panicking
			pf.panicking = nil
			return tp.val
		}
	}
	return Value{}
}

// run executes from the given block until the function returns.
func (fr *frame) run(bi int) {
	t := fr.t
	p := t.p
	blocks := fr.f.blocks
	b := blocks[bi]
	for {
		p.steps += int64(len(b.code)) + 1
		if p.steps > p.maxSteps {
			panic(&pathAbort{abLimit, "step limit in " + fr.f.name})
		}
		for _, op := range b.code {
			op(fr)
		}
		switch b.term {
		case tJump:
			nb := blocks[b.succ[0]]
			if len(nb.phis) > 0 {
				fr.doPhis(nb, b.spred[0])
			}
			b = nb
		case tIf:
			cv := fr.get(&b.cond)
			i := 1
			if e := cv.sym(); e != nil {
				if b.region != nil && t.spec == 0 && len(p.threads) < 2 {
					if nb := fr.tryRegion(b, e); nb != nil {
						b = nb
						continue
					}
				}
				if p.branchAt(t, e) {
					i = 0
				}
			} else if cv.n == 1 {
				i = 0
			}
			nb := blocks[b.succ[i]]
			if len(nb.phis) > 0 {
				fr.doPhis(nb, b.spred[i])
			}
			b = nb
		case tReturn:
			switch len(b.ret) {
			case 0:
			case 1:
				fr.result = fr.get(&b.ret[0])
			default:
				a := &Agg{f: make([]Value, len(b.ret))}
				for i := range b.ret {
					a.f[i] = fr.get(&b.ret[i])
				}
				fr.result = Value{ref: a}
			}
			return
		case tPanic:
			v := fr.get(&b.arg)
			if t.spec > 0 {
				panic(specAbort{})
			}
			panic(&targetPanic{val: v, msg: t.panicText(v)})
		}
	}
}

func (fr *frame) doPhis(nb *Block, pred int) {
	if len(nb.phis) == 1 {
		ph := &nb.phis[0]
		fr.regs[ph.dst] = fr.get(&ph.edge[pred])
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range nb.phis {
		vals = append(vals, fr.get(&nb.phis[i].edge[pred]))
	}
	for i := range nb.phis {
		fr.regs[nb.phis[i].dst] = vals[i]
	}
}

// ---- region merging ----

type regExit struct {
	target int
	cond   *Expr
	phis   []Value
}

// tryRegion evaluates a region of side-effect free blocks under both outcomes of a symbolic
// condition and merges the results, so that a short-circuit condition costs one branch instead
// of one per operand. It returns nil when that is not possible.
func (fr *frame) tryRegion(b *Block, root *Expr) (next *Block) {
	t := fr.t
	p := t.p
	depth, top, stack, sp := t.depth, t.top, t.stack, t.sp
	var exits []regExit
	t.spec++
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			if _, is := r.(specAbort); is {
				return
			}
			panic(r)
		}()
		fr.walkRegion(b.region, root, p.bd.True, &exits)
		ok = true
	}()
	t.spec--
	if !ok {
		t.depth, t.top, t.stack, t.sp = depth, top, stack, sp
		return nil
	}
	// group by target
	var targets []int
	for _, x := range exits {
		seen := false
		for _, y := range targets {
			if x.target == y {
				seen = true
			}
		}
		if !seen {
			targets = append(targets, x.target)
		}
	}
	if len(targets) > 2 {
		return nil
	}
	blocks := fr.f.blocks
	merged := make([][]Value, len(targets))
	conds := make([]*Expr, len(targets))
	for ti, tg := range targets {
		nb := blocks[tg]
		cond := p.bd.False
		var vals []Value
		first := true
		for _, x := range exits {
			if x.target != tg {
				continue
			}
			if first {
				vals = append([]Value(nil), x.phis...)
				cond = x.cond
				first = false
				continue
			}
			for i := range nb.phis {
				v, mok := t.mergeVals(&nb.phis[i], x.cond, x.phis[i], vals[i])
				if !mok {
					return nil
				}
				vals[i] = v
			}
			cond = p.bd.Or(cond, x.cond)
		}
		merged[ti] = vals
		conds[ti] = cond
	}
	ti := 0
	if len(targets) == 2 {
		if !p.branchAt(t, conds[0]) {
			ti = 1
		}
	}
	nb := blocks[targets[ti]]
	for i := range nb.phis {
		fr.regs[nb.phis[i].dst] = merged[ti][i]
	}
	return nb
}

// mergeVals returns ite(c, a, b) for a phi value.
func (t *Thread) mergeVals(ph *phi, c *Expr, a, b Value) (Value, bool) {
	bd := t.p.bd
	switch ph.k {
	case kInt:
		return fromExpr(bd.Ite(c, bd.toExpr(a, ph.w), bd.toExpr(b, ph.w)), ph.sgn), true
	case kBool:
		return fromBool(bd.Ite(c, bd.toExpr(a, 0), bd.toExpr(b, 0))), true
	}
	if a.n != b.n {
		return Value{}, false
	}
	switch x := a.ref.(type) {
	case nil:
		return a, b.ref == nil
	case string:
		y, ok := b.ref.(string)
		return a, ok && x == y
	case *Value:
		y, ok := b.ref.(*Value)
		return a, ok && x == y
	case *SymStr:
		y, ok := b.ref.(*SymStr)
		return a, ok && x == y
	case *Iface:
		y, ok := b.ref.(*Iface)
		return a, ok && x == y
	case *MapObj:
		y, ok := b.ref.(*MapObj)
		return a, ok && x == y
	case *Agg:
		y, ok := b.ref.(*Agg)
		return a, ok && x == y
	case []Value:
		y, ok := b.ref.([]Value)
		if ok && len(x) == len(y) && cap(x) == cap(y) && (cap(x) == 0 || &x[:1][0] == &y[:1][0]) {
			return a, true
		}
	}
	return Value{}, false
}

func (fr *frame) walkRegion(n *regNode, cond *Expr, pc *Expr, exits *[]regExit) {
	bd := fr.t.p.bd
	take := func(i int, pc *Expr) {
		if pc.isConst() && pc.k == 0 {
			return
		}
		ed := &n.succ[i]
		if ed.node == nil {
			nb := fr.f.blocks[ed.target]
			x := regExit{target: ed.target, cond: pc}
			for k := range nb.phis {
				x.phis = append(x.phis, fr.get(&nb.phis[k].edge[ed.pred]))
			}
			*exits = append(*exits, x)
			return
		}
		m := ed.node
		fr.t.p.steps += int64(len(m.b.code)) + 1
		for _, op := range m.b.code {
			op(fr)
		}
		if m.b.term == tJump {
			fr.walkRegion(m, nil, pc, exits)
			return
		}
		cv := fr.get(&m.b.cond)
		if e := cv.sym(); e != nil {
			fr.walkRegion(m, e, pc, exits)
		} else if cv.n == 1 {
			fr.walkRegion(m, bd.True, pc, exits)
		} else {
			fr.walkRegion(m, bd.False, pc, exits)
		}
	}
	if n.b.term == tJump {
		take(0, pc)
		return
	}
	take(0, bd.And(pc, cond))
	take(1, bd.And(pc, bd.Not(cond)))
}

// ---- memory ----

func (t *Thread) store(p *Value, v Value, agg bool) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	if agg {
		if src, ok := v.ref.(*Agg); ok {
			if dst, ok := p.ref.(*Agg); ok && len(dst.f) == len(src.f) {
				dst.ext = nil
				for i := range src.f {
					_, isAgg := src.f[i].ref.(*Agg)
					t.store(&dst.f[i], src.f[i], isAgg)
				}
				return
			}
			v = copyVal(v)
		}
	}
	t.noteWriteVal(p, v)
	*p = v
}

func (t *Thread) appendVals(dst Value, add []Value, esz int, agg bool) Value {
	if t.spec > 0 {
		panic(specAbort{})
	}
	s := sliceOf(dst)
	if len(add) == 0 {
		return dst
	}
	n := len(s) + len(add)
	tmp := add
	if agg {
		tmp = make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
	}
	if t.p.monitoring {
		for i := range add {
			t.noteRead(&add[i])
		}
	}
	if n <= cap(s) {
		r := s[:n]
		if t.p.monitoring {
			for i := len(s); i < n; i++ {
				t.noteWriteVal(&r[i], tmp[i-len(s)])
			}
		}
		copy(r[len(s):], tmp)
		return Value{ref: r}
	}
	if t.p.monitoring {
		for i := range s {
			t.noteRead(&s[i])
		}
	}
	c := growCap(cap(s), n, esz)
	r := make([]Value, n, c)
	copy(r, s)
	copy(r[len(s):], tmp)
	return Value{ref: r}
}

// growCap mimics runtime.growslice.
func growCap(oldCap, newLen, esz int) int {
	newcap := oldCap
	dbl := newcap + newcap
	if newLen > dbl {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = dbl
	} else {
		for {
			newcap += (newcap + 3*256) >> 2
			if newcap >= newLen {
				break
			}
		}
	}
	if esz == 0 {
		return newcap
	}
	sz := newcap * esz
	return roundupsize(sz) / esz
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(sz int) int {
	for _, c := range sizeClasses {
		if sz <= c {
			return c
		}
	}
	return (sz + 8191) &^ 8191
}

// ---- maps ----

// findKey returns the index of key k, forking when the comparison is symbolic; -1 if absent.
func (t *Thread) findKey(mo *MapObj, kr *RType, k Value) int {
	if ck, ok := concKey(kr.kind, k); ok {
		if i, ok := mo.idx[ck]; ok {
			return i
		}
		if !mo.symk {
			return -1
		}
	}
	for i := range mo.keys {
		if !mo.live[i] {
			continue
		}
		r := t.equal(kr, kr, mo.keys[i], k)
		if e := r.sym(); e != nil {
			if t.p.branchAt(t, e) {
				return i
			}
		} else if r.n == 1 {
			return i
		}
	}
	return -1
}

func (t *Thread) mapSet(mo *MapObj, kr *RType, k, v Value) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	i := t.findKey(mo, kr, k)
	if i >= 0 {
		*mo.vals[i] = v
		return
	}
	mo.keys = append(mo.keys, k)
	nv := new(Value)
	*nv = v
	mo.vals = append(mo.vals, nv)
	mo.live = append(mo.live, true)
	mo.n++
	if ck, ok := concKey(kr.kind, k); ok {
		mo.idx[ck] = len(mo.keys) - 1
	} else {
		mo.symk = true
	}
}

func (t *Thread) mapDelete(mo *MapObj, kr *RType, k Value) {
	i := t.findKey(mo, kr, k)
	if i < 0 {
		return
	}
	mo.live[i] = false
	mo.n--
	if ck, ok := concKey(kr.kind, mo.keys[i]); ok {
		delete(mo.idx, ck)
	}
}

// mapGet returns the value and whether it is present (possibly symbolic when the value does not
// depend on the key).
func (t *Thread) mapGet(mo *MapObj, kr, vr *RType, k Value) (Value, Value) {
	if mo == nil {
		return Value{}, Value{}
	}
	t.noteMapRead(mo)
	if e := k.sym(); e != nil && kr.kind == kInt && !mo.symk && mo.n > 0 {
		bd := t.p.bd
		// all values equal and zero-like: no need to know which key it is
		same := true
		var first *Value
		for i := range mo.keys {
			if !mo.live[i] {
				continue
			}
			if first == nil {
				first = mo.vals[i]
				continue
			}
			if vr.kind == kInt || vr.kind == kBool {
				continue // merged with ite below
			}
			if !(first.ref == nil && mo.vals[i].ref == nil && first.n == mo.vals[i].n) {
				same = false
			}
		}
		if same && (vr.kind == kInt || vr.kind == kBool || first.ref == nil && first.n == 0) {
			ok := bd.False
			var val *Expr
			if vr.kind == kInt || vr.kind == kBool {
				val = bd.Const(0, vr.w)
			}
			for i := range mo.keys {
				if !mo.live[i] {
					continue
				}
				c := bd.Cmp(OpEq, e, bd.Const(mo.keys[i].n, e.w))
				ok = bd.Or(ok, c)
				if val != nil {
					val = bd.Ite(c, bd.toExpr(*mo.vals[i], vr.w), val)
				}
			}
			if val == nil {
				return Value{}, fromBool(ok)
			}
			okv := fromBool(ok)
			if okv.ref == nil && okv.n == 0 {
				return Value{}, okv
			}
			return fromExpr(val, vr.sgn), okv
		}
		if same && first != nil && vr.kind == kStruct && len(first.ref.(*Agg).f) == 0 {
			ok := bd.False
			for i := range mo.keys {
				if mo.live[i] {
					ok = bd.Or(ok, bd.Cmp(OpEq, e, bd.Const(mo.keys[i].n, e.w)))
				}
			}
			return *first, fromBool(ok)
		}
	}
	i := t.findKey(mo, kr, k)
	if i < 0 {
		return Value{}, Value{}
	}
	return *mo.vals[i], Value{n: 1}
}

type mapIter struct {
	m    *MapObj
	rest []int
}

func (it *mapIter) next(t *Thread) Value {
	for len(it.rest) > 0 {
		// drop entries deleted meanwhile
		var live []int
		for _, i := range it.rest {
			if it.m.live[i] {
				live = append(live, i)
			}
		}
		it.rest = live
		if len(live) == 0 {
			break
		}
		k := 0
		if t.p.mapOrder && len(live) > 1 {
			k = t.p.choose(len(live), "maporder")
		}
		i := live[k]
		it.rest = append(append([]int(nil), live[:k]...), live[k+1:]...)
		return tuple(Value{n: 1}, it.m.keys[i], copyVal(*it.m.vals[i]))
	}
	return tuple(Value{}, Value{}, Value{})
}

// equal compares two values of (possibly different, when an interface is involved) types.
func (t *Thread) equal(ra, rb *RType, a, b Value) Value {
	bd := t.p.bd
	if ra.kind == kIface && rb.kind != kIface {
		b = Value{ref: &Iface{rt: rb, v: b}}
	} else if rb.kind == kIface && ra.kind != kIface {
		a = Value{ref: &Iface{rt: ra, v: a}}
		ra = rb
	}
	switch ra.kind {
	case kInt, kBool:
		if a.ref == nil && b.ref == nil {
			return boolVal(a.n == b.n)
		}
		return fromBool(bd.Cmp(OpEq, bd.toExpr(a, ra.w), bd.toExpr(b, ra.w)))
	case kFloat:
		return boolVal(a.n == b.n)
	case kString:
		return t.strEq(a, b)
	case kIface:
		x, _ := a.ref.(*Iface)
		y, _ := b.ref.(*Iface)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if x.rt != y.rt {
			return boolVal(false)
		}
		if x.rt.kind == kSlice || x.rt.kind == kMap || x.rt.kind == kFunc {
			t.rtPanic("comparing uncomparable type " + x.rt.name)
		}
		return t.equal(x.rt, x.rt, x.v, y.v)
	case kStruct, kArray:
		x, y := a.ref.(*Agg), b.ref.(*Agg)
		r := bd.True
		for i := range x.f {
			var ft types.Type
			if st, ok := ra.t.Underlying().(*types.Struct); ok {
				ft = st.Field(i).Type()
			} else {
				ft = ra.t.Underlying().(*types.Array).Elem()
			}
			fr := t.p.e.rtypeL(ft)
			e := t.equal(fr, fr, x.f[i], y.f[i])
			r = bd.And(r, bd.toExpr(e, 0))
		}
		return fromBool(r)
	case kPtr:
		if a.ref == nil || b.ref == nil {
			return boolVal(a.ref == nil && b.ref == nil)
		}
		x, ok1 := a.ref.(*Value)
		y, ok2 := b.ref.(*Value)
		if ok1 && ok2 {
			return boolVal(x == y)
		}
		return boolVal(a.ref == b.ref)
	case kSlice, kMap, kFunc, kChan:
		if a.ref == nil || b.ref == nil {
			return boolVal(a.ref == nil && b.ref == nil)
		}
		if x, ok := a.ref.(*MapObj); ok {
			return boolVal(x == b.ref.(*MapObj))
		}
		if x, ok := a.ref.(*chanObj); ok {
			return boolVal(x == b.ref.(*chanObj))
		}
		panic(unsupported("comparison of " + ra.name))
	}
	panic(unsupported("comparison of " + ra.name))
}

func (e *Engine) implements(rt *RType, iface *types.Interface) bool {
	type key struct {
		rt *RType
		i  *types.Interface
	}
	k := key{rt, iface}
	e.implMu.RLock()
	v, ok := e.impl[k]
	e.implMu.RUnlock()
	if ok {
		return v
	}
	v = types.Implements(rt.t, iface)
	e.implMu.Lock()
	e.impl[k] = v
	e.implMu.Unlock()
	return v
}

func (e *Engine) findMethod(rt *RType, pkg *types.Package, name string) *Func {
	type key struct {
		rt   *RType
		pkg  *types.Package
		name string
	}
	k := key{rt, pkg, name}
	e.implMu.RLock()
	f, ok := e.meths[k]
	e.implMu.RUnlock()
	if ok {
		return f
	}
	e.mu.Lock()
	var sf *ssa.Function
	ms := e.prog.MethodSets.MethodSet(rt.t)
	sel := ms.Lookup(pkg, name)
	if sel == nil && pkg == nil {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	if sel != nil {
		sf = e.prog.MethodValue(sel)
	}
	if sf != nil {
		f = e.getFunc(sf)
	}
	e.mu.Unlock()
	e.implMu.Lock()
	e.meths[k] = f
	e.implMu.Unlock()
	return f
}
