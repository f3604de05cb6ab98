package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// opnd is an operand: register or constant or global.
type opnd struct {
	reg int // >= 0: register
	c   Value
	g   *ssa.Global
}

type opFn func(fr *frame)

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tReturn
	tPanic
)

type Block struct {
	idx    int
	code   []opFn
	phis   []phi
	term   termKind
	cond   opnd
	succ   [2]int
	spred  [2]int // index of this block among the predecessors of succ[i]
	ret    []opnd
	arg    opnd
	region *regNode // symbolic-merge region rooted at this block's If
	pos    token.Pos
}

type phi struct {
	dst  int
	k    kind
	w    uint8
	sgn  bool
	edge []opnd
}

type regEdge struct {
	node   *regNode
	target int
	pred   int
}

type regNode struct {
	b    *Block
	succ [2]regEdge
	n    int // number of successors
}

type Func struct {
	fn       *ssa.Function
	name     string
	nregs    int
	params   int
	blocks   []*Block
	hasDefer bool
	recover_ int
	native   nativeFn
	resKinds []*RType
	pure     int // 0 unknown 1 pure 2 impure
	inTarget bool
}

func (e *Engine) compileFunc(fn *ssa.Function) *Func {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.getFunc(fn)
}

// getFunc returns the Func shell; the body is compiled on first call.
func (e *Engine) getFunc(fn *ssa.Function) *Func {
	if f, ok := e.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn, name: fn.String()}
	if fn.Pkg != nil {
		f.inTarget = e.isTarget(fn.Pkg.Pkg.Path())
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		f.inTarget = e.isTarget(fn.Parent().Pkg.Pkg.Path())
	} else if r := fn.Signature.Recv(); r != nil {
		f.inTarget = strings.Contains(fn.String(), e.modPath)
	}
	f.native = e.lookupNative(fn)
	e.funcs[fn] = f
	return f
}

type compiler struct {
	e    *Engine
	f    *Func
	regs map[ssa.Value]int
}

func (e *Engine) ensureCompiled(f *Func) {
	if f.blocks != nil {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if f.blocks != nil {
		return
	}
	fn := f.fn
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		panic(unsupported("function without body: " + fn.String()))
	}
	c := &compiler{e: e, f: f, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.reg(p)
	}
	f.params = len(fn.Params)
	for _, p := range fn.FreeVars {
		c.reg(p)
	}
	var blocks []*Block
	for _, b := range fn.Blocks {
		blocks = append(blocks, &Block{idx: b.Index})
	}
	for _, b := range fn.Blocks {
		c.block(b, blocks[b.Index])
	}
	f.recover_ = -1
	if fn.Recover != nil {
		f.recover_ = fn.Recover.Index
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		f.resKinds = append(f.resKinds, e.rtype(fn.Signature.Results().At(i).Type()))
	}
	f.nregs = len(c.regs)
	for _, b := range fn.Blocks {
		c.buildRegion(b, blocks)
	}
	f.blocks = blocks
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: c.e.constVal(v)}
	case *ssa.Global:
		return opnd{reg: -2, g: v}
	case *ssa.Function:
		return opnd{reg: -1, c: Value{ref: &Closure{fn: c.e.getFunc(v)}}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: Value{ref: v}}
	}
	return opnd{reg: c.reg(v)}
}

func (e *Engine) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return e.zero(k.Type())
	}
	t := k.Type()
	kd, w, sgn := classify(t)
	switch kd {
	case kBool:
		return boolVal(constant.BoolVal(k.Value))
	case kInt:
		v := constant.ToInt(k.Value)
		if sgn {
			i, _ := constant.Int64Val(v)
			return Value{n: uint64(i)}
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			u = uint64(i)
		}
		return Value{n: normInt(u, w, sgn)}
	case kFloat:
		f, _ := constant.Float64Val(k.Value)
		return Value{n: math.Float64bits(f)}
	case kString:
		if k.Value.Kind() == constant.String {
			return strVal(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return strVal(string(rune(i)))
	case kIface:
		return Value{}
	}
	return Value{ref: unsupportedVal("constant of type " + t.String())}
}

type unsupportedVal string

// zero returns a fresh zero value of type t.
func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = e.zero(u.Field(i).Type())
		}
		return Value{ref: a}
	case *types.Array:
		if u.Len() > 1<<20 {
			panic(unsupported("huge array"))
		}
		a := &Agg{f: make([]Value, u.Len())}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.f {
				a.f[i] = e.zero(u.Elem())
			}
		}
		return Value{ref: a}
	case *types.Tuple:
		a := &Agg{f: make([]Value, u.Len())}
		for i := range a.f {
			a.f[i] = e.zero(u.At(i).Type())
		}
		return Value{ref: a}
	}
	return Value{}
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Value) Value {
	if a, ok := v.ref.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i := range a.f {
			if _, ok := a.f[i].ref.(*Agg); ok {
				n.f[i] = copyVal(a.f[i])
			} else {
				n.f[i] = a.f[i]
			}
		}
		return Value{ref: n}
	}
	return v
}

func (fr *frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -2 {
		return Value{ref: fr.t.p.globalAddr(o.g)}
	}
	return o.c
}

func (c *compiler) block(b *ssa.BasicBlock, out *Block) {
	for _, in := range b.Instrs {
		if out.pos == token.NoPos {
			out.pos = in.Pos()
		}
		switch in := in.(type) {
		case *ssa.Phi:
			k, w, s := classify(in.Type())
			p := phi{dst: c.reg(in), k: k, w: w, sgn: s}
			for _, ed := range in.Edges {
				p.edge = append(p.edge, c.opnd(ed))
			}
			out.phis = append(out.phis, p)
		case *ssa.DebugRef:
		case *ssa.Jump:
			out.term = tJump
			out.succ[0] = b.Succs[0].Index
			out.spred[0] = predIndex(b.Succs[0], b, 0)
		case *ssa.If:
			out.term = tIf
			out.cond = c.opnd(in.Cond)
			for i := 0; i < 2; i++ {
				out.succ[i] = b.Succs[i].Index
				nth := 0
				if i == 1 && b.Succs[0] == b.Succs[1] {
					nth = 1
				}
				out.spred[i] = predIndex(b.Succs[i], b, nth)
			}
		case *ssa.Return:
			out.term = tReturn
			for _, r := range in.Results {
				out.ret = append(out.ret, c.opnd(r))
			}
		case *ssa.Panic:
			out.term = tPanic
			out.arg = c.opnd(in.X)
		default:
			out.code = append(out.code, c.instr(in))
		}
	}
}

func predIndex(s, b *ssa.BasicBlock, nth int) int {
	for i, p := range s.Preds {
		if p == b {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("predIndex")
}

// ---- speculation regions ----

func (c *compiler) speculable(in ssa.Instruction, depth int) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			k, ok := in.Y.(*ssa.Const)
			return ok && k.Value != nil && constant.Sign(k.Value) != 0
		case token.ADD:
			k, _, _ := classify(in.X.Type())
			return k == kInt
		case token.SHL, token.SHR:
			_, ok := in.Y.(*ssa.Const)
			return ok
		}
		return true
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.ChangeType, *ssa.Extract, *ssa.Lookup, *ssa.DebugRef:
		return true
	case *ssa.Convert:
		k1, _, _ := classify(in.X.Type())
		k2, _, _ := classify(in.Type())
		return k1 == kInt && k2 == kInt
	case *ssa.Call:
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "len" || bi.Name() == "cap"
		}
		if fn := in.Call.StaticCallee(); fn != nil {
			return c.pureFunc(fn, depth+1)
		}
		return false
	}
	return false
}

func (c *compiler) pureFunc(fn *ssa.Function, depth int) bool {
	if depth > 4 {
		return false
	}
	f := c.e.getFunc(fn)
	if f.pure != 0 {
		return f.pure == 1
	}
	f.pure = 2
	if f.native != nil {
		if pureNatives[fn.Name()] {
			f.pure = 1
		}
		return f.pure == 1
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil || len(fn.Blocks) > 12 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return:
				continue
			}
			if !c.speculable(in, depth) {
				return false
			}
		}
		for _, s := range b.Succs {
			if s.Index <= b.Index { // loops may fork
				return false
			}
		}
	}
	f.pure = 1
	return true
}

func (c *compiler) buildRegion(b *ssa.BasicBlock, blocks []*Block) {
	out := blocks[b.Index]
	if out.term != tIf {
		return
	}
	root := &regNode{b: out, n: 2}
	inReg := map[int]bool{b.Index: true}
	type ref struct {
		n *regNode
		i int
	}
	var exits []ref
	for i := 0; i < 2; i++ {
		root.succ[i] = regEdge{target: out.succ[i], pred: out.spred[i]}
		exits = append(exits, ref{root, i})
	}
	distinct := func(ex []ref) int {
		m := map[int]bool{}
		for _, r := range ex {
			m[r.n.succ[r.i].target] = true
		}
		return len(m)
	}
	can := func(idx int) bool {
		s := c.f.fn.Blocks[idx]
		if len(s.Preds) != 1 || inReg[idx] || s == c.f.fn.Blocks[0] {
			return false
		}
		last := s.Instrs[len(s.Instrs)-1]
		switch last.(type) {
		case *ssa.If, *ssa.Jump:
		default:
			return false
		}
		for _, in := range s.Instrs[:len(s.Instrs)-1] {
			if !c.speculable(in, 0) {
				return false
			}
		}
		return true
	}
	count := 1
	// grow greedily; an inclusion is kept when the number of exit targets does not stay above 2.
	// A pure jump block is tried first, then If blocks.
	for progress := true; progress && count < 40; {
		progress = false
		for k, r := range exits {
			tgt := r.n.succ[r.i].target
			if !can(tgt) {
				continue
			}
			tb := blocks[tgt]
			n := &regNode{b: tb, n: 1}
			if tb.term == tIf {
				n.n = 2
			}
			ne := append([]ref{}, exits[:k]...)
			ne = append(ne, exits[k+1:]...)
			for i := 0; i < n.n; i++ {
				n.succ[i] = regEdge{target: tb.succ[i], pred: tb.spred[i]}
				ne = append(ne, ref{n, i})
			}
			if distinct(ne) > 2 {
				continue
			}
			r.n.succ[r.i].node = n
			inReg[tgt] = true
			exits = ne
			count++
			progress = true
			break
		}
	}
	if count > 1 || distinct(exits) == 1 {
		out.region = root
	}
}

// ---- helpers for type information ----

var rtypeMu sync.Mutex

func (e *Engine) rtype(t types.Type) *RType {
	rtypeMu.Lock()
	defer rtypeMu.Unlock()
	if x := e.rtypes.At(t); x != nil {
		return x.(*RType)
	}
	k, w, s := classify(t)
	r := &RType{t: t, name: types.TypeString(t, func(p *types.Package) string { return p.Name() }), kind: k, w: w, sgn: s}
	e.rtypes.Set(t, r)
	return r
}

func (e *Engine) posOf(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	ps := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}
