package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path is one execution of the harness: a sequence of decisions.
type Path struct {
	e  *Engine
	w  *Worker
	h  *Harness
	bd *Builder

	prefix []uint16
	pos    int
	trace  []uint16

	cons  []*Expr
	known map[uint32]bool
	byVar map[int32][]int // constraints mentioning a variable
	model []uint64
	vars  []varInfo
	vexpr []*Expr

	steps    int64
	maxSteps int64
	mapOrder bool

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	threads     []*Thread
	cur         *Thread
	monitoring  bool
	frozen      map[*Value]string
	frozenMaps  map[*MapObj]string
	shadow      map[*Value]*shadowCell
	shadowMap   map[*MapObj]*shadowCell
	locks       map[*Value]*lockState
	final       *pathAbort
	preemptions int // times another thread was picked while the running one could go on

	obs      []observation
	notes    []string
	choices  []int // values of vChoose in order (part of the assignment)
	inputs   []inputRec
	files    map[string]Value
	reached  map[string]bool
	noSample bool
	stdout   []Value
}

type varInfo struct {
	w    uint8
	name string
	sgn  bool
}

// inputRec records one nondeterministic value in the order in which the harness asked for it.
type inputRec struct {
	kind string // "choose", "int", "bool", "rune", "maporder", "sched"
	val  int64
	e    *Expr
	sgn  bool
}

type observation struct {
	label string
	vals  []Value
	kinds []*RType
}

func (p *Path) newVar(w uint8, name string, isRune, sgn bool, def uint64) *Expr {
	i := len(p.vars)
	p.vars = append(p.vars, varInfo{w, name, sgn})
	if i >= len(p.model) {
		p.model = append(p.model, def)
	}
	e := p.bd.Var(i, w, isRune)
	p.vexpr = append(p.vexpr, e)
	return e
}

// learn records a term implied by the path constraints. The set of known terms has to evolve in
// the same way whether a prefix is explored or replayed, so it decomposes like addCons.
func (p *Path) learn(c *Expr) {
	if c.isConst() || p.known[c.id] {
		return
	}
	p.known[c.id] = true
	if c.op == OpBAnd {
		p.learn(c.a)
		p.learn(c.b)
	} else if c.op == OpBNot && c.a.op == OpBOr {
		p.learn(p.bd.Not(c.a.a))
		p.learn(p.bd.Not(c.a.b))
	}
}

func (p *Path) addCons(c *Expr) {
	if c.isConst() {
		return
	}
	if c.op == OpBAnd {
		p.known[c.id] = true
		p.addCons(c.a)
		p.addCons(c.b)
		return
	}
	if c.op == OpBNot && c.a.op == OpBOr {
		p.known[c.id] = true
		p.addCons(p.bd.Not(c.a.a))
		p.addCons(p.bd.Not(c.a.b))
		return
	}
	if p.known[c.id] {
		return
	}
	p.known[c.id] = true
	k := len(p.cons)
	p.cons = append(p.cons, c)
	for _, v := range c.vars {
		p.byVar[v] = append(p.byVar[v], k)
	}
}

// slice returns the path constraints connected with c through shared variables, plus c.
func (p *Path) slice(c *Expr) []*Expr {
	seenV := map[int32]bool{}
	seenC := map[int]bool{}
	work := append([]int32(nil), c.vars...)
	for _, v := range work {
		seenV[v] = true
	}
	var idx []int
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range p.byVar[v] {
			if seenC[k] {
				continue
			}
			seenC[k] = true
			idx = append(idx, k)
			for _, u := range p.cons[k].vars {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	sort.Ints(idx)
	out := make([]*Expr, 0, len(idx)+1)
	for _, k := range idx {
		out = append(out, p.cons[k])
	}
	return append(out, c)
}

// feasible asks the solver whether c can hold on this path; on sat the returned model extends the
// current one.
func (p *Path) feasible(c *Expr) (satResult, []uint64) {
	if c.isConst() {
		if c.k == 1 {
			return resSat, p.model
		}
		return resUnsat, nil
	}
	if p.known[c.id] {
		return resSat, p.model
	}
	if p.known[p.bd.Not(c).id] {
		return resUnsat, nil
	}
	r := p.w.solver.Check(p.slice(c))
	if r.res != resSat {
		return r.res, nil
	}
	m := append([]uint64(nil), p.model...)
	for i, v := range r.vars {
		m[v] = r.model[i]
	}
	return resSat, m
}

const (
	dFalse  = 0
	dTrue   = 1
	dFalseI = 2 // implied
	dTrueI  = 3
)

func (p *Path) branchAt(t *Thread, c *Expr) bool {
	if c.isConst() {
		return c.k == 1
	}
	if p.known[c.id] {
		return true
	}
	nc := p.bd.Not(c)
	if p.known[nc.id] {
		return false
	}
	if t != nil && t.spec > 0 {
		panic(specAbort{})
	}
	return p.decide(c, nc)
}

func (p *Path) branch(c *Expr) bool { return p.branchAt(p.cur, c) }

func (p *Path) decide(c, nc *Expr) bool {
	p.w.transitions++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		switch d {
		case dTrue:
			p.addCons(c)
			return true
		case dFalse:
			p.addCons(nc)
			return false
		case dTrueI:
			p.learn(c)
			return true
		default:
			p.learn(nc)
			return false
		}
	}
	if len(p.trace) > p.h.maxDecisions {
		panic(&pathAbort{abLimit, "more than the bounded number of decisions"})
	}
	b := p.bd.Eval(c, p.model) == 1
	mine, other := c, nc
	if !b {
		mine, other = nc, c
	}
	res, m := p.feasible(other)
	switch res {
	case resUnsat:
		p.learn(mine)
		if b {
			p.trace = append(p.trace, dTrueI)
		} else {
			p.trace = append(p.trace, dFalseI)
		}
		return b
	case resUnknown:
		p.w.unknown++
		p.w.ex.noteReduced("solver gave no answer for a branch")
	case resSat:
		alt := append(append(make([]uint16, 0, len(p.trace)+1), p.trace...), uint16(1-b2u(b)))
		p.w.push(item{alt, m[:len(p.vars):len(p.vars)]})
	}
	p.addCons(mine)
	p.trace = append(p.trace, uint16(b2u(b)))
	return b
}

// choose forks over n alternatives (structure choices, map orders, schedules).
func (p *Path) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	p.w.transitions++
	v := 0
	if p.pos < len(p.prefix) {
		v = int(p.prefix[p.pos])
		p.pos++
	} else {
		for i := n - 1; i >= 1; i-- {
			alt := append(append(make([]uint16, 0, len(p.trace)+1), p.trace...), uint16(i))
			p.w.push(item{alt, append([]uint64(nil), p.model[:len(p.vars)]...)})
		}
	}
	p.trace = append(p.trace, uint16(v))
	if what != "choose" {
		p.inputs = append(p.inputs, inputRec{kind: what, val: int64(v)})
	}
	return v
}

// concretize forks over the feasible values of e.
func (p *Path) concretize(e *Expr) uint64 {
	for i := 0; ; i++ {
		if e.isConst() {
			return e.k
		}
		if i > 300 {
			panic(unsupported("too many values to make concrete"))
		}
		// the candidate value must be reproducible on replay: use the smallest unexplored one
		// according to the model, recorded in the trace through the equality branch.
		v := p.concCandidate(e)
		c := p.bd.Cmp(OpEq, e, p.bd.Const(v, e.w))
		if p.branch(c) {
			return v
		}
	}
}

// concCandidate picks a value for e. While replaying a prefix the value cannot be taken from the
// model (which belongs to the end of the prefix), so candidates are recorded in the trace.
func (p *Path) concCandidate(e *Expr) uint64 {
	if p.pos < len(p.prefix) {
		// four 16-bit words
		var v uint64
		for k := 0; k < 4; k++ {
			v |= uint64(p.prefix[p.pos]) << (16 * k)
			p.trace = append(p.trace, p.prefix[p.pos])
			p.pos++
		}
		return v
	}
	v := p.bd.Eval(e, p.model)
	for k := 0; k < 4; k++ {
		p.trace = append(p.trace, uint16(v>>(16*k)))
	}
	return v
}

func (p *Path) assume(c *Expr) {
	if c.isConst() {
		if c.k == 0 {
			panic(&pathAbort{abInfeasible, ""})
		}
		return
	}
	if p.cur != nil && p.cur.spec > 0 {
		panic(specAbort{})
	}
	if p.known[c.id] {
		return
	}
	if p.bd.Eval(c, p.model) == 1 {
		p.addCons(c)
		return
	}
	res, m := p.feasible(c)
	switch res {
	case resUnsat:
		panic(&pathAbort{abInfeasible, ""})
	case resUnknown:
		p.w.unknown++
		p.w.ex.noteReduced("solver gave no answer for an assumption")
		panic(&pathAbort{abUnknown, ""})
	}
	p.model = m
	p.addCons(c)
}

// assert decides whether c can be false on this path.
func (p *Path) assert(c *Expr, msg string) {
	if p.cur != nil && p.cur.spec > 0 {
		panic(specAbort{})
	}
	replaying := p.pos < len(p.prefix)
	if !replaying {
		p.w.obligations++
	}
	if c.isConst() {
		if c.k == 1 {
			return
		}
		p.violation("assert", msg, p.model)
		panic(&pathAbort{abInfeasible, ""})
	}
	if p.known[c.id] {
		return
	}
	nc := p.bd.Not(c)
	if !replaying {
		res, m := p.feasible(nc)
		switch res {
		case resSat:
			p.violation("assert", msg, m)
		case resUnknown:
			p.w.unknown++
			p.w.ex.noteReduced("solver gave no answer for an assertion")
		case resUnsat:
			p.w.proved++
		}
		if res == resUnsat {
			p.learn(c)
			return
		}
	}
	p.assume(c)
}

// assignment returns the inputs of the path under a model.
func (p *Path) assignment(m []uint64) []inputRec {
	out := make([]inputRec, len(p.inputs))
	for i, r := range p.inputs {
		if r.e != nil {
			v := p.bd.Eval(r.e, m)
			if r.sgn {
				r.val = sext(v, r.e.w)
			} else {
				r.val = int64(v)
			}
		}
		out[i] = r
	}
	return out
}

func (p *Path) violation(kind, msg string, m []uint64) {
	p.w.ex.addCandidate(&candidate{
		harness: p.h, kind: kind, msg: msg, inputs: p.assignment(m), where: p.where(),
	})
}

// where describes the current call stack of the program under test.
func (p *Path) where() string {
	var parts []string
	if p.cur != nil {
		for f := p.cur.top; f != nil && len(parts) < 12; f = f.caller {
			parts = append(parts, f.f.name)
		}
	}
	return strings.Join(parts, " < ")
}

// evalStr renders a string value under the model.
func (p *Path) evalStr(v Value, m []uint64) string {
	if s, ok := isStr(v); ok {
		return s
	}
	es := strElems(v)
	out := make([]strElem, len(es))
	for i, e := range es {
		if e.e != nil {
			out[i] = strElem{r: int32(p.bd.Eval(e.e, m))}
		} else {
			out[i] = e
		}
	}
	s, _ := isStr(elemsToStr(out))
	return s
}

func (p *Path) globalAddr(g *ssa.Global) *Value {
	perPath := p.e.perPath(g.Pkg)
	if perPath {
		if v, ok := p.globals[g]; ok {
			return v
		}
	} else {
		if v, ok := p.w.globals[g]; ok {
			return v
		}
	}
	// allocate all globals of the package, then run its initialiser
	tgt := p.globals
	if !perPath {
		tgt = p.w.globals
	}
	v := new(Value)
	*v = p.e.zero(deref(g.Type()))
	if g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr" || g.Name() == "Stdin") {
		f := &Value{ref: &Agg{ext: strings.ToLower(g.Name())}}
		v.ref = f
	}
	tgt[g] = v
	p.initPkg(g.Pkg)
	return v
}

func (p *Path) initPkg(pkg *ssa.Package) {
	perPath := p.e.perPath(pkg)
	if perPath {
		if p.inited[pkg] {
			return
		}
		p.inited[pkg] = true
	} else {
		if p.w.inited[pkg] {
			return
		}
		p.w.inited[pkg] = true
	}
	fn := pkg.Func("init")
	if fn == nil || skipInit[pkg.Pkg.Path()] {
		return
	}
	f := p.e.compileFunc(fn)
	t := p.cur
	if t == nil {
		t = p.threads[0]
	}
	sp := t.spec
	t.spec = 0
	mo, mon := p.mapOrder, p.monitoring
	p.mapOrder, p.monitoring = false, false
	t.initDepth++
	t.callInit(f)
	t.initDepth--
	p.mapOrder, p.monitoring = mo, mon
	t.spec = sp
}

func (t *Thread) callInit(f *Func) {
	t.p.e.ensureCompiled(f)
	fr := frame{t: t, f: f, caller: t.top}
	fr.regs = t.allocRegs(f.nregs)
	t.depth++
	t.top = &fr
	fr.run(0)
	t.top = fr.caller
	t.depth--
}

// panicText renders the value of a panic of the program under test.
func (t *Thread) panicText(v Value) string {
	i, _ := v.ref.(*Iface)
	if i == nil {
		return "nil"
	}
	switch i.rt.kind {
	case kString:
		return t.p.evalStr(i.v, t.p.model)
	case kInt:
		return fmt.Sprint(int64(i.v.n))
	}
	return i.rt.name
}
