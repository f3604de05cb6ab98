package main

import (
	"fmt"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
)

type intrinsicFn func(t *Thread, sig *types.Signature, a []Value) Value

var intrinsics map[string]intrinsicFn

func scalarCons(bd *Builder, e *Expr) *Expr {
	return bd.Or(bd.Cmp(OpUlt, e, bd.Const(0xD800, 32)),
		bd.And(bd.Cmp(OpUle, bd.Const(0xE000, 32), e), bd.Cmp(OpUle, e, bd.Const(0x10FFFF, 32))))
}

func (p *Path) newRune() Value {
	e := p.newVar(32, "r", true, true, 'a')
	p.addCons(scalarCons(p.bd, e))
	p.inputs = append(p.inputs, inputRec{kind: "rune", e: e, sgn: true})
	return Value{ref: e}
}

func init() {
	spec := func(t *Thread) {
		if t.spec > 0 {
			panic(specAbort{})
		}
	}
	intrinsics = map[string]intrinsicFn{
		"vInt": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			p, bd := t.p, t.p.bd
			lo, hi := a[0].n, a[1].n
			if lo == hi {
				p.inputs = append(p.inputs, inputRec{kind: "int", val: int64(lo)})
				return Value{n: lo}
			}
			e := p.newVar(64, "i", false, true, lo)
			p.addCons(bd.Cmp(OpSle, bd.Const(lo, 64), e))
			p.addCons(bd.Cmp(OpSle, e, bd.Const(hi, 64)))
			p.inputs = append(p.inputs, inputRec{kind: "int", e: e, sgn: true})
			return Value{ref: e}
		},
		"vChoose": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			n := int(int64(t.concInt(a[0], 64, true)))
			v := t.p.choose(n, "choose")
			t.p.inputs = append(t.p.inputs, inputRec{kind: "choose", val: int64(v)})
			return intVal(v)
		},
		"vBool": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			e := t.p.newVar(0, "b", false, false, 0)
			t.p.inputs = append(t.p.inputs, inputRec{kind: "bool", e: e})
			return Value{ref: e}
		},
		"vRune": func(t *Thread, _ *types.Signature, a []Value) Value { spec(t); return t.p.newRune() },
		"vRunes": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			n := int(int64(t.concInt(a[0], 64, true)))
			out := make([]Value, n)
			for i := range out {
				out[i] = t.p.newRune()
			}
			return sliceVal(out)
		},
		"vAssume": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			t.p.assume(t.p.bd.toExpr(a[0], 0))
			return Value{}
		},
		"vAssert": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			c := t.p.bd.toExpr(a[0], 0)
			msg := ""
			if !(c.isConst() && c.k == 1) {
				msg = t.p.evalStr(a[1], t.p.model)
			}
			t.p.assert(c, msg)
			return Value{}
		},
		"vReach": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			s, _ := isStr(a[0])
			t.p.reached[s] = true
			return Value{}
		},
		"vObserve": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			s, _ := isStr(a[0])
			o := observation{label: s}
			for _, v := range sliceOf(a[1]) {
				i, _ := v.ref.(*Iface)
				if i == nil {
					o.vals = append(o.vals, Value{})
					o.kinds = append(o.kinds, nil)
					continue
				}
				vv := i.v
				if sl, ok := vv.ref.([]Value); ok {
					vv = Value{ref: append([]Value(nil), sl...)}
				}
				o.vals = append(o.vals, vv)
				o.kinds = append(o.kinds, i.rt)
			}
			t.p.obs = append(t.p.obs, o)
			return Value{}
		},
		"vAnd": func(t *Thread, _ *types.Signature, a []Value) Value {
			return fromBool(t.p.bd.And(t.p.bd.toExpr(a[0], 0), t.p.bd.toExpr(a[1], 0)))
		},
		"vOr": func(t *Thread, _ *types.Signature, a []Value) Value {
			return fromBool(t.p.bd.Or(t.p.bd.toExpr(a[0], 0), t.p.bd.toExpr(a[1], 0)))
		},
		"vNot": func(t *Thread, _ *types.Signature, a []Value) Value {
			return fromBool(t.p.bd.Not(t.p.bd.toExpr(a[0], 0)))
		},
		"vIf": func(t *Thread, _ *types.Signature, a []Value) Value {
			return fromExpr(t.p.bd.Ite(t.p.bd.toExpr(a[0], 0), t.p.bd.toExpr(a[1], 64), t.p.bd.toExpr(a[2], 64)), true)
		},
		"vConcrete": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			return Value{n: t.concInt(a[0], 64, true)}
		},
		"vMapOrder": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			t.p.mapOrder = a[0].n == 1
			t.p.noSample = true
			return Value{}
		},
		"vFreeze": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			s, _ := isStr(a[0])
			c := &collector{cells: map[*Value]bool{}, maps: map[*MapObj]bool{}}
			for _, v := range sliceOf(a[1]) {
				if i, _ := v.ref.(*Iface); i != nil {
					c.walk(i.v)
				}
			}
			for p := range c.cells {
				t.p.frozen[p] = s
			}
			for m := range c.maps {
				t.p.frozenMaps[m] = s
			}
			t.p.monitoring = true
			return Value{}
		},
		"vShares": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			var cs [2]*collector
			for k := 0; k < 2; k++ {
				cs[k] = &collector{cells: map[*Value]bool{}, maps: map[*MapObj]bool{}}
				if i, _ := a[k].ref.(*Iface); i != nil {
					cs[k].walk(i.v)
				}
			}
			for p := range cs[0].cells {
				if cs[1].cells[p] {
					return boolVal(true)
				}
			}
			for p := range cs[0].maps {
				if cs[1].maps[p] {
					return boolVal(true)
				}
			}
			return boolVal(false)
		},
		"vParam": func(t *Thread, _ *types.Signature, a []Value) Value {
			s, _ := isStr(a[0])
			if v, ok := t.p.h.params[s]; ok {
				return intVal(v)
			}
			return a[1]
		},
		"vFile": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			name := "vfile" + strconv.Itoa(len(t.p.files))
			t.p.files[name] = a[0]
			return strVal(name)
		},
		"vRepo": func(t *Thread, _ *types.Signature, a []Value) Value {
			name, ok := isStr(a[0])
			if !ok {
				panic(unsupported("symbolic file name"))
			}
			b, err := ioutil.ReadFile(filepath.Join(t.p.e.repo, name))
			if err != nil {
				return strVal("")
			}
			return strVal(string(b))
		},
		"vPar": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			p := t.p
			first := len(p.threads)
			for _, f := range sliceOf(a[0]) {
				cl := f.ref.(*Closure)
				p.spawn(t, callTarget{fn: cl.fn, free: cl.free}, nil)
			}
			mine := p.threads[first:]
			t.block(func() bool {
				for _, x := range mine {
					if !x.done {
						return false
					}
				}
				return true
			})
			for _, x := range mine {
				t.clock = t.clock.join(x.clock)
			}
			return Value{}
		},
		"vRunMain": func(t *Thread, _ *types.Signature, a []Value) Value {
			spec(t)
			return t.runMain(a[0])
		},
	}
}

// runMain runs the main function of the package with the given arguments and returns what it
// printed and its exit code (2 when it crashed).
func (t *Thread) runMain(args Value) Value {
	p := t.p
	osPkg := p.e.prog.ImportedPackage("os")
	g := osPkg.Var("Args")
	*p.globalAddr(g) = Value{ref: append([]Value{strVal("xbnf")}, sliceOf(args)...)}
	fn := p.e.compileFunc(p.e.target.Func("main"))
	p.stdout = nil
	code := 0
	func() {
		depth, top, stack, sp := t.depth, t.top, t.stack, t.sp
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case *pathAbort:
				if x.kind == abExit {
					code, _ = strconv.Atoi(x.msg)
					t.depth, t.top, t.stack, t.sp = depth, top, stack, sp
					return
				}
			case *targetPanic:
				code = 2
				t.depth, t.top, t.stack, t.sp = depth, top, stack, sp
				return
			}
			if os.Getenv("SYMEX_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			}
			panic(r)
		}()
		t.call(fn, nil, nil)
	}()
	return tuple(concatStr(p.stdout...), intVal(code))
}

type collector struct {
	cells map[*Value]bool
	maps  map[*MapObj]bool
}

func (c *collector) walk(v Value) {
	switch r := v.ref.(type) {
	case *Value:
		if r != nil && !c.cells[r] {
			c.cells[r] = true
			c.walk(*r)
		}
	case []Value:
		s := r[:cap(r)]
		for i := range s {
			if c.cells[&s[i]] {
				continue
			}
			c.cells[&s[i]] = true
			c.walk(s[i])
		}
	case *Agg:
		for i := range r.f {
			if c.cells[&r.f[i]] {
				continue
			}
			c.cells[&r.f[i]] = true
			c.walk(r.f[i])
		}
	case *MapObj:
		if c.maps[r] {
			return
		}
		c.maps[r] = true
		for i := range r.keys {
			if r.live[i] {
				c.walk(r.keys[i])
				c.walk(*r.vals[i])
			}
		}
	case *Iface:
		if r != nil {
			c.walk(r.v)
		}
	case *Closure:
		for _, x := range r.free {
			c.walk(x)
		}
	}
}

func (p *Path) renderObs(o observation) string {
	s := o.label
	for i, v := range o.vals {
		s += " " + p.renderVal(o.kinds[i], v)
	}
	return s
}

func (p *Path) renderVal(rt *RType, v Value) string {
	if rt == nil {
		return "<nil>"
	}
	switch rt.kind {
	case kBool:
		return fmt.Sprint(p.bd.Eval(p.bd.toExpr(v, 0), p.model) == 1)
	case kInt:
		e := p.bd.toExpr(v, rt.w)
		if rt.sgn {
			return fmt.Sprint(sext(p.bd.Eval(e, p.model), rt.w))
		}
		return fmt.Sprint(p.bd.Eval(e, p.model))
	case kString:
		return strconv.Quote(p.evalStr(v, p.model))
	case kSlice:
		var rs []rune
		for _, x := range sliceOf(v) {
			rs = append(rs, rune(sext(p.bd.Eval(p.bd.toExpr(x, 32), p.model), 32)))
		}
		return strconv.Quote(string(rs))
	}
	return "?" + rt.name
}
