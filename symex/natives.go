package main

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(t *Thread, args []Value) Value

var pureNatives = map[string]bool{"IsSpace": true, "vAnd": true, "vOr": true, "vNot": true, "vIf": true}

// skipInit lists packages whose initialisers are not run.
var skipInit = map[string]bool{"os": true, "syscall": true, "runtime": true, "internal/poll": true, "time": true, "testing": true, "reflect": true, "unicode": false}

var natives = map[string]nativeFn{}

func (e *Engine) lookupNative(fn *ssa.Function) nativeFn {
	if fn.Pkg != nil && e.isTarget(fn.Pkg.Pkg.Path()) && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if f := intrinsics[fn.Name()]; f != nil {
			ps := e.prog.Fset.Position(fn.Pos())
			if strings.HasPrefix(filepath.Base(ps.Filename), "zz_verif_lib") {
				sig := fn.Signature
				return func(t *Thread, a []Value) Value { return f(t, sig, a) }
			}
		}
		return nil
	}
	name := fn.String()
	if f, ok := natives[name]; ok {
		return f
	}
	if g, ok := concFns[name]; ok {
		return concWrap(name, g)
	}
	return nil
}

// ---- functions run natively when all arguments are concrete ----

var concFns = map[string]any{
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.Fields": strings.Fields, "strings.Join": strings.Join,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Replace": strings.Replace, "strings.Repeat": strings.Repeat,
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count,
	"strings.Compare": strings.Compare, "strings.Title": strings.Title,
	"strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.Atoi": strconv.Atoi, "strconv.ParseBool": strconv.ParseBool,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.Quote": strconv.Quote,
	"strconv.QuoteRune": strconv.QuoteRune, "strconv.FormatBool": strconv.FormatBool,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.ValidRune": utf8.ValidRune, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.RuneCount": utf8.RuneCount,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"path/filepath.Base":                  filepath.Base, "math.Abs": math.Abs, "math.Max": math.Max, "math.Min": math.Min,
	"internal/bytealg.IndexByteString": strings.IndexByte, "internal/bytealg.CountString": func(s string, c byte) int { return strings.Count(s, string([]byte{c})) },
	"internal/stringslite.HasPrefix": strings.HasPrefix,
}

// symFns are used when some argument is symbolic.
var symFns = map[string]nativeFn{}

func concWrap(name string, g any) nativeFn {
	fv := reflect.ValueOf(g)
	ft := fv.Type()
	sf := symFns[name]
	return func(t *Thread, args []Value) Value {
		in := make([]reflect.Value, len(args))
		for i := range args {
			v, ok := t.toGo(args[i], ft.In(i))
			if !ok {
				if sf != nil {
					return sf(t, args)
				}
				if t.spec > 0 {
					panic(specAbort{})
				}
				panic(unsupported(name + " on symbolic arguments"))
			}
			in[i] = v
		}
		var out []reflect.Value
		var pv any
		func() {
			defer func() { pv = recover() }()
			out = fv.Call(in)
		}()
		if pv != nil {
			panic(&targetPanic{msg: fmt.Sprint(pv)})
		}
		rs := make([]Value, len(out))
		for i := range out {
			rs[i] = t.fromGo(out[i])
		}
		if len(rs) == 1 {
			return rs[0]
		}
		return tuple(rs...)
	}
}

func (t *Thread) toGo(v Value, rt reflect.Type) (reflect.Value, bool) {
	r := reflect.New(rt).Elem()
	switch rt.Kind() {
	case reflect.String:
		s, ok := isStr(v)
		if !ok {
			return r, false
		}
		r.SetString(s)
	case reflect.Bool:
		if v.ref != nil {
			return r, false
		}
		r.SetBool(v.n == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.ref != nil {
			return r, false
		}
		r.SetInt(int64(v.n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.ref != nil {
			return r, false
		}
		r.SetUint(v.n)
	case reflect.Float64:
		r.SetFloat(math.Float64frombits(v.n))
	case reflect.Slice:
		s := sliceOf(v)
		if s == nil {
			return r, true
		}
		r.Set(reflect.MakeSlice(rt, len(s), len(s)))
		for i := range s {
			x, ok := t.toGo(s[i], rt.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(x)
		}
	default:
		return r, false
	}
	return r, true
}

func (t *Thread) fromGo(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return strVal(r.String())
	case reflect.Bool:
		return boolVal(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Value{n: uint64(r.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Value{n: r.Uint()}
	case reflect.Float64:
		return Value{n: math.Float64bits(r.Float())}
	case reflect.Slice:
		if r.IsNil() {
			return Value{}
		}
		out := make([]Value, r.Len())
		for i := range out {
			out[i] = t.fromGo(r.Index(i))
		}
		return sliceVal(out)
	case reflect.Interface:
		if r.IsNil() {
			return Value{}
		}
		if e, ok := r.Interface().(error); ok {
			return t.p.e.newError(strVal(e.Error()))
		}
	}
	panic(unsupported("native result"))
}

func init() {
	reg := func(f nativeFn, names ...string) {
		for _, n := range names {
			natives[n] = f
		}
	}
	// fmt
	reg(func(t *Thread, a []Value) Value { return t.sprintf(a[0], sliceOf(a[1])) }, "fmt.Sprintf")
	reg(func(t *Thread, a []Value) Value { return t.p.e.newError(t.sprintf(a[0], sliceOf(a[1]))) }, "fmt.Errorf")
	reg(func(t *Thread, a []Value) Value { return t.sprint(sliceOf(a[0]), false) }, "fmt.Sprint")
	reg(func(t *Thread, a []Value) Value { return t.sprint(sliceOf(a[0]), true) }, "fmt.Sprintln")
	outRes := func() Value { return tuple(Value{}, Value{}) }
	reg(func(t *Thread, a []Value) Value { t.out(t.sprintf(a[0], sliceOf(a[1]))); return outRes() }, "fmt.Printf")
	reg(func(t *Thread, a []Value) Value { t.out(t.sprint(sliceOf(a[0]), false)); return outRes() }, "fmt.Print")
	reg(func(t *Thread, a []Value) Value { t.out(t.sprint(sliceOf(a[0]), true)); return outRes() }, "fmt.Println")
	reg(func(t *Thread, a []Value) Value { t.fwrite(a[0], t.sprintf(a[1], sliceOf(a[2]))); return outRes() }, "fmt.Fprintf")
	reg(func(t *Thread, a []Value) Value { t.fwrite(a[0], t.sprint(sliceOf(a[1]), false)); return outRes() }, "fmt.Fprint")
	reg(func(t *Thread, a []Value) Value { t.fwrite(a[0], t.sprint(sliceOf(a[1]), true)); return outRes() }, "fmt.Fprintln")
	reg(func(t *Thread, a []Value) Value {
		t.fwrite(Value{ref: &Iface{rt: nil, v: a[0]}}, a[1])
		return tuple(t.strLen(a[1]), Value{})
	}, "(*os.File).WriteString")
	reg(func(t *Thread, a []Value) Value {
		b := sliceOf(a[1])
		t.fwrite(Value{ref: &Iface{rt: nil, v: a[0]}}, t.bytesToStr(b))
		return tuple(intVal(len(b)), Value{})
	}, "(*os.File).Write")
	reg(func(t *Thread, a []Value) Value {
		i, _ := a[0].ref.(*Iface)
		if i == nil {
			t.rtPanic("invalid memory address or nil pointer dereference")
		}
		t.fwrite(a[0], a[1])
		return tuple(t.strLen(a[1]), Value{})
	}, "io.WriteString")
	reg(func(t *Thread, a []Value) Value { panic(&pathAbort{abExit, fmt.Sprint(int64(a[0].n))}) }, "os.Exit")
	reg(func(t *Thread, a []Value) Value {
		name, ok := isStr(a[0])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		if c, ok := t.p.files[name]; ok {
			bs := t.strBytesKeep(c)
			return tuple(bs, Value{})
		}
		return tuple(Value{}, t.p.e.newError(strVal("open "+name+": no such file or directory")))
	}, "io/ioutil.ReadFile", "os.ReadFile")
	// the description of the options goes to standard error, which is not observed
	reg(func(t *Thread, a []Value) Value { return Value{} }, "(*flag.FlagSet).PrintDefaults")
	// errors
	reg(func(t *Thread, a []Value) Value { return t.p.e.newError(a[0]) }, "errors.New")
	_ = errors.New
	// builders
	for _, ty := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		reg(func(t *Thread, a []Value) Value {
			t.bufWrite(a[0], a[1])
			return tuple(Value{}, Value{})
		}, ty+".WriteString")
		reg(func(t *Thread, a []Value) Value {
			t.bufWrite(a[0], t.runesToStr([]Value{a[1]}))
			return tuple(Value{}, Value{})
		}, ty+".WriteRune")
		reg(func(t *Thread, a []Value) Value {
			t.bufWrite(a[0], t.bytesToStr([]Value{a[1]}))
			return Value{}
		}, ty+".WriteByte")
		reg(func(t *Thread, a []Value) Value {
			t.bufWrite(a[0], t.bytesToStr(sliceOf(a[1])))
			return tuple(intVal(len(sliceOf(a[1]))), Value{})
		}, ty+".Write")
		reg(func(t *Thread, a []Value) Value {
			if a[0].ref == nil {
				return strVal("<nil>")
			}
			return t.bufGet(a[0])
		}, ty+".String")
		reg(func(t *Thread, a []Value) Value { return t.strLen(t.bufGet(a[0])) }, ty+".Len")
		reg(func(t *Thread, a []Value) Value { t.bufAgg(a[0], true).ext = nil; return Value{} }, ty+".Reset")
		reg(func(t *Thread, a []Value) Value { return Value{} }, ty+".Grow")
	}
	reg(func(t *Thread, a []Value) Value { return sliceVal(t.strBytes(t.bufGet(a[0]))) }, "(*bytes.Buffer).Bytes")
	// sort
	reg(func(t *Thread, a []Value) Value {
		s := sliceOf(a[0])
		ns := make([]int64, len(s))
		for i := range s {
			ns[i] = int64(t.concInt(s[i], 64, true))
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
		for i := range s {
			t.store(&s[i], Value{n: uint64(ns[i])}, false)
		}
		return Value{}
	}, "sort.Ints")
	reg(func(t *Thread, a []Value) Value {
		s := sliceOf(a[0])
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				x, ok1 := isStr(s[j])
				y, ok2 := isStr(s[j-1])
				if !ok1 || !ok2 {
					panic(unsupported("sort.Strings on symbolic strings"))
				}
				if !(x < y) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return Value{}
	}, "sort.Strings")
	sortSlice := func(t *Thread, a []Value) Value {
		i0, _ := a[0].ref.(*Iface)
		if i0 == nil {
			return Value{}
		}
		s := sliceOf(i0.v)
		cl := a[1].ref.(*Closure)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := t.call(cl.fn, []Value{intVal(j), intVal(j - 1)}, cl.free)
				less := r.n == 1
				if e := r.sym(); e != nil {
					less = t.p.branchAt(t, e)
				}
				if !less {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				t.store(&s[j], y, true)
				t.store(&s[j-1], x, true)
			}
		}
		return Value{}
	}
	reg(sortSlice, "sort.Slice", "sort.SliceStable")
	// sync
	lock := func(op string) nativeFn {
		return func(t *Thread, a []Value) Value {
			p, _ := a[0].ref.(*Value)
			if p == nil {
				t.rtPanic("invalid memory address or nil pointer dereference")
			}
			t.lockOp(p, op)
			return Value{}
		}
	}
	for _, ty := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		reg(lock("Lock"), ty+".Lock")
		reg(lock("Unlock"), ty+".Unlock")
		reg(func(t *Thread, a []Value) Value { return boolVal(t.tryLock(a[0].ref.(*Value), false)) }, ty+".TryLock")
	}
	reg(lock("RLock"), "(*sync.RWMutex).RLock")
	reg(func(t *Thread, a []Value) Value { return boolVal(t.tryLock(a[0].ref.(*Value), true)) }, "(*sync.RWMutex).TryRLock")
	reg(lock("RUnlock"), "(*sync.RWMutex).RUnlock")
	reg(func(t *Thread, a []Value) Value { t.wgAdd(a[0], int(int64(a[1].n))); return Value{} }, "(*sync.WaitGroup).Add")
	reg(func(t *Thread, a []Value) Value { t.wgAdd(a[0], -1); return Value{} }, "(*sync.WaitGroup).Done")
	reg(func(t *Thread, a []Value) Value { t.wgWait(a[0]); return Value{} }, "(*sync.WaitGroup).Wait")
	reg(func(t *Thread, a []Value) Value { t.onceDo(a[0], a[1]); return Value{} }, "(*sync.Once).Do")
	// atomic counters
	for _, w := range []string{"32", "64"} {
		wd := uint8(32)
		if w == "64" {
			wd = 64
		}
		for _, sg := range []string{"Int", "Uint"} {
			sgn := sg == "Int"
			reg(func(t *Thread, a []Value) Value {
				p := a[0].ref.(*Value)
				t.atomicOp(p)
				bd := t.p.bd
				*p = fromExpr(bd.Bin(OpAdd, bd.toExpr(*p, wd), bd.toExpr(a[1], wd)), sgn)
				return *p
			}, "sync/atomic.Add"+sg+w)
			reg(func(t *Thread, a []Value) Value { p := a[0].ref.(*Value); t.atomicOp(p); return *p }, "sync/atomic.Load"+sg+w)
			reg(func(t *Thread, a []Value) Value { p := a[0].ref.(*Value); t.atomicOp(p); *p = a[1]; return Value{} }, "sync/atomic.Store"+sg+w)
		}
	}
	// runtime and debugging
	reg(func(t *Thread, a []Value) Value { return tuple(Value{}, Value{}, Value{}, Value{}) }, "runtime.Caller")
	reg(func(t *Thread, a []Value) Value { return Value{} }, "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer")
	reg(func(t *Thread, a []Value) Value { return Value{n: 0} }, "os.Getpid")
	// reflection used by flag's default printing
	// testing
	logf := func(fail, format bool) nativeFn {
		return func(t *Thread, a []Value) Value {
			var s Value
			if format {
				s = t.sprintf(a[1], sliceOf(a[2]))
			} else {
				s = t.sprint(sliceOf(a[1]), true)
			}
			if fail {
				panic(&targetPanic{msg: "test failed: " + t.p.evalStr(s, t.p.model)})
			}
			return Value{}
		}
	}
	for _, ty := range []string{"(*testing.common)", "(*testing.T)"} {
		reg(logf(false, true), ty+".Logf")
		reg(logf(false, false), ty+".Log")
		reg(logf(true, true), ty+".Errorf", ty+".Fatalf")
		reg(logf(true, false), ty+".Error", ty+".Fatal")
		reg(func(t *Thread, a []Value) Value { panic(&targetPanic{msg: "test failed"}) }, ty+".Fail", ty+".FailNow")
		reg(func(t *Thread, a []Value) Value { return Value{} }, ty+".Helper", ty+".Parallel", ty+".Skip")
	}
	reg(func(t *Thread, a []Value) Value {
		cl := a[2].ref.(*Closure)
		t.call(cl.fn, []Value{a[0]}, cl.free)
		return Value{n: 1}
	}, "(*testing.T).Run")

	// ---- symbolic versions ----
	symFns["strings.TrimSpace"] = func(t *Thread, a []Value) Value {
		es := strElems(a[0])
		for len(es) > 0 && t.cond(t.spaceExpr(es[0])) {
			es = es[1:]
		}
		for len(es) > 0 && t.cond(t.spaceExpr(es[len(es)-1])) {
			es = es[:len(es)-1]
		}
		return elemsToStr(es)
	}
	symFns["strings.Split"] = func(t *Thread, a []Value) Value { return t.splitN(a[0], a[1], -1) }
	symFns["strings.SplitN"] = func(t *Thread, a []Value) Value {
		return t.splitN(a[0], a[1], int(int64(t.concInt(a[2], 64, true))))
	}
	symFns["strings.HasPrefix"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		if len(y) > len(x) {
			return boolVal(false)
		}
		return fromBool(t.matchAt(x, 0, y))
	}
	symFns["internal/stringslite.HasPrefix"] = symFns["strings.HasPrefix"]
	symFns["strings.HasSuffix"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		if len(y) > len(x) {
			return boolVal(false)
		}
		return fromBool(t.matchAt(x, len(x)-len(y), y))
	}
	symFns["strings.TrimPrefix"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		if len(y) <= len(x) && t.cond(t.matchAt(x, 0, y)) {
			return elemsToStr(x[len(y):])
		}
		return a[0]
	}
	symFns["strings.TrimSuffix"] = func(t *Thread, a []Value) Value {
		x, y := strElems(a[0]), strElems(a[1])
		if len(y) <= len(x) && t.cond(t.matchAt(x, len(x)-len(y), y)) {
			return elemsToStr(x[:len(x)-len(y)])
		}
		return a[0]
	}
	trim := func(l, r bool) nativeFn {
		return func(t *Thread, a []Value) Value {
			es, cut := strElems(a[0]), strElems(a[1])
			in := func(e strElem) bool {
				c := t.p.bd.False
				for _, x := range cut {
					c = t.p.bd.Or(c, t.elemEq(e, x))
				}
				return t.cond(c)
			}
			for l && len(es) > 0 && in(es[0]) {
				es = es[1:]
			}
			for r && len(es) > 0 && in(es[len(es)-1]) {
				es = es[:len(es)-1]
			}
			return elemsToStr(es)
		}
	}
	symFns["strings.Trim"], symFns["strings.TrimLeft"], symFns["strings.TrimRight"] = trim(true, true), trim(true, false), trim(false, true)
	contains := func(t *Thread, x, y []strElem) Value {
		c := t.p.bd.False
		for i := 0; i+len(y) <= len(x); i++ {
			c = t.p.bd.Or(c, t.matchAt(x, i, y))
		}
		return fromBool(c)
	}
	symFns["strings.Contains"] = func(t *Thread, a []Value) Value { return contains(t, strElems(a[0]), strElems(a[1])) }
	symFns["strings.ContainsRune"] = func(t *Thread, a []Value) Value {
		return contains(t, strElems(a[0]), []strElem{t.runeElem(a[1])})
	}
	symFns["strings.ContainsAny"] = func(t *Thread, a []Value) Value {
		c := t.p.bd.False
		for _, e := range strElems(a[1]) {
			r := contains(t, strElems(a[0]), []strElem{e})
			c = t.p.bd.Or(c, t.p.bd.toExpr(r, 0))
		}
		return fromBool(c)
	}
	index := func(t *Thread, x, y []strElem) Value {
		off := Value{}
		if len(y) == 1 {
			conc := true
			for _, e := range x {
				conc = conc && e.e == nil
			}
			if conc {
				// no need to fork: the place of a character in a fixed text
				bd := t.p.bd
				n := 0
				for _, e := range x {
					n += elemLenC(e)
				}
				r := bd.Const(^uint64(0), 64)
				for i := len(x) - 1; i >= 0; i-- {
					n -= elemLenC(x[i])
					r = bd.Ite(t.elemEq(x[i], y[0]), bd.Const(uint64(n), 64), r)
				}
				return fromExpr(r, true)
			}
		}
		for i := 0; i+len(y) <= len(x); i++ {
			if t.cond(t.matchAt(x, i, y)) {
				return off
			}
			off = t.addInt(off, intVal(len(t.elemBytes(x[i]))))
		}
		return intVal(-1)
	}
	symFns["strings.Index"] = func(t *Thread, a []Value) Value { return index(t, strElems(a[0]), strElems(a[1])) }
	symFns["strings.IndexRune"] = func(t *Thread, a []Value) Value {
		if e := a[1].sym(); e != nil && !validRuneExpr(e) {
			bd := t.p.bd
			lo := bd.Cmp(OpUlt, e, bd.Const(0xD800, 32))
			hi := bd.And(bd.Cmp(OpUle, bd.Const(0xE000, 32), e), bd.Cmp(OpUle, e, bd.Const(0x10FFFF, 32)))
			if !t.cond(bd.Or(lo, hi)) {
				return intVal(-1)
			}
			return index(t, strElems(a[0]), []strElem{{e: e}})
		}
		return index(t, strElems(a[0]), []strElem{t.runeElem(a[1])})
	}
	symFns["strings.IndexByte"] = func(t *Thread, a []Value) Value {
		if a[1].ref != nil || a[1].n >= 0x80 {
			panic(unsupported("IndexByte"))
		}
		return index(t, strElems(a[0]), []strElem{{r: int32(a[1].n)}})
	}
	symFns["internal/bytealg.IndexByteString"] = symFns["strings.IndexByte"]
	symFns["strings.ReplaceAll"] = func(t *Thread, a []Value) Value { return t.replace(a[0], a[1], a[2], -1) }
	symFns["strings.Replace"] = func(t *Thread, a []Value) Value {
		return t.replace(a[0], a[1], a[2], int(int64(t.concInt(a[3], 64, true))))
	}
	symFns["strings.Join"] = func(t *Thread, a []Value) Value {
		var parts []Value
		for i, v := range sliceOf(a[0]) {
			if i > 0 {
				parts = append(parts, a[1])
			}
			parts = append(parts, v)
		}
		return concatStr(parts...)
	}
	symFns["strings.Repeat"] = func(t *Thread, a []Value) Value {
		n := int(int64(t.concInt(a[1], 64, true)))
		var parts []Value
		for i := 0; i < n; i++ {
			parts = append(parts, a[0])
		}
		return concatStr(parts...)
	}
	symFns["strings.Fields"] = func(t *Thread, a []Value) Value {
		var out []Value
		var cur []strElem
		for _, e := range strElems(a[0]) {
			if t.cond(t.spaceExpr(e)) {
				if len(cur) > 0 {
					out = append(out, elemsToStr(cur))
				}
				cur = nil
				continue
			}
			cur = append(cur, e)
		}
		if len(cur) > 0 {
			out = append(out, elemsToStr(cur))
		}
		return sliceVal(out)
	}
	symFns["unicode.IsSpace"] = func(t *Thread, a []Value) Value { return fromBool(t.spaceExpr(strElem{e: a[0].sym()})) }
	table := func(tabs ...*unicode.RangeTable) nativeFn {
		return func(t *Thread, a []Value) Value {
			c := t.p.bd.False
			for _, tab := range tabs {
				c = t.p.bd.Or(c, t.inTable(a[0].sym(), tab))
			}
			return fromBool(c)
		}
	}
	symFns["unicode.IsLetter"] = table(unicode.Letter)
	symFns["unicode.IsDigit"] = table(unicode.Digit)
	symFns["unicode.IsNumber"] = table(unicode.Number)
	symFns["unicode.IsUpper"] = table(unicode.Upper)
	symFns["unicode.IsLower"] = table(unicode.Lower)
	symFns["unicode.IsPunct"] = table(unicode.Punct)
	symFns["unicode.IsControl"] = table(unicode.Cc)
	symFns["unicode/utf8.RuneLen"] = func(t *Thread, a []Value) Value { return t.elemLen(strElem{e: a[0].sym()}) }
	symFns["unicode/utf8.RuneCountInString"] = func(t *Thread, a []Value) Value { return intVal(len(strElems(a[0]))) }
	symFns["unicode/utf8.ValidString"] = func(t *Thread, a []Value) Value {
		for _, e := range strElems(a[0]) {
			if e.e == nil && e.r >= badByte {
				return boolVal(false)
			}
		}
		return boolVal(true)
	}
	symFns["unicode/utf8.DecodeRuneInString"] = func(t *Thread, a []Value) Value {
		es := strElems(a[0])
		if len(es) == 0 {
			return tuple(Value{n: utf8.RuneError}, Value{})
		}
		return tuple(es[0].rune(), t.elemLen(es[0]))
	}
	parse := func(signed bool) nativeFn {
		return func(t *Thread, a []Value) Value {
			base := int(int64(t.concInt(a[1], 64, true)))
			bits := int(int64(t.concInt(a[2], 64, true)))
			return t.parseNum(a[0], base, bits, signed)
		}
	}
	symFns["strconv.ParseInt"] = parse(true)
	symFns["strconv.ParseUint"] = parse(false)
	symFns["strconv.Atoi"] = func(t *Thread, a []Value) Value { return t.parseNum(a[0], 10, 64, true) }
	symFns["strconv.Itoa"] = func(t *Thread, a []Value) Value {
		return strVal(strconv.Itoa(int(int64(t.concInt(a[0], 64, true)))))
	}
	symFns["strings.Compare"] = func(t *Thread, a []Value) Value { panic(unsupported("strings.Compare")) }
}

// cond branches on a condition.
func (t *Thread) cond(c *Expr) bool {
	return t.p.branchAt(t, c)
}

func (t *Thread) spaceExpr(e strElem) *Expr {
	bd := t.p.bd
	if e.e == nil {
		return bd.Bool(e.r < badByte && unicode.IsSpace(rune(e.r)))
	}
	return t.inTable(e.e, unicode.White_Space)
}

func (t *Thread) inTable(e *Expr, tab *unicode.RangeTable) *Expr {
	bd := t.p.bd
	r := bd.False
	add := func(lo, hi, st uint32) {
		if st == 1 {
			if lo == hi {
				r = bd.Or(r, bd.Cmp(OpEq, e, bd.Const(uint64(lo), 32)))
				return
			}
			r = bd.Or(r, bd.And(bd.Cmp(OpUle, bd.Const(uint64(lo), 32), e), bd.Cmp(OpUle, e, bd.Const(uint64(hi), 32))))
			return
		}
		for c := lo; c <= hi; c += st {
			r = bd.Or(r, bd.Cmp(OpEq, e, bd.Const(uint64(c), 32)))
		}
	}
	for _, x := range tab.R16 {
		add(uint32(x.Lo), uint32(x.Hi), uint32(x.Stride))
	}
	for _, x := range tab.R32 {
		add(x.Lo, x.Hi, x.Stride)
	}
	return r
}

func (t *Thread) matchAt(x []strElem, i int, pat []strElem) *Expr {
	bd := t.p.bd
	c := bd.True
	for k := range pat {
		c = bd.And(c, t.elemEq(x[i+k], pat[k]))
		if c == bd.False {
			break
		}
	}
	return c
}

func (t *Thread) splitN(s, sep Value, n int) Value {
	x, y := strElems(s), strElems(sep)
	if len(y) == 0 {
		panic(unsupported("split by empty separator"))
	}
	if n == 0 {
		return Value{}
	}
	var out []Value
	start := 0
	for i := 0; i+len(y) <= len(x); {
		if n > 0 && len(out) == n-1 {
			break
		}
		if t.cond(t.matchAt(x, i, y)) {
			out = append(out, elemsToStr(x[start:i]))
			i += len(y)
			start = i
			continue
		}
		i++
	}
	out = append(out, elemsToStr(x[start:]))
	return sliceVal(out)
}

func (t *Thread) replace(s, old, nw Value, n int) Value {
	x, y := strElems(s), strElems(old)
	if len(y) == 0 {
		panic(unsupported("replace of empty string"))
	}
	z := strElems(nw)
	var out []strElem
	for i := 0; i < len(x); {
		if n != 0 && i+len(y) <= len(x) && t.cond(t.matchAt(x, i, y)) {
			out = append(out, z...)
			i += len(y)
			n--
			continue
		}
		out = append(out, x[i])
		i++
	}
	return elemsToStr(out)
}

func (t *Thread) parseNum(s Value, base, bits int, signed bool) Value {
	bd := t.p.bd
	es := strElems(s)
	bad := func() Value {
		return tuple(Value{}, t.p.e.newError(concatStr(strVal("strconv: parsing "), s, strVal(": invalid syntax"))))
	}
	rng := func() Value {
		return tuple(Value{}, t.p.e.newError(concatStr(strVal("strconv: parsing "), s, strVal(": value out of range"))))
	}
	if base != 10 && base != 16 || bits == 0 {
		panic(unsupported("number base or size"))
	}
	neg := false
	if signed && len(es) > 0 {
		if t.cond(t.elemEq(es[0], strElem{r: '-'})) {
			neg = true
			es = es[1:]
		} else if t.cond(t.elemEq(es[0], strElem{r: '+'})) {
			es = es[1:]
		}
	}
	if len(es) == 0 {
		return bad()
	}
	if len(es) > 15 {
		panic(unsupported("long symbolic number"))
	}
	acc := bd.Const(0, 64)
	for _, e := range es {
		c := bd.toExpr(e.rune(), 32)
		in := func(lo, hi rune) *Expr {
			return bd.And(bd.Cmp(OpUle, bd.Const(uint64(lo), 32), c), bd.Cmp(OpUle, c, bd.Const(uint64(hi), 32)))
		}
		ok := in('0', '9')
		d := bd.Bin(OpSub, c, bd.Const('0', 32))
		if base == 16 {
			d = bd.Ite(in('0', '9'), d, bd.Ite(in('a', 'f'), bd.Bin(OpSub, c, bd.Const('a'-10, 32)), bd.Bin(OpSub, c, bd.Const('A'-10, 32))))
			ok = bd.Or(ok, bd.Or(in('a', 'f'), in('A', 'F')))
		}
		if !t.cond(ok) {
			return bad()
		}
		acc = bd.Bin(OpAdd, bd.Bin(OpMul, acc, bd.Const(uint64(base), 64)), bd.Zext(d, 64))
	}
	if neg {
		acc = bd.Neg(acc)
	}
	if bits < 64 {
		var ok *Expr
		if signed {
			lim := uint64(1) << (bits - 1)
			ok = bd.And(bd.Cmp(OpSle, bd.Const(-lim, 64), acc), bd.Cmp(OpSlt, acc, bd.Const(lim, 64)))
		} else {
			ok = bd.Cmp(OpUlt, acc, bd.Const(uint64(1)<<bits, 64))
		}
		if !t.cond(ok) {
			return rng()
		}
	}
	return tuple(fromExpr(acc, signed), Value{})
}

// ---- builders ----

func (t *Thread) bufAgg(v Value, write bool) *Agg {
	p, _ := v.ref.(*Value)
	if p == nil {
		t.rtPanic("invalid memory address or nil pointer dereference")
	}
	if t.spec > 0 {
		panic(specAbort{})
	}
	a := p.ref.(*Agg)
	if t.p.monitoring && len(a.f) > 0 {
		if write {
			t.noteWriteVal(&a.f[0], Value{n: ^uint64(0)})
		} else {
			t.noteRead(&a.f[0])
		}
	}
	return a
}

func (t *Thread) bufWrite(b, s Value) {
	a := t.bufAgg(b, true)
	parts, _ := a.ext.([]Value)
	a.ext = append(parts, s)
}

func (t *Thread) bufGet(b Value) Value {
	a := t.bufAgg(b, false)
	parts, _ := a.ext.([]Value)
	if len(parts) == 0 {
		return Value{}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	v := concatStr(parts...)
	a.ext = []Value{v}
	return v
}

func (t *Thread) out(s Value) { t.p.stdout = append(t.p.stdout, s) }

func (t *Thread) fwrite(w, s Value) {
	i, _ := w.ref.(*Iface)
	if i == nil {
		t.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p, ok := i.v.ref.(*Value); ok {
		if a, ok := p.ref.(*Agg); ok {
			switch a.ext {
			case "stdout":
				t.out(s)
				return
			case "stderr":
				return
			}
		}
	}
	if i.rt == nil {
		return
	}
	switch i.rt.name {
	case "*strings.Builder", "*bytes.Buffer":
		t.bufWrite(i.v, s)
		return
	case "*os.File":
		return
	}
	m := t.p.e.findMethod(i.rt, nil, "Write")
	if m == nil {
		panic(unsupported("writer " + i.rt.name))
	}
	t.call(m, []Value{i.v, sliceVal(t.strBytes(s))}, nil)
}

// strBytesKeep keeps a symbolic text whole: the result can only be turned back into a string.
func (t *Thread) strBytesKeep(s Value) Value {
	if _, ok := isStr(s); ok {
		return sliceVal(t.strBytes(s))
	}
	return sliceVal(t.strBytes(s))
}

// ---- formatting ----

func (t *Thread) callString(i *Iface, name string) (Value, bool) {
	m := t.p.e.findMethod(i.rt, nil, name)
	if m == nil || m.fn == nil {
		return Value{}, false
	}
	sig := m.fn.Signature
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type() != types.Typ[types.String] {
		return Value{}, false
	}
	if i.rt.kind == kPtr && i.v.ref == nil {
		// fmt prints <nil> when the method panics on a nil receiver
		var r Value
		ok := true
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(*targetPanic); is {
						ok = false
						return
					}
					panic(x)
				}
			}()
			r = t.call(m, []Value{i.v}, nil)
		}()
		if !ok {
			return strVal("<nil>"), true
		}
		return r, true
	}
	return t.call(m, []Value{i.v}, nil), true
}

func (t *Thread) sprintf(f Value, args []Value) Value {
	if t.spec > 0 {
		panic(specAbort{})
	}
	fs, ok := isStr(f)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	var parts []Value
	ai := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			parts = append(parts, strVal(fs[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, strVal(fs[i:i+j]))
		}
		i += j + 1
		if i >= len(fs) {
			parts = append(parts, strVal("%!(NOVERB)"))
			break
		}
		start := i
		for i < len(fs) && strings.IndexByte("-+# 0", fs[i]) >= 0 {
			i++
		}
		flags := fs[start:i]
		width := -1
		for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(fs[i]-'0')
			i++
		}
		if i < len(fs) && fs[i] == '*' && width < 0 && ai < len(args) {
			if w, _ := args[ai].ref.(*Iface); w != nil && w.rt.kind == kInt {
				ai++
				i++
				if width = int(t.concInt(w.v, 64, true)); width < 0 {
					flags += "-"
					width = -width
				}
			}
		}
		prec := -1
		if i < len(fs) && fs[i] == '.' {
			prec = 0
			for i++; i < len(fs) && fs[i] >= '0' && fs[i] <= '9'; i++ {
				prec = prec*10 + int(fs[i]-'0')
			}
		}
		if i < len(fs) && (fs[i] == '.' || fs[i] == '*' || fs[i] == '[') {
			panic(unsupported("format " + fs))
		}
		if i >= len(fs) {
			parts = append(parts, strVal("%!(NOVERB)"))
			break
		}
		verb, n := utf8.DecodeRuneInString(fs[i:])
		i += n
		if verb == '%' {
			parts = append(parts, strVal("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, strVal("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a, _ := args[ai].ref.(*Iface)
		ai++
		if prec >= 0 && a != nil && a.rt.kind != kString {
			if verb != 'f' && verb != 'g' && verb != 'e' || a.rt.kind != kFloat {
				panic(unsupported("format " + fs))
			}
			flags += "." + strconv.Itoa(prec)
		}
		s := t.formatArg(a, verb, flags, width)
		if prec >= 0 && a != nil && a.rt.kind == kString {
			c, ok := isStr(s)
			if !ok || verb != 's' && verb != 'v' {
				panic(unsupported("format " + fs))
			}
			if r := []rune(c); len(r) > prec {
				s = strVal(string(r[:prec]))
			}
		}
		if width >= 0 {
			n := len(strElems(s))
			if n < width {
				pad := strings.Repeat(" ", width-n)
				if strings.Contains(flags, "-") {
					s = concatStr(s, strVal(pad))
				} else {
					s = concatStr(strVal(pad), s)
				}
			}
		}
		parts = append(parts, s)
	}
	if ai < len(args) {
		parts = append(parts, strVal("%!(EXTRA "))
		for k := ai; k < len(args); k++ {
			if k > ai {
				parts = append(parts, strVal(", "))
			}
			a, _ := args[k].ref.(*Iface)
			if a == nil {
				parts = append(parts, strVal("<nil>"))
			} else {
				parts = append(parts, strVal(a.rt.name+"="), t.formatArg(a, 'v', "", -1))
			}
		}
		parts = append(parts, strVal(")"))
	}
	return concatStr(parts...)
}

func (t *Thread) badVerb(a *Iface, verb rune) Value {
	return concatStr(strVal("%!"+string(verb)+"("+a.rt.name+"="), t.formatArg(a, 'v', "", -1), strVal(")"))
}

func (t *Thread) formatArg(a *Iface, verb rune, flags string, width int) Value {
	if a == nil {
		if verb == 'T' || verb == 'v' {
			return strVal("<nil>")
		}
		return strVal("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return strVal(a.rt.name)
	}
	if verb == 'w' {
		verb = 'v'
	}
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
		if s, ok := t.callString(a, "Error"); ok {
			return t.fmtStr(s, verb)
		}
		if s, ok := t.callString(a, "String"); ok {
			return t.fmtStr(s, verb)
		}
	}
	if strings.Contains(flags, "#") {
		panic(unsupported("format flag #"))
	}
	switch a.rt.kind {
	case kString:
		switch verb {
		case 's', 'v', 'q':
			return t.fmtStr(a.v, verb)
		}
		return t.badVerb(a, verb)
	case kBool:
		if verb != 'v' && verb != 't' {
			return t.badVerb(a, verb)
		}
		if e := a.v.sym(); e != nil {
			return strVal(fmt.Sprint(t.p.branchAt(t, e)))
		}
		return strVal(fmt.Sprint(a.v.n == 1))
	case kFloat:
		return strVal(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(a.v.n)))
	case kInt:
		return t.fmtInt(a, verb, flags, width)
	case kPtr:
		if a.v.ref == nil {
			return strVal("<nil>")
		}
		if p, ok := a.v.ref.(*Value); ok {
			el := t.p.e.rtypeL(deref(a.rt.t))
			if el.kind == kStruct || el.kind == kSlice || el.kind == kMap {
				return concatStr(strVal("&"), t.formatArg(&Iface{rt: el, v: *p}, verb, "", -1))
			}
		}
		return strVal("0xc000012345")
	case kIface:
		x, _ := a.v.ref.(*Iface)
		return t.formatArg(x, verb, flags, -1)
	case kSlice, kArray:
		var el types.Type
		var s []Value
		if a.rt.kind == kSlice {
			el = a.rt.t.Underlying().(*types.Slice).Elem()
			s = sliceOf(a.v)
		} else {
			el = a.rt.t.Underlying().(*types.Array).Elem()
			s = a.v.ref.(*Agg).f
		}
		er := t.p.e.rtypeL(el)
		if er.kind == kInt && er.w == 8 && (verb == 's' || verb == 'q') {
			return t.fmtStr(t.bytesToStr(s), verb)
		}
		parts := []Value{strVal("[")}
		for i := range s {
			if i > 0 {
				parts = append(parts, strVal(" "))
			}
			parts = append(parts, t.formatArg(&Iface{rt: er, v: s[i]}, verb, flags, -1))
		}
		return concatStr(append(parts, strVal("]"))...)
	case kStruct:
		st := a.rt.t.Underlying().(*types.Struct)
		parts := []Value{strVal("{")}
		for i, v := range a.v.ref.(*Agg).f {
			if i > 0 {
				parts = append(parts, strVal(" "))
			}
			if strings.Contains(flags, "+") {
				parts = append(parts, strVal(st.Field(i).Name()+":"))
			}
			fr := t.p.e.rtypeL(st.Field(i).Type())
			if fr.kind == kPtr && v.ref != nil {
				parts = append(parts, strVal("0xc000012345"))
				continue
			}
			parts = append(parts, t.formatArg(&Iface{rt: fr, v: v}, verb, flags, -1))
		}
		return concatStr(append(parts, strVal("}"))...)
	case kFunc, kChan:
		return strVal("0xc000012345")
	case kMap:
		mo, _ := a.v.ref.(*MapObj)
		mt := a.rt.t.Underlying().(*types.Map)
		kr, vr := t.p.e.rtypeL(mt.Key()), t.p.e.rtypeL(mt.Elem())
		var idx []int
		if mo != nil {
			for i := range mo.keys {
				if mo.live[i] {
					idx = append(idx, i)
				}
			}
		}
		less := func(x, y Value) bool {
			if kr.kind == kString {
				a, ok1 := isStr(x)
				b, ok2 := isStr(y)
				if ok1 && ok2 {
					return a < b
				}
			}
			if kr.kind == kInt && x.ref == nil && y.ref == nil {
				return kr.sgn && int64(x.n) < int64(y.n) || !kr.sgn && x.n < y.n
			}
			panic(unsupported("format of " + a.rt.name))
		}
		sort.Slice(idx, func(i, j int) bool { return less(mo.keys[idx[i]], mo.keys[idx[j]]) })
		parts := []Value{strVal("map[")}
		for n, i := range idx {
			if n > 0 {
				parts = append(parts, strVal(" "))
			}
			parts = append(parts, t.formatArg(&Iface{rt: kr, v: mo.keys[i]}, verb, flags, -1), strVal(":"), t.formatArg(&Iface{rt: vr, v: *mo.vals[i]}, verb, flags, -1))
		}
		return concatStr(append(parts, strVal("]"))...)
	}
	panic(unsupported("format of " + a.rt.name))
}

func (t *Thread) fmtStr(s Value, verb rune) Value {
	c, ok := isStr(s)
	switch verb {
	case 's', 'v':
		return s
	case 'q':
		if ok {
			return strVal(strconv.Quote(c))
		}
		return t.quote(s, '"')
	case 'x', 'X':
		if ok {
			return strVal(fmt.Sprintf("%"+string(verb), c))
		}
	}
	panic(unsupported("format %" + string(verb) + " of a symbolic string"))
}

func (t *Thread) fmtInt(a *Iface, verb rune, flags string, width int) Value {
	bd := t.p.bd
	e := a.v.sym()
	if verb == 'c' {
		v := t.widenRune(a.v, a.rt.w, a.rt.sgn)
		return t.runesToStr([]Value{v})
	}
	if e != nil && (verb == 'X' || verb == 'x') && strings.Contains(flags, "0") && width == 4 && a.rt.w == 32 {
		if t.p.branchAt(t, bd.Cmp(OpUlt, e, bd.Const(0x10000, 32))) {
			al := uint64('A' - 10)
			if verb == 'x' {
				al = 'a' - 10
			}
			var es []strElem
			for sh := 12; sh >= 0; sh -= 4 {
				d := bd.Bin(OpAnd, bd.Bin(OpLshr, e, bd.Const(uint64(sh), 32)), bd.Const(15, 32))
				c := bd.Ite(bd.Cmp(OpUlt, d, bd.Const(10, 32)), bd.Bin(OpAdd, d, bd.Const('0', 32)), bd.Bin(OpAdd, d, bd.Const(al, 32)))
				es = append(es, strElem{e: c})
			}
			return elemsToStr(es)
		}
	}
	n := t.concInt(a.v, a.rt.w, a.rt.sgn)
	var f string
	switch verb {
	case 'v', 'd', 'x', 'X', 'o', 'b', 'q', 'U', 't', 's':
		f = "%" + flags
		if width >= 0 {
			f += strconv.Itoa(width)
		}
		f += string(verb)
	default:
		return t.badVerb(a, verb)
	}
	if verb == 's' || verb == 't' {
		return t.badVerb(a, verb)
	}
	if a.rt.sgn {
		switch a.rt.w {
		case 32:
			return strVal(fmt.Sprintf(f, int32(n)))
		default:
			return strVal(fmt.Sprintf(f, int64(n)))
		}
	}
	return strVal(fmt.Sprintf(f, n))
}

func (t *Thread) sprint(args []Value, ln bool) Value {
	var parts []Value
	prevStr := false
	for i := range args {
		a, _ := args[i].ref.(*Iface)
		isS := a != nil && a.rt.kind == kString
		if i > 0 && (ln || (!isS && !prevStr)) {
			parts = append(parts, strVal(" "))
		}
		parts = append(parts, t.formatArg(a, 'v', "", -1))
		prevStr = isS
	}
	if ln {
		parts = append(parts, strVal("\n"))
	}
	return concatStr(parts...)
}
