package xbnf

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	vsync "MODPATH/zzvsync"
)

// Native meaning of the intrinsics: the nondeterministic values come from a recorded list.

type vIn struct {
	Kind string `json:"kind"`
	Val  int64  `json:"val"`
}

type vCase struct {
	Harness string         `json:"harness"`
	Inputs  []vIn          `json:"inputs"`
	Params  map[string]int `json:"params"`
	Repeat  int            `json:"repeat"`
	Sched   bool           `json:"sched"` // follow the recorded schedule
}

type vResult struct {
	Case     int      `json:"case"`
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Assume   bool     `json:"assume"` // an assumption did not hold
	Mismatch string   `json:"mismatch"`
	Hang     bool     `json:"hang"`
	Deadlock bool     `json:"deadlock"`
	Frozen   []string `json:"frozen"`
	Obs      []string `json:"obs"`
	Reach    []string `json:"reach"`
	Done     bool     `json:"done"`
}

type vStop struct{}

type vSnap struct {
	what string
	x    interface{}
	s    string
}

var vst struct {
	mu     sync.Mutex
	inputs []vIn
	pos    int
	params map[string]int
	sched  bool
	res    *vResult
	snaps  []vSnap
	nfile  int
}

func vNext(kind string) int64 {
	vst.mu.Lock()
	defer vst.mu.Unlock()
	for vst.pos < len(vst.inputs) {
		in := vst.inputs[vst.pos]
		vst.pos++
		if in.Kind == "maporder" || in.Kind == "sched" {
			continue
		}
		if in.Kind != kind {
			vst.res.Mismatch = "input kinds differ: " + in.Kind + " recorded, " + kind + " asked"
			panic(vStop{})
		}
		return in.Val
	}
	vst.res.Mismatch = "more inputs asked than recorded"
	panic(vStop{})
}

func vInt(lo, hi int) int { return int(vNext("int")) }
func vChoose(n int) int   { return int(vNext("choose")) }
func vBool() bool         { return vNext("bool") != 0 }
func vRune() rune         { return rune(vNext("rune")) }
func vRunes(n int) []rune {
	out := make([]rune, n)
	for i := range out {
		out[i] = vRune()
	}
	return out
}
func vAssume(c bool) {
	if !c {
		vst.res.Assume = true
		panic(vStop{})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		vst.mu.Lock()
		vst.res.Failed = append(vst.res.Failed, msg)
		vst.mu.Unlock()
	}
}
func vReach(label string) {
	vst.mu.Lock()
	defer vst.mu.Unlock()
	for _, l := range vst.res.Reach {
		if l == label {
			return
		}
	}
	vst.res.Reach = append(vst.res.Reach, label)
}
func vObserve(label string, xs ...interface{}) {
	s := label
	for _, x := range xs {
		v := reflect.ValueOf(x)
		switch {
		case x == nil:
			s += " <nil>"
		case v.Kind() == reflect.Slice:
			rs, _ := x.([]rune)
			s += " " + strconv.Quote(string(rs))
		case v.Kind() == reflect.String:
			s += " " + strconv.Quote(v.String())
		default:
			s += fmt.Sprintf(" %v", x)
		}
	}
	vst.mu.Lock()
	vst.res.Obs = append(vst.res.Obs, s)
	vst.mu.Unlock()
}
func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vNot(a bool) bool    { return !a }
func vIf(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func vConcrete(a int) int { return a }
func vMapOrder(on bool)   {}
func vParam(name string, def int) int {
	if v, ok := vst.params[name]; ok {
		return v
	}
	return def
}

// vDump renders everything reachable from x, slices up to their capacity.
func vDump(x interface{}) string {
	var b bytes.Buffer
	seen := map[uintptr]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil;")
				return
			}
			if n, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&b, "@%d;", n)
				return
			}
			seen[v.Pointer()] = len(seen)
			walk(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil;")
				return
			}
			b.WriteString(v.Elem().Type().String() + ":")
			walk(v.Elem())
		case reflect.Struct:
			if strings.HasPrefix(v.Type().PkgPath(), "sync") || strings.HasSuffix(v.Type().PkgPath(), "zzvsync") {
				return
			}
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
			b.WriteString("}")
		case reflect.Slice:
			fmt.Fprintf(&b, "[%d:", v.Len())
			if v.Cap() > 0 {
				w := v.Slice(0, v.Cap())
				for i := 0; i < w.Len(); i++ {
					walk(w.Index(i))
				}
			}
			b.WriteString("]")
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			var ks []string
			m := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				s := fmt.Sprint(k)
				ks = append(ks, s)
				m[s] = v.MapIndex(k)
			}
			sort.Strings(ks)
			b.WriteString("map[")
			for _, k := range ks {
				b.WriteString(k + "=")
				walk(m[k])
			}
			b.WriteString("]")
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		case reflect.String:
			b.WriteString(strconv.Quote(v.String()) + ";")
		case reflect.Bool:
			fmt.Fprintf(&b, "%v;", v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%d;", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprintf(&b, "%d;", v.Uint())
		default:
			b.WriteString("?;")
		}
	}
	walk(reflect.ValueOf(x))
	return b.String()
}

func vFreeze(what string, xs ...interface{}) {
	for _, x := range xs {
		vst.snaps = append(vst.snaps, vSnap{what, x, vDump(x)})
	}
}

// vSpans collects the memory ranges reachable from x through pointers, slices and maps.
func vSpans(x interface{}) (mem [][2]uintptr, maps map[uintptr]bool) {
	maps = map[uintptr]bool{}
	seen := map[string]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			k := fmt.Sprint("p", v.Pointer(), v.Type())
			if seen[k] {
				return
			}
			seen[k] = true
			if n := v.Elem().Type().Size(); n > 0 {
				mem = append(mem, [2]uintptr{v.Pointer(), v.Pointer() + n})
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			if v.Cap() == 0 || v.Type().Elem().Size() == 0 {
				return
			}
			k := fmt.Sprint("s", v.Pointer(), v.Cap(), v.Type())
			if seen[k] {
				return
			}
			seen[k] = true
			mem = append(mem, [2]uintptr{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size()})
			w := v.Slice(0, v.Cap())
			for i := 0; i < w.Len(); i++ {
				walk(w.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			if v.IsNil() || maps[v.Pointer()] {
				return
			}
			maps[v.Pointer()] = true
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		}
	}
	walk(reflect.ValueOf(x))
	return
}

func vShares(a, b interface{}) bool {
	ma, pa := vSpans(a)
	mb, pb := vSpans(b)
	for p := range pa {
		if pb[p] {
			return true
		}
	}
	for _, x := range ma {
		for _, y := range mb {
			if x[0] < y[1] && y[0] < x[1] {
				return true
			}
		}
	}
	return false
}

func vPar(fs ...func()) {
	ws := make([]func(), len(fs))
	for i := range fs {
		f := fs[i]
		ws[i] = func() {
			defer func() {
				r := recover()
				if _, ok := r.(vStop); r != nil && !ok {
					vst.mu.Lock()
					vst.res.Panic = fmt.Sprint(r)
					vst.mu.Unlock()
				}
			}()
			f()
		}
	}
	if vst.sched {
		var ds []int
		for _, in := range vst.inputs[vst.pos:] {
			if in.Kind == "sched" {
				ds = append(ds, int(in.Val))
			}
		}
		if !vsync.Run(ds, ws) {
			vst.res.Deadlock = true
			panic(vStop{})
		}
		return
	}
	var wg sync.WaitGroup
	for i := range ws {
		f := ws[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func vFile(content string) string {
	vst.nfile++
	name := os.Getenv("VERIF_SCRATCH") + "/vfile" + strconv.Itoa(vst.nfile-1)
	if err := ioutil.WriteFile(name, []byte(content), 0600); err != nil {
		panic(err)
	}
	return name
}

func vRepo(name string) string {
	b, _ := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_TREE"), name))
	return string(b)
}

func vRunMain(args ...string) (string, int) {
	cmd := exec.Command(os.Args[0])
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_REPLAY=") {
			env = append(env, e)
		}
	}
	js, _ := json.Marshal(args)
	cmd.Env = append(env, "VERIF_CHILD="+string(js))
	out := &bytes.Buffer{}
	cmd.Stdout = out
	cmd.Stderr = ioutil.Discard
	cmd.Dir = os.Getenv("VERIF_SCRATCH")
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		cmd.Process.Kill()
		vst.res.Hang = true
		panic(vStop{})
	}
	return out.String(), cmd.ProcessState.ExitCode()
}

// vReplayMain runs all recorded cases and appends one JSON line per case to the result file.
func vReplayMain() {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(200)
	js, err := ioutil.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		panic(err)
	}
	var cases []vCase
	if err := json.Unmarshal(js, &cases); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_RESULT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
	if err != nil {
		panic(err)
	}
	emit := func(r *vResult) {
		js, _ := json.Marshal(r)
		out.Write(append(js, '\n'))
	}
	limit := 6 * time.Second
	if s := os.Getenv("VERIF_LIMIT_MS"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Millisecond
	}
	first := 0
	if s := os.Getenv("VERIF_FIRST"); s != "" {
		first, _ = strconv.Atoi(s)
	}
	var begin time.Time
	var wmu sync.Mutex
	go func() {
		for {
			time.Sleep(20 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			wmu.Lock()
			over := !begin.IsZero() && time.Since(begin) > limit
			wmu.Unlock()
			if over || m.HeapAlloc > 1<<30 {
				vst.mu.Lock()
				vst.res.Hang = true
				emit(vst.res)
				os.Exit(0)
			}
		}
	}()
	for i := first; i < len(cases); i++ {
		c := cases[i]
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		start := time.Now()
		var res *vResult
		for k := 0; k < n; k++ {
			res = &vResult{Case: i}
			vst.mu.Lock()
			vst.inputs, vst.pos, vst.params, vst.sched, vst.res, vst.snaps, vst.nfile = c.Inputs, 0, c.Params, c.Sched, res, nil, 0
			vst.mu.Unlock()
			wmu.Lock()
			begin = time.Now()
			wmu.Unlock()
			vRunCase(c.Harness, res)
			wmu.Lock()
			begin = time.Time{}
			wmu.Unlock()
			sort.Strings(res.Reach)
			if len(res.Failed) > 0 || res.Panic != "" || len(res.Frozen) > 0 || res.Deadlock || res.Hang {
				break
			}
			if time.Since(start) > 5*time.Second {
				break
			}
		}
		res.Done = true
		emit(res)
	}
}

func vRunCase(name string, res *vResult) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(vStop); ok {
			return
		}
		res.Panic = fmt.Sprint(r)
		if os.Getenv("VERIF_STACK") != "" {
			os.Stderr.Write(debug.Stack())
		}
	}()
	f := vRegistry[name]
	if f == nil {
		res.Mismatch = "no such harness " + name
		return
	}
	f()
	for _, s := range vst.snaps {
		if vDump(s.x) != s.s {
			res.Frozen = append(res.Frozen, s.what)
		}
	}
}
