package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	prefix []uint16
	model  []uint64
}

// Harness is one entry point.
type Harness struct {
	name         string
	fn           *Func
	maxDecisions int
	preempt      int // bound on preemptions per path (0: none)
	maxSteps     int64
	params       map[string]int
	testArg      bool // a Go test: takes *testing.T
}

type candidate struct {
	harness *Harness
	kind    string
	msg     string
	inputs  []inputRec
	where   string
	count   int
}

type sample struct {
	inputs []inputRec
	obs    []string
	reach  []string
}

// Explorer explores all paths of one harness.
type Explorer struct {
	e        *Engine
	h        *Harness
	workers  []*Worker
	pending  int64
	stop     int32
	deadline time.Time

	mu       sync.Mutex
	cands    map[string][]*candidate
	ncand    int
	reduced  map[string]int
	errors   []string
	samples  []sample
	reach    map[string]int64
	maxSamp  int
	aborts   map[string]int64
	paths    int64
	inputsMx int
	onCand   func(c *candidate) // called for the first few candidates of every kind
}

type Worker struct {
	ex     *Explorer
	id     int
	bd     *Builder
	solver *Solver
	mu     sync.Mutex
	queue  []item

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	funcs   map[*Func]bool

	transitions int64
	obligations int64
	proved      int64
	unknown     int64
	paths       int64
	steps       int64
}

var solverProg = "z3-new"
var solverArgs = []string{"-in"}

func (w *Worker) push(it item) {
	atomic.AddInt64(&w.ex.pending, 1)
	w.mu.Lock()
	w.queue = append(w.queue, it)
	w.mu.Unlock()
}

func (w *Worker) noteFunc(f *Func) {
	if !w.funcs[f] {
		w.funcs[f] = true
	}
}

func (ex *Explorer) noteReduced(why string) {
	ex.mu.Lock()
	ex.reduced[why]++
	ex.mu.Unlock()
}

func (ex *Explorer) internal(r any) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(ex.errors) < 5 {
		ex.errors = append(ex.errors, fmt.Sprint(r)+"\n"+string(debug.Stack()))
	}
}

func (ex *Explorer) addCandidate(c *candidate) {
	ex.mu.Lock()
	k := c.kind + "|" + c.msg
	l := ex.cands[k]
	if len(l) > 0 {
		l[0].count++
	}
	kept := len(l) < 4
	if kept {
		c.count = 1
		ex.cands[k] = append(l, c)
	}
	ex.ncand++
	if ex.ncand > 2000 {
		atomic.StoreInt32(&ex.stop, 1)
	}
	ex.mu.Unlock()
	if kept && ex.onCand != nil {
		ex.onCand(c)
	}
}

func (w *Worker) next() (item, bool) {
	ex := w.ex
	idle := 0
	for {
		if atomic.LoadInt32(&ex.stop) != 0 {
			return item{}, false
		}
		w.mu.Lock()
		if n := len(w.queue); n > 0 {
			it := w.queue[n-1]
			w.queue[n-1] = item{}
			w.queue = w.queue[:n-1]
			w.mu.Unlock()
			return it, true
		}
		w.mu.Unlock()
		for i := 1; i < len(ex.workers); i++ {
			v := ex.workers[(w.id+i)%len(ex.workers)]
			v.mu.Lock()
			if n := len(v.queue); n > 0 {
				it := v.queue[0]
				v.queue = v.queue[1:]
				v.mu.Unlock()
				return it, true
			}
			v.mu.Unlock()
		}
		if atomic.LoadInt64(&ex.pending) == 0 {
			return item{}, false
		}
		idle++
		if idle > 20 {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

func newExplorer(e *Engine, h *Harness, nw int, deadline time.Time) (*Explorer, error) {
	ex := &Explorer{e: e, h: h, deadline: deadline, cands: map[string][]*candidate{}, reduced: map[string]int{}, reach: map[string]int64{}, aborts: map[string]int64{}, maxSamp: 24}
	for i := 0; i < nw; i++ {
		bd := NewBuilder()
		s, err := NewSolver(bd, solverProg, solverArgs...)
		if err != nil {
			return nil, err
		}
		ex.workers = append(ex.workers, &Worker{ex: ex, id: i, bd: bd, solver: s, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, funcs: map[*Func]bool{}})
	}
	return ex, nil
}

func (ex *Explorer) run() {
	ex.pending = 1
	ex.workers[0].queue = append(ex.workers[0].queue, item{})
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				it, ok := w.next()
				if !ok {
					return
				}
				w.runPath(it)
				atomic.AddInt64(&ex.pending, -1)
				if time.Now().After(ex.deadline) && atomic.LoadInt64(&ex.pending) > 0 {
					if atomic.CompareAndSwapInt32(&ex.stop, 0, 1) {
						ex.noteReduced("time budget used up before all paths were explored")
					}
				}
			}
		}(w)
	}
	wg.Wait()
	for _, w := range ex.workers {
		w.solver.Close()
		ex.paths += w.paths
	}
}

func (w *Worker) newPath(it item) *Path {
	h := w.ex.h
	p := &Path{e: w.ex.e, w: w, h: h, bd: w.bd, prefix: it.prefix, model: append([]uint64(nil), it.model...),
		known: map[uint32]bool{}, byVar: map[int32][]int{}, maxSteps: h.maxSteps,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		frozen: map[*Value]string{}, frozenMaps: map[*MapObj]string{}, shadow: map[*Value]*shadowCell{}, shadowMap: map[*MapObj]*shadowCell{},
		locks: map[*Value]*lockState{}, files: map[string]Value{}, reached: map[string]bool{}}
	p.cur = p.newThread()
	return p
}

func (w *Worker) runPath(it item) {
	p := w.newPath(it)
	ex := w.ex
	var r any
	stack := ""
	func() {
		defer func() {
			r = recover()
			if r != nil {
				switch r.(type) {
				case *pathAbort, *targetPanic:
				default:
					stack = string(debug.Stack())
				}
			}
		}()
		t := p.threads[0]
		var args []Value
		if p.h.testArg {
			tv := new(Value)
			tv.ref = &Agg{f: make([]Value, 64)}
			args = []Value{{ref: tv}}
		}
		t.call(p.h.fn, args, nil)
	}()
	p.killThreads()
	w.paths++
	w.steps += p.steps
	outcome := "done"
	switch x := r.(type) {
	case nil:
	case *pathAbort:
		switch x.kind {
		case abInfeasible:
			outcome = "assume"
		case abUnsupported:
			outcome = "unsupported"
			ex.noteReduced("unsupported: " + x.msg)
			if os.Getenv("SYMEX_DEBUG") != "" {
				fmt.Fprintln(errw, "unsupported:", x.msg, p.where())
			}
		case abLimit:
			outcome = "limit"
			p.violation("hang", "evaluation does not end: "+x.msg, p.model)
		case abExit:
			outcome = "exit"
			p.violation("panic", "os.Exit called", p.model)
		default:
			outcome = "other"
		}
	case *targetPanic:
		outcome = "panic"
		p.violation("panic", "panic: "+x.msg, p.model)
	default:
		outcome = "internal"
		ex.mu.Lock()
		if len(ex.errors) < 5 {
			ex.errors = append(ex.errors, fmt.Sprint(x)+"\n"+stack)
		}
		ex.mu.Unlock()
		ex.noteReduced("internal error of the checker")
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.aborts[outcome]++
	for l := range p.reached {
		ex.reach[l]++
	}
	if len(p.vars) > ex.inputsMx {
		ex.inputsMx = len(p.vars)
	}
	if outcome == "done" && len(ex.samples) < ex.maxSamp && !p.noSample {
		take := len(ex.samples) < 3
		if !take {
			hs := fnv.New32a()
			for _, d := range p.trace {
				hs.Write([]byte{byte(d), byte(d >> 8)})
			}
			take = hs.Sum32()%17 == 0
		}
		if take {
			s := sample{inputs: p.assignment(p.model)}
			for _, o := range p.obs {
				s.obs = append(s.obs, p.renderObs(o))
			}
			for l := range p.reached {
				s.reach = append(s.reach, l)
			}
			sort.Strings(s.reach)
			ex.samples = append(ex.samples, s)
		}
	}
}
