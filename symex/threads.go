package main

import (
	"fmt"
)

// Threads of the program under test run one at a time; control moves only at synchronisation
// operations, where the schedule is a choice. Accesses in between are checked for data races
// with vector clocks, so that exploring synchronisation points only is enough.

type vclock []int

func (a vclock) join(b vclock) vclock {
	if len(a) < len(b) {
		a = append(a, make(vclock, len(b)-len(a))...)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}

func (a vclock) at(i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a vclock) copy() vclock { return append(vclock(nil), a...) }

type shadowCell struct {
	wTid, wClk int
	wWhere     string
	reads      map[int]int
	rWhere     map[int]string
}

type lockState struct {
	writer  *Thread
	readers map[*Thread]int
	clock   vclock // released by writers
	rclock  vclock // released by readers
	wg      int
	waitW   int // writers waiting (they block new readers)
	onceRun bool
}

func (p *Path) lock(v *Value) *lockState {
	ls := p.locks[v]
	if ls == nil {
		ls = &lockState{readers: map[*Thread]int{}}
		p.locks[v] = ls
	}
	return ls
}

func (p *Path) newThread() *Thread {
	n := &Thread{p: p, id: len(p.threads), wake: make(chan bool, 1), ended: make(chan struct{})}
	p.threads = append(p.threads, n)
	return n
}

func (p *Path) spawn(t *Thread, ct callTarget, args []Value) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	if len(p.threads) >= 8 {
		panic(unsupported("more than 8 goroutines"))
	}
	n := p.newThread()
	n.clock = t.clock.copy().join(make(vclock, n.id+1))
	n.clock[n.id] = 1
	t.clock = t.clock.join(make(vclock, t.id+1))
	t.clock[t.id]++
	p.monitoring = true
	go func() {
		defer close(n.ended)
		if !<-n.wake {
			n.done = true
			return
		}
		abnormal := func(f func()) (failed bool) {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				failed = true
				n.done = true
				if a, ok := r.(*pathAbort); ok && a.kind == abDone {
					return
				}
				p.finish(r)
				m := p.threads[0]
				p.cur = m
				m.wake <- true
			}()
			f()
			return false
		}
		if abnormal(func() { n.callTarget(&frame{t: n}, ct, args) }) {
			return
		}
		n.done = true
		abnormal(func() { p.reschedule(n) })
	}()
}

// finish records how a thread ended abnormally.
func (p *Path) finish(r any) {
	if p.final != nil {
		return
	}
	switch r := r.(type) {
	case *pathAbort:
		p.final = r
	case *targetPanic:
		p.violation("panic", "panic: "+r.msg, p.model)
		p.final = &pathAbort{abInfeasible, "panic in goroutine"}
	default:
		p.final = &pathAbort{abUnsupported, fmt.Sprint("internal: ", r)}
		p.w.ex.internal(r)
	}
}

// reschedule passes control to some runnable thread. It is called by a thread that has finished
// or is at a switch point; it returns when the calling thread is scheduled again (at once if it
// has finished).
func (p *Path) reschedule(t *Thread) {
	var run []*Thread
	for _, x := range p.threads {
		if !x.done && (x.blockd == nil || x.blockd()) {
			run = append(run, x)
		}
	}
	if len(run) == 0 {
		p.violation("deadlock", "all goroutines are blocked (deadlock)", p.model)
		panic(&pathAbort{abInfeasible, "deadlock"})
	}
	self := -1
	for i, x := range run {
		if x == t {
			self = i
		}
	}
	var k int
	if bound := p.h.preempt; self >= 0 && bound > 0 && p.preemptions >= bound {
		// within the bound on preemptions only this thread may go on
		k = self
		if len(run) > 1 {
			p.inputs = append(p.inputs, inputRec{kind: "sched", val: int64(k)})
		}
	} else {
		k = p.choose(len(run), "sched")
	}
	if self >= 0 && k != self {
		p.preemptions++
	}
	x := run[k]
	if x == t {
		return
	}
	p.cur = x
	x.wake <- true
	if t.done {
		return
	}
	if !<-t.wake {
		panic(&pathAbort{abDone, ""})
	}
	if p.final != nil {
		panic(p.final)
	}
}

// switchPoint lets another thread run before a synchronisation operation.
func (t *Thread) switchPoint() {
	if t.initDepth > 0 {
		return
	}
	alive := 0
	for _, x := range t.p.threads {
		if !x.done {
			alive++
		}
	}
	if alive < 2 {
		return
	}
	t.p.reschedule(t)
}

// block waits until cond holds.
func (t *Thread) block(cond func() bool) {
	for !cond() {
		t.blockd = cond
		t.p.reschedule(t)
	}
	t.blockd = nil
}

// killThreads ends all other threads of the path.
func (p *Path) killThreads() {
	for _, x := range p.threads[1:] {
		select {
		case <-x.ended:
			continue
		default:
		}
		select {
		case x.wake <- false:
		default:
		}
		<-x.ended
	}
}

func (t *Thread) wgAdd(v Value, n int) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	ls := t.p.lock(v.ref.(*Value))
	ls.wg += n
	if ls.wg < 0 {
		panic(&targetPanic{msg: "sync: negative WaitGroup counter"})
	}
	if n < 0 && len(t.p.threads) > 1 {
		ls.clock = ls.clock.join(t.clock)
		t.clock[t.id]++
	}
}

func (t *Thread) wgWait(v Value) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	ls := t.p.lock(v.ref.(*Value))
	t.block(func() bool { return ls.wg == 0 })
	t.clock = t.clock.join(ls.clock)
}

func (t *Thread) onceDo(v, f Value) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	ls := t.p.lock(v.ref.(*Value))
	t.switchPoint()
	if ls.onceRun {
		t.block(func() bool { return ls.writer == nil })
		t.clock = t.clock.join(ls.clock)
		return
	}
	ls.onceRun = true
	ls.writer = t
	cl := f.ref.(*Closure)
	t.call(cl.fn, nil, cl.free)
	ls.writer = nil
	if len(t.p.threads) > 1 {
		ls.clock = t.clock.copy()
		t.clock[t.id]++
	}
}

// atomicOp is a sequentially consistent atomic operation on p.
func (t *Thread) atomicOp(p *Value) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	t.switchPoint()
	if len(t.p.threads) > 1 {
		ls := t.p.lock(p)
		t.clock = t.clock.join(ls.clock)
		ls.clock = ls.clock.join(t.clock)
		t.clock[t.id]++
	}
}

func (t *Thread) lockOp(addr *Value, op string) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	p := t.p
	ls := p.lock(addr)
	multi := len(p.threads) > 1
	switch op {
	case "Lock":
		t.switchPoint()
		multi = len(p.threads) > 1
		if !multi && (ls.writer != nil || len(ls.readers) > 0) {
			p.violation("deadlock", "lock acquired while already held by the same goroutine (deadlock)", p.model)
			panic(&pathAbort{abInfeasible, "self deadlock"})
		}
		if ls.writer != nil || len(ls.readers) > 0 {
			ls.waitW++
			t.block(func() bool { return ls.writer == nil && len(ls.readers) == 0 })
			ls.waitW--
		}
		ls.writer = t
		if multi {
			t.clock = t.clock.join(ls.clock).join(ls.rclock)
		}
	case "Unlock":
		if ls.writer == nil {
			panic(&targetPanic{msg: "fatal error: sync: unlock of unlocked mutex"})
		}
		ls.writer = nil
		if multi {
			ls.clock = t.clock.copy()
			t.clock[t.id]++
		}
	case "RLock":
		t.switchPoint()
		if !multi && ls.writer != nil {
			p.violation("deadlock", "read lock acquired while the write lock is held by the same goroutine (deadlock)", p.model)
			panic(&pathAbort{abInfeasible, "self deadlock"})
		}
		t.block(func() bool { return ls.writer == nil && ls.waitW == 0 })
		ls.readers[t]++
		if multi {
			t.clock = t.clock.join(ls.clock)
		}
	case "RUnlock":
		if ls.readers[t] == 0 {
			found := false
			for x := range ls.readers {
				if ls.readers[x] > 0 {
					found = true
				}
			}
			if !found {
				panic(&targetPanic{msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
			}
		}
		ls.readers[t]--
		if ls.readers[t] == 0 {
			delete(ls.readers, t)
		}
		if multi {
			ls.rclock = ls.rclock.join(t.clock)
			t.clock[t.id]++
		}
	}
}

// tryLock takes a lock if it is free.
func (t *Thread) tryLock(addr *Value, read bool) bool {
	if t.spec > 0 {
		panic(specAbort{})
	}
	ls := t.p.lock(addr)
	t.switchPoint()
	if ls.writer != nil || !read && len(ls.readers) > 0 || read && ls.waitW > 0 {
		return false
	}
	if read {
		ls.readers[t]++
	} else {
		ls.writer = t
	}
	if len(t.p.threads) > 1 {
		t.clock = t.clock.join(ls.clock)
		if !read {
			t.clock = t.clock.join(ls.rclock)
		}
	}
	return true
}

// ---- access monitoring ----

func (t *Thread) noteRead(p *Value) {
	if !t.p.monitoring {
		return
	}
	t.p.access(t, t.p.shadow, p, false)
}

func (t *Thread) noteReadAgg(v Value) {
	if !t.p.monitoring || len(t.p.threads) < 2 {
		return
	}
	if a, ok := v.ref.(*Agg); ok {
		for i := range a.f {
			t.noteRead(&a.f[i])
			t.noteReadAgg(a.f[i])
		}
	}
}

// noteWriteVal records a write of v. Writing an equal value does not change frozen memory.
func (t *Thread) noteWriteVal(p *Value, v Value) {
	if !t.p.monitoring {
		return
	}
	if w, ok := t.p.frozen[p]; ok && !sameVal(*p, v) {
		t.p.violation("frozen", "write to memory of "+w, t.p.model)
		delete(t.p.frozen, p)
	}
	t.p.access(t, t.p.shadow, p, true)
}

func sameVal(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	if a.ref == nil || b.ref == nil {
		return a.ref == nil && b.ref == nil
	}
	switch x := a.ref.(type) {
	case *Value:
		y, ok := b.ref.(*Value)
		return ok && x == y
	case *MapObj:
		y, ok := b.ref.(*MapObj)
		return ok && x == y
	case *Expr:
		y, ok := b.ref.(*Expr)
		return ok && x == y
	case string:
		y, ok := b.ref.(string)
		return ok && x == y
	case []Value:
		y, ok := b.ref.([]Value)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (cap(x) == 0 || &x[:1][0] == &y[:1][0])
	}
	return false
}

func (t *Thread) noteMapRead(m *MapObj) {
	if !t.p.monitoring {
		return
	}
	t.p.accessMap(t, m, false)
}

func (t *Thread) noteMapWrite(m *MapObj) {
	if t.spec > 0 {
		panic(specAbort{})
	}
	if !t.p.monitoring {
		return
	}
	if w, ok := t.p.frozenMaps[m]; ok {
		t.p.violation("frozen", "write to a map of "+w, t.p.model)
		delete(t.p.frozenMaps, m)
	}
	t.p.accessMap(t, m, true)
}

func (p *Path) access(t *Thread, tab map[*Value]*shadowCell, v *Value, write bool) {
	if len(p.threads) < 2 {
		return
	}
	c := tab[v]
	if c == nil {
		c = &shadowCell{wTid: -1}
		tab[v] = c
	}
	p.race(t, c, write)
}

func (p *Path) accessMap(t *Thread, m *MapObj, write bool) {
	if len(p.threads) < 2 {
		return
	}
	c := p.shadowMap[m]
	if c == nil {
		c = &shadowCell{wTid: -1}
		p.shadowMap[m] = c
	}
	p.race(t, c, write)
}

func (p *Path) race(t *Thread, c *shadowCell, write bool) {
	if c.wTid >= 0 && c.wTid != t.id && c.wClk > t.clock.at(c.wTid) {
		p.reportRace(t, c.wWhere, write)
	}
	if write {
		for tid, k := range c.reads {
			if tid != t.id && k > t.clock.at(tid) {
				p.reportRace(t, c.rWhere[tid], write)
			}
		}
		c.wTid, c.wClk = t.id, t.clock.at(t.id)
		c.wWhere = topName(t)
		c.reads, c.rWhere = nil, nil
		return
	}
	if c.reads == nil {
		c.reads = map[int]int{}
		c.rWhere = map[int]string{}
	}
	c.reads[t.id] = t.clock.at(t.id)
	c.rWhere[t.id] = topName(t)
}

func topName(t *Thread) string {
	if t.top == nil {
		return "?"
	}
	return t.top.f.name
}

func (p *Path) reportRace(t *Thread, other string, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	if t.spec > 0 {
		panic(specAbort{})
	}
	p.violation("race", fmt.Sprintf("data race: %s in %s not ordered with access in %s", k, topName(t), other), p.model)
	panic(&pathAbort{abInfeasible, "race"})
}
