// Package zzvsync stands in for package sync in native replays: outside Run its types behave like
// those of package sync for a single goroutine; inside Run goroutines take turns, switching at
// lock operations as a recorded schedule says.
package zzvsync

import "sync"

type Pool = sync.Pool
type Map = sync.Map
type Locker = sync.Locker
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

type thread struct {
	id   int
	done bool
	cond func() bool
	wake chan bool
}

var (
	threads []*thread
	cur     *thread
	dec     []int
	active  bool
	dead    chan bool
)

// Run runs the functions as goroutines under the schedule; false means deadlock.
func Run(schedule []int, fs []func()) bool {
	dec = schedule
	dead = make(chan bool, 1)
	main := &thread{wake: make(chan bool, 1)}
	threads = []*thread{main}
	cur = main
	left := len(fs)
	for i, f := range fs {
		t := &thread{id: i + 1, wake: make(chan bool, 1)}
		threads = append(threads, t)
		go func(f func()) {
			<-t.wake
			defer func() {
				recover()
				left--
				t.done = true
				resched(t)
			}()
			f()
		}(f)
	}
	active = true
	fin := make(chan bool, 1)
	go func() {
		<-main.wake
		fin <- true
	}()
	main.cond = func() bool { return left == 0 }
	// the same steps as a goroutine that waits for the others
	if left > 0 {
		pick(main)
		select {
		case <-fin:
		case <-dead:
			active = false
			return false
		}
	}
	active = false
	return true
}

// pick chooses the next thread and wakes it (unless it is t itself, which reports true).
func pick(t *thread) bool {
	var run []*thread
	for _, x := range threads {
		if !x.done && (x.cond == nil || x.cond()) {
			run = append(run, x)
		}
	}
	if len(run) == 0 {
		dead <- true
		select {}
	}
	k := 0
	if len(run) > 1 && len(dec) > 0 {
		k = dec[0]
		dec = dec[1:]
		if k >= len(run) {
			k = 0
		}
	}
	x := run[k]
	if x == t {
		return true
	}
	cur = x
	x.wake <- true
	return false
}

func resched(t *thread) {
	if pick(t) || t.done {
		return
	}
	<-t.wake
}

func alive() int {
	n := 0
	for _, x := range threads {
		if !x.done {
			n++
		}
	}
	return n
}

func switchPoint() {
	if active && alive() >= 2 {
		resched(cur)
	}
}

func block(cond func() bool) {
	if !active {
		if !cond() {
			panic("zzvsync: single goroutine blocks forever (deadlock)")
		}
		return
	}
	t := cur
	for !cond() {
		t.cond = cond
		resched(t)
	}
	t.cond = nil
}

type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	switchPoint()
	if m.w || m.readers > 0 {
		m.waiting++
		block(func() bool { return !m.w && m.readers == 0 })
		m.waiting--
	}
	m.w = true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	switchPoint()
	block(func() bool { return !m.w && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) TryLock() bool {
	switchPoint()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	switchPoint()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()   { m.rw.Lock() }
func (m *Mutex) Unlock() { m.rw.Unlock() }

func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type Once struct {
	done bool
	busy bool
}

func (o *Once) Do(f func()) {
	switchPoint()
	if o.done {
		block(func() bool { return !o.busy })
		return
	}
	o.done, o.busy = true, true
	f()
	o.busy = false
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(n int) { w.n += n }
func (w *WaitGroup) Done()     { w.n-- }
func (w *WaitGroup) Wait()     { block(func() bool { return w.n == 0 }) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}
