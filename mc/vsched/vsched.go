// Package vsched runs goroutines one at a time and switches between them where a plan says.
// It is laid over the repository, whose functions call P and F at their statements and entries.
package vsched

import (
	"runtime"
	"sync"
)

type thread struct {
	resume  chan struct{}
	done    bool
	waiting func() bool // nil: can run
}

// Switch lets another thread run at a step.
type Switch struct{ Step, Thread int }

// Point is a place where a switch was possible.
type Point struct {
	Enabled uint8 // threads that could run
	Thread  int8  // thread that ran on (or the default if Forced)
	Forced  bool  // the running thread could not go on
}

var (
	active  bool
	coarse  bool
	cur     int
	threads []*thread
	points  []Point
	plan    []Switch
	planAt  int
	dead    string
	over    chan struct{}
)

var resets, inits []func()

// OnReset registers the initialisation of package variables.
func OnReset(f func()) { resets = append(resets, f) }

// OnResetInit registers an init function.
func OnResetInit(f func()) { inits = append(inits, f) }

// Reset brings the packages to their initial state.
func Reset() {
	for i := 0; i < 2; i++ { // twice, as initialisers may use one another
		for _, f := range resets {
			f()
		}
	}
	for _, f := range inits {
		f()
	}
}

// P is a statement.
func P() {
	if active && !coarse {
		point()
	}
}

// F is the entry of a function.
func F() {
	if active && coarse {
		point()
	}
}

func enabled() (m uint8) {
	for i, t := range threads {
		if !t.done && (t.waiting == nil || t.waiting()) {
			m |= 1 << i
		}
	}
	return
}

func point() {
	i := len(points)
	points = append(points, Point{Enabled: enabled(), Thread: int8(cur)})
	if planAt < len(plan) && plan[planAt].Step == i {
		to := plan[planAt].Thread
		planAt++
		if to != cur {
			me := threads[cur]
			cur = to
			threads[to].resume <- struct{}{}
			<-me.resume
		}
	}
}

// leave gives control away for good or until the thread can run again.
func leave(me *thread) {
	m := enabled()
	if m == 0 {
		if !me.done {
			dead = "deadlock"
		}
		for _, t := range threads {
			if !t.done {
				dead = "deadlock"
			}
		}
		close(over)
		if !me.done {
			runtime.Goexit()
		}
		return
	}
	to := 0
	for m&(1<<to) == 0 {
		to++
	}
	i := len(points)
	points = append(points, Point{Enabled: m, Thread: int8(to), Forced: true})
	if planAt < len(plan) && plan[planAt].Step == i {
		to = plan[planAt].Thread
		planAt++
	}
	cur = to
	if threads[to] == me {
		return
	}
	threads[to].resume <- struct{}{}
	if !me.done {
		<-me.resume
	}
}

func block(can func() bool) {
	me := threads[cur]
	me.waiting = can
	leave(me)
	me.waiting = nil
}

// Run runs the functions under a plan. It returns the places of possible switches, and how it got stuck.
func Run(fs []func(), first int, p []Switch, coarsely bool) ([]Point, string) {
	threads, points, plan, planAt, dead, cur, coarse = nil, make([]Point, 0, 256), p, 0, "", first, coarsely
	over = make(chan struct{})
	for range fs {
		threads = append(threads, &thread{resume: make(chan struct{})})
	}
	for i, f := range fs {
		t := threads[i]
		go func() {
			<-t.resume
			f()
			t.done = true
			leave(t)
		}()
	}
	active = true
	threads[first].resume <- struct{}{}
	<-over
	active = false
	return points, dead
}

// Mutex stands for sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

func (m *Mutex) Lock() {
	if !active {
		m.real.Lock()
		return
	}
	point()
	for m.locked {
		block(func() bool { return !m.locked })
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if !active {
		return m.real.TryLock()
	}
	point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !active {
		m.real.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	point()
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	if !active {
		m.real.Lock()
		return
	}
	point()
	for m.writer || m.readers > 0 {
		block(func() bool { return !m.writer && m.readers == 0 })
	}
	m.writer = true
}

func (m *RWMutex) Unlock() {
	if !active {
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	point()
}

func (m *RWMutex) RLock() {
	if !active {
		m.real.RLock()
		return
	}
	point()
	for m.writer {
		block(func() bool { return !m.writer })
	}
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if !active {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	point()
}

func (m *RWMutex) TryLock() bool {
	if !active {
		return m.real.TryLock()
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	if !active {
		return m.real.TryRLock()
	}
	if m.writer {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	real sync.Once
	done bool
}

func (o *Once) Do(f func()) {
	if !active {
		o.real.Do(func() {
			if !o.done {
				defer func() { o.done = true }()
				f()
			}
		})
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc stands for sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue stands for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues stands for sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool stands for sync.Pool: what was put last is got first.
type Pool struct {
	New  func() any
	real sync.Pool
	list []any
}

func (p *Pool) Get() any {
	if !active {
		if x := p.real.Get(); x != nil {
			return x
		}
	} else {
		point()
		if n := len(p.list); n > 0 {
			x := p.list[n-1]
			p.list = p.list[:n-1]
			return x
		}
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if !active {
		p.real.Put(x)
		return
	}
	p.list = append(p.list, x)
	point()
}
