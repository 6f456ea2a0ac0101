//go:build go1.21

package hook

import (
	"fmt"
	"sync"
)

// Preempt is one scheduling decision: when the run reaches Step, the token
// goes to the To-th runnable task after the current one (cyclically).
//
// A Hot decision counts the hot points instead: the statements that touch a
// package-level variable which the repository changes while it runs.
type Preempt struct {
	Step uint64
	To   int
	Hot  bool `json:",omitempty"`
}

type task struct {
	id   int
	ch   chan struct{}
	done bool
}

var (
	preempts []Preempt
	hotPre   []Preempt
	tasks    []*task
	cur      *task
	switches []int // ids of the tasks that got the token, in order
	deadlock bool
)

// RunTasks runs the functions as tasks under the given schedule. Exactly one
// task runs at any time; who runs is decided by pre and, when a task ends or
// blocks, by task number.
func RunTasks(fns []func(), pre []Preempt) {
	preempts, hotPre, hot = nil, nil, 0
	for _, p := range pre {
		if p.Hot {
			hotPre = append(hotPre, p)
		} else {
			preempts = append(preempts, p)
		}
	}
	switches = nil
	deadlock = false
	setTrip()
	ts := make([]*task, len(fns))
	for i := range fns {
		ts[i] = &task{id: i, ch: make(chan struct{})}
	}
	tasks = ts
	var wg sync.WaitGroup
	wg.Add(len(fns))
	for i := range fns {
		go func(i int) {
			defer wg.Done()
			await(ts[i])
			defer finish(ts[i])
			fns[i]()
		}(i)
	}
	start(ts[0])
	wg.Wait()
	tasks, cur, preempts, hotPre = nil, nil, nil, nil
	setTrip()
}

//go:norace
func start(t *task) {
	cur = t
	switches = append(switches, t.id)
	raceOff()
	t.ch <- struct{}{}
	raceOn()
}

//go:norace
func await(t *task) {
	raceOff()
	<-t.ch
	raceOn()
}

//go:norace
func finish(t *task) {
	t.done = true
	if n := pick(t, 1); n != nil {
		start(n)
	}
}

// pick returns the k-th live task after t, nil if there is none.
//
//go:norace
func pick(t *task, k int) *task {
	var live []*task
	for i := 1; i < len(tasks); i++ {
		o := tasks[(t.id+i)%len(tasks)]
		if !o.done {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if k < 1 {
		k = 1
	}
	return live[(k-1)%len(live)]
}

//go:norace
func switchTo(k int) {
	t := cur
	if t == nil || len(tasks) == 0 {
		return
	}
	n := pick(t, k)
	if n == nil {
		return
	}
	start(n)
	await(t)
}

// Gosched lets the next task run.
//
//go:norace
func Gosched() { switchTo(1) }

// Switches returns the sequence of tasks that ran.
func Switches() []int { return append([]int(nil), switches...) }

// InTask tells whether the caller runs as a simulated task.
//
//go:norace
func InTask() bool { return cur != nil }

// ---- cooperative stand-ins for package sync ----

//go:norace
func wait(what string, ready func() bool) {
	for n := 0; !ready(); n++ {
		if cur == nil || Free || n > 1<<16 {
			panic(fmt.Sprintf("simulated deadlock on %s", what))
		}
		steps++
		switchTo(1)
	}
}

// Mutex stands in for sync.Mutex.
type Mutex struct {
	held bool
	real sync.Mutex
}

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	if Free {
		m.real.Lock()
		return
	}
	wait("Mutex", func() bool { return !m.held })
	m.held = true
	raceAcquire(m)
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	if Free {
		return m.real.TryLock()
	}
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(m)
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if Free {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(m)
	m.held = false
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	w    bool
	r    int
	real sync.RWMutex
}

// Lock locks rw for writing.
//
//go:norace
func (rw *RWMutex) Lock() {
	if Free {
		rw.real.Lock()
		return
	}
	wait("RWMutex", func() bool { return !rw.w && rw.r == 0 })
	rw.w = true
	raceAcquire(rw)
}

// Unlock unlocks rw for writing.
//
//go:norace
func (rw *RWMutex) Unlock() {
	if Free {
		rw.real.Unlock()
		return
	}
	raceRelease(rw)
	rw.w = false
}

// RLock locks rw for reading.
//
//go:norace
func (rw *RWMutex) RLock() {
	if Free {
		rw.real.RLock()
		return
	}
	wait("RWMutex", func() bool { return !rw.w })
	rw.r++
	raceAcquire(rw)
}

// RUnlock undoes RLock.
//
//go:norace
func (rw *RWMutex) RUnlock() {
	if Free {
		rw.real.RUnlock()
		return
	}
	raceReleaseMerge(rw)
	rw.r--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns the read side as a Locker.
func (rw *RWMutex) RLocker() sync.Locker { return (*rlocker)(rw) }

// Once stands in for sync.Once.
type Once struct {
	state int
	real  sync.Once
}

// Do calls f once.
//
//go:norace
func (o *Once) Do(f func()) {
	if Free {
		o.real.Do(f)
		return
	}
	if o.state == 0 {
		o.state = 1
		defer o.finish()
		f()
		return
	}
	wait("Once", func() bool { return o.state == 2 })
	raceAcquire(o)
}

//go:norace
func (o *Once) finish() {
	raceReleaseMerge(o)
	o.state = 2
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

// Add adds delta.
//
//go:norace
func (w *WaitGroup) Add(delta int) {
	if Free {
		w.real.Add(delta)
		return
	}
	if delta < 0 {
		raceReleaseMerge(w)
	}
	w.n += delta
}

// Done subtracts one.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	if Free {
		w.real.Wait()
		return
	}
	wait("WaitGroup", func() bool { return w.n <= 0 })
	raceAcquire(w)
}

// Pool stands in for sync.Pool: last in, first out, never dropping anything,
// so that reuse - the interesting case - always happens.
type Pool struct {
	New  func() interface{}
	list []interface{}
	mu   sync.Mutex
}

// Get takes an item.
//
//go:norace
func (p *Pool) Get() interface{} {
	raceAcquire(p)
	raceOff()
	p.mu.Lock()
	var x interface{}
	if n := len(p.list); n > 0 {
		x = p.list[n-1]
		p.list = p.list[:n-1]
	}
	p.mu.Unlock()
	raceOn()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

// Put returns an item.
//
//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	raceOff()
	p.mu.Lock()
	p.list = append(p.list, x)
	p.mu.Unlock()
	raceOn()
	raceReleaseMerge(p)
}
