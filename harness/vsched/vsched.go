// Package vsched runs goroutines under a controlled scheduler: at any moment one controlled thread runs, and
// it can lose the processor only at the points where it calls Yield or Block (the shims of sync and
// sync/atomic do, before every operation).  The caller must be inside a testing/synctest bubble: virtual
// time passes only through Sleep, and a thread blocked on anything else (a channel, a timer) is noticed
// through synctest.Wait.
package vsched

import (
	"fmt"
	"sync"
	"testing/synctest"
	"time"
)

func getg() uintptr

type status int

const (
	running status = iota // or blocked outside the scheduler's knowledge
	parked
	done
)

type thread struct {
	id       int
	g        uintptr
	st       status
	boundary bool        // parked between two operations
	enabled  func() bool // nil: enabled
	wake     chan struct{}
	daemon   bool
	sleep    time.Duration // > 0: advancing the clock
	steps    int
}

// Policy chooses the next thread among opts (never empty).  cur is the thread that ran last, or -1; free
// says that leaving cur costs nothing (it is between operations, not enabled or gone).
type Policy interface {
	Choose(opts []int, cur int, free bool) int
}

var (
	mu         sync.Mutex
	threads    []*thread
	byG        = map[uintptr]*thread{}
	cur        *thread
	pol        Policy
	active     bool
	nsteps     int
	maxStep    int
	spin       int
	aborted    bool
	OnProgress = func() {} // for a watchdog
)

// DaemonBase is the id of the first thread started by the code under test itself.
const DaemonBase = 100

var ndaemon int

func self() *thread {
	return byG[getg()]
}

// Yield is a scheduling point.
func Yield() { Block(nil) }

// Controlled reports whether the calling goroutine is a controlled thread.
func Controlled() bool {
	mu.Lock()
	defer mu.Unlock()
	return self() != nil
}

// ID returns the id of the calling thread, or -1.
func ID() int {
	mu.Lock()
	defer mu.Unlock()
	if t := self(); t != nil {
		return t.id
	}
	return -1
}

// Block is a scheduling point that the thread passes only while enabled() holds.
func Block(enabled func() bool) { block(enabled, false) }

// Boundary is a scheduling point between two operations.
func Boundary() { block(nil, true) }

func block(enabled func() bool, boundary bool) {
	mu.Lock()
	t := self()
	if t == nil && (active || enabled != nil && !enabled()) {
		// a goroutine that nothing instrumented started (a timer's, say): from now on it is controlled
		t = &thread{id: DaemonBase + ndaemon, wake: make(chan struct{}, 1), daemon: true, st: running, g: getg()}
		ndaemon++
		threads = append(threads, t)
		byG[t.g] = t
	}
	if !active {
		ok := enabled == nil || enabled()
		if !ok {
			// outside a run a daemon that would block waits for the next run
			t.st, t.boundary, t.enabled = parked, boundary, enabled
			mu.Unlock()
			<-t.wake
			return
		}
		mu.Unlock()
		return
	}
	OnProgress()
	t.st, t.boundary, t.enabled = parked, boundary, enabled
	if cur != t { // woke up from a block the scheduler did not control
		mu.Unlock()
		<-t.wake
		return
	}
	t.steps++
	n := pick()
	if n == t {
		t.st = running
		mu.Unlock()
		return
	}
	handoff(n)
	mu.Unlock()
	<-t.wake
}

// handoff makes n (possibly nil: the main goroutine takes over) the running thread.
func handoff(n *thread) {
	cur = n
	if n != nil {
		n.st = running
		n.wake <- struct{}{}
	}
}

// pick asks the policy for the next thread, nil if none is enabled.
func pick() *thread {
	nsteps++
	if aborted || nsteps > maxStep {
		aborted = true
		return nil
	}
	var opts []int
	var ts []*thread
	for _, t := range threads {
		if t.st == parked && (t.enabled == nil || t.enabled()) {
			opts = append(opts, t.id)
			ts = append(ts, t)
		}
	}
	if len(opts) == 0 {
		return nil
	}
	if len(opts) == 1 {
		if ts[0] != cur {
			spin = 0
		}
		return ts[0]
	}
	c, free, have := -1, true, false
	if cur != nil {
		c = cur.id
		free = cur.boundary
		for _, o := range opts {
			if o == c {
				have = true
			}
		}
		if !have {
			free = true
		}
	}
	if have {
		spin++
		if spin > 400 { // fairness: a spinning thread must let the others proceed
			for i, o := range opts {
				if o == c {
					spin = 0
					return ts[(i+1)%len(ts)]
				}
			}
		}
	}
	x := pol.Choose(opts, c, free)
	for i, o := range opts {
		if o == x {
			if o != c {
				spin = 0
			}
			return ts[i]
		}
	}
	panic(fmt.Sprint("vsched: policy chose ", x, " of ", opts))
}

// Go starts a controlled thread on behalf of the code under test.
func Go(f func()) {
	mu.Lock()
	t := &thread{id: DaemonBase + ndaemon, wake: make(chan struct{}, 1), daemon: true, st: running}
	ndaemon++
	threads = append(threads, t)
	a := active
	if a {
		t.st = parked
	}
	mu.Unlock()
	go func() {
		mu.Lock()
		t.g = getg()
		byG[t.g] = t
		mu.Unlock()
		if a {
			<-t.wake
		}
		defer exit(t)
		f()
	}()
	if !a {
		synctest.Wait()
	}
}

func exit(t *thread) {
	mu.Lock()
	defer mu.Unlock()
	t.st = done
	delete(byG, t.g)
	if active && cur == t {
		handoff(pick())
	}
}

// Sleep lets virtual time pass; nothing else runs meanwhile except what time itself wakes up.
func Sleep(d time.Duration) {
	mu.Lock()
	t := self()
	if t == nil || !active {
		mu.Unlock()
		time.Sleep(d)
		return
	}
	t.sleep = d
	mu.Unlock()
	<-t.wake
}

// Outcome of a run.
type Outcome int

const (
	Done Outcome = iota
	Deadlock
	Livelock
)

// Run executes the bodies as threads 0..n-1 under p until all have finished and every daemon is blocked on
// something of its own.  Stuck lists the threads that never finished.
func Run(p Policy, steps int, bodies ...func()) (Outcome, []int) {
	mu.Lock()
	pol, maxStep, nsteps, spin, aborted, cur = p, steps, 0, 0, false, nil
	var live []*thread
	for _, t := range threads {
		if t.st != done {
			live = append(live, t)
		}
	}
	threads = live
	for i, b := range bodies {
		t := &thread{id: i, wake: make(chan struct{}, 1), st: parked, boundary: true}
		threads = append(threads, t)
		go func() {
			mu.Lock()
			t.g = getg()
			byG[t.g] = t
			mu.Unlock()
			<-t.wake
			defer exit(t)
			b()
		}()
	}
	active = true
	mu.Unlock()
	waited := time.Duration(0)
	for {
		synctest.Wait() // nothing is running
		mu.Lock()
		OnProgress()
		if t := cur; t != nil && t.st == running && t.sleep > 0 {
			mu.Unlock()
			time.Sleep(t.sleep)
			synctest.Wait()
			mu.Lock()
			t.sleep = 0
			t.wake <- struct{}{}
			mu.Unlock()
			continue
		}
		if cur != nil && cur.st == running { // blocked on something we do not control
			cur = nil
		}
		n := pick()
		if n != nil {
			waited = 0
			handoff(n)
			mu.Unlock()
			continue
		}
		var stuck []int
		ext := false
		for _, t := range threads {
			if t.st != done && !t.daemon {
				stuck = append(stuck, t.id)
				if t.st == running {
					ext = true
				}
			}
			if t.daemon && t.st == parked {
				stuck = append(stuck, t.id)
			}
		}
		if len(stuck) == 0 {
			active = false
			mu.Unlock()
			return Done, nil
		}
		if aborted {
			active = false
			mu.Unlock()
			return Livelock, stuck
		}
		if ext && waited < 20*time.Second { // perhaps a timer will wake it up
			mu.Unlock()
			time.Sleep(100 * time.Millisecond)
			waited += 100 * time.Millisecond
			continue
		}
		active = false
		mu.Unlock()
		return Deadlock, stuck
	}
}

// Forget drops threads that can never finish (after a deadlock was reported).
func Forget() {
	mu.Lock()
	defer mu.Unlock()
	for g, t := range byG {
		if !t.daemon {
			delete(byG, g)
		}
	}
	var live []*thread
	for _, t := range threads {
		if t.daemon {
			live = append(live, t)
		}
	}
	threads = live
}

// Set is a plain assignment split in two: the value was computed before the scheduling point.
func Set[T any](p *T) func(T) {
	return func(v T) {
		Yield()
		*p = v
	}
}
