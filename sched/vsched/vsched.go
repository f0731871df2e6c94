// Package vsched lets an explorer decide which goroutine of the code under
// test runs.  Goroutines stop at points; when all of them have stopped or are
// blocked, the explorer releases one.
package vsched

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"time"
)

type g struct {
	id       []int
	children int
	parked   chan struct{}
	blocked  func() bool // still has to wait (for a lock)
	site     string
}

// Decision is one choice of the explorer.
type Decision struct {
	N       int  // goroutines that could run
	Current bool // the one that ran last is among them (as choice 0)
	Chosen  int
	Site    string
	ID      string
}

// Outcome of an execution.
type Outcome struct {
	Trace    []Decision
	Crash    string
	Deadlock string
	Diverged bool
	Points   int
}

var (
	mu       sync.Mutex
	active   bool
	aborting bool
	byGoid   map[uint64]*g
	live     int
	crash    string
	current  *g
	points   int
)

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	x, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return x
}

func park(site string, blocked func() bool) {
	mu.Lock()
	if !active || aborting {
		mu.Unlock()
		return
	}
	me := byGoid[goid()]
	if me == nil { // started behind our back
		me = &g{id: []int{1 << 20, len(byGoid)}}
		byGoid[goid()] = me
	}
	ch := make(chan struct{})
	me.parked, me.blocked, me.site = ch, blocked, site
	points++
	mu.Unlock()
	<-ch
}

// Point is a place at which another goroutine may run first.
func Point(site string) { park(site, nil) }

// Go starts a goroutine of the code under test.
func Go(f func()) {
	mu.Lock()
	if !active {
		mu.Unlock()
		go f()
		return
	}
	me := &g{}
	if p := byGoid[goid()]; p != nil {
		me.id = append(append([]int{}, p.id...), p.children)
		p.children++
	}
	live++
	mu.Unlock()
	go func() {
		mu.Lock()
		byGoid[goid()] = me
		mu.Unlock()
		defer func() {
			r := recover()
			mu.Lock()
			if r != nil && crash == "" {
				crash = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
			live--
			delete(byGoid, goid())
			mu.Unlock()
		}()
		park("start", nil)
		f()
	}()
}

func less(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// Run executes root under the choices in prefix, and then without preemption.
// wait must return when every other goroutine is blocked.
func Run(wait func(), prefix []int, root func()) (o Outcome) {
	mu.Lock()
	active, aborting, byGoid, live, crash, current, points = true, false, map[uint64]*g{}, 0, "", nil, 0
	mu.Unlock()
	Go(root)
	slept := 0
	for {
		wait()
		mu.Lock()
		if live == 0 {
			break
		}
		var en []*g
		stuck := ""
		for _, x := range byGoid {
			if x.parked == nil {
				continue
			}
			if x.blocked != nil && x.blocked() {
				stuck += " " + x.site
				continue
			}
			en = append(en, x)
		}
		if len(en) == 0 {
			if slept < 3 { // let timers run
				slept++
				mu.Unlock()
				time.Sleep(time.Hour)
				continue
			}
			o.Deadlock = fmt.Sprintf("%d goroutines are blocked for good%s", live, stuck)
			break
		}
		slept = 0
		sort.Slice(en, func(i, j int) bool {
			if (en[i] == current) != (en[j] == current) {
				return en[i] == current
			}
			return less(en[i].id, en[j].id)
		})
		c := 0
		if k := len(o.Trace); k < len(prefix) {
			c = prefix[k]
			if c >= len(en) {
				o.Diverged = true
				c = 0
			}
		}
		x := en[c]
		o.Trace = append(o.Trace, Decision{len(en), en[0] == current, c, x.site, fmt.Sprint(x.id)})
		current = x
		ch := x.parked
		x.parked, x.blocked = nil, nil
		close(ch)
		mu.Unlock()
		if len(o.Trace) > 100000 {
			mu.Lock()
			o.Deadlock = "the execution does not end"
			break
		}
	}
	aborting = true
	for _, x := range byGoid {
		if x.parked != nil {
			close(x.parked)
			x.parked = nil
		}
	}
	mu.Unlock()
	wait()
	mu.Lock()
	active = false
	o.Crash = crash
	o.Points = points
	mu.Unlock()
	return
}

// Mutex is a sync.Mutex whose waiting the explorer knows about.
type Mutex struct {
	native sync.Mutex
	held   bool
}

func on() bool {
	mu.Lock()
	defer mu.Unlock()
	return active && !aborting
}

func (m *Mutex) Lock() {
	if !on() {
		m.native.Lock()
		return
	}
	for {
		park("lock", func() bool { return m.held })
		mu.Lock()
		if !m.held || aborting {
			m.held = true
			mu.Unlock()
			return
		}
		mu.Unlock()
	}
}

func (m *Mutex) TryLock() bool {
	if !on() {
		return m.native.TryLock()
	}
	Point("trylock")
	mu.Lock()
	defer mu.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	mu.Lock()
	if !active {
		mu.Unlock()
		m.native.Unlock()
		return
	}
	if !m.held && !aborting {
		mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	mu.Unlock()
	Point("unlocked")
}

// RWMutex is a sync.RWMutex whose waiting the explorer knows about.
type RWMutex struct {
	native  sync.RWMutex
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	if !on() {
		m.native.Lock()
		return
	}
	for {
		park("lock", func() bool { return m.writer || m.readers > 0 })
		mu.Lock()
		if !m.writer && m.readers == 0 || aborting {
			m.writer = true
			mu.Unlock()
			return
		}
		mu.Unlock()
	}
}

func (m *RWMutex) Unlock() {
	mu.Lock()
	if !active {
		mu.Unlock()
		m.native.Unlock()
		return
	}
	m.writer = false
	mu.Unlock()
	Point("unlocked")
}

func (m *RWMutex) RLock() {
	if !on() {
		m.native.RLock()
		return
	}
	for {
		park("rlock", func() bool { return m.writer })
		mu.Lock()
		if !m.writer || aborting {
			m.readers++
			mu.Unlock()
			return
		}
		mu.Unlock()
	}
}

func (m *RWMutex) RUnlock() {
	mu.Lock()
	if !active {
		mu.Unlock()
		m.native.RUnlock()
		return
	}
	m.readers--
	mu.Unlock()
	Point("unlocked")
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a sync.Once whose waiting the explorer knows about.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
