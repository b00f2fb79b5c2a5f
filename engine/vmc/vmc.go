//go:build go1.22

// Package vmc is a stateless, deviation-bounded model checker for the real veri code.
//
// The code under test is instrumented at build time (tools/instrument) so that every statement is a
// scheduling point, mutexes/sync.Map/sync.Pool are deterministic doubles, and every select, map range
// and random draw asks the engine.  The engine runs inside a testing/synctest bubble, so clocks, sleeps,
// timers, channels and wait groups are the real ones on virtual time; exactly one instrumented goroutine
// runs between two scheduling points.
//
// With no engine active every hook is inert (a nil check), so the same build also serves the checks that
// enumerate sequential histories.
package vmc

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

type thread struct {
	idx    int
	name   string
	ch     chan struct{}
	site   int
	parked bool
	kids   int
	done   bool
	root   bool
	low    int // >0: put off, runs only when no other thread can (larger: put off later)
}

// Dec is one recorded decision of an execution.
type Dec struct {
	Kind   string // "sched", "select", "map", "rand", "env"
	N      int    // number of alternatives
	Chosen int
	Cost   int // deviation cost of choosing anything but 0
	Label  string
}

// Engine drives one execution.
type Engine struct {
	mu      sync.Mutex
	byGoid  map[uint64]*thread
	threads []*thread
	running *thread
	wake    chan struct{}
	waiting bool

	prefix     []int
	Decs       []Dec
	prefixStep int
	steps      int
	MaxSteps   int
	stop       bool
	Err        error // engine level failure (divergence, horizon)
	Dead       bool  // deadlock: no enabled thread and time cannot help
	Horizon    time.Duration
	Trace      []string
	Verbose    bool

	// OnStep, when set, is called by the controller before every scheduling decision.
	OnStep func(step int)
	// CrashAt, when >0, abandons the execution before the given step (crash injection).
	CrashAt int
	Crashed bool
	// Delay makes every deviation from the default schedule cost one (delay bounding), also where the running
	// thread blocked or ended; otherwise only preemptions cost (preemption bounding).
	Delay bool
	// Starve makes a deviation put the passed-over thread off until every other thread has blocked or ended
	// (a long pause); otherwise it is next again as soon as the chosen thread blocks (a short pause).
	Starve bool
	// Pause, when >0, lets the whole process stand still for that long before any step (one deviation).
	Pause   time.Duration
	nlow    int
	nroots  int
	rootsUp int
}

var cur atomic.Pointer[Engine]

// Active returns the running engine, or nil.
func Active() *Engine { return cur.Load() }

func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := b[10:n] // "goroutine "
	var id uint64
	for _, c := range s {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func (e *Engine) self() *thread {
	g := goid()
	t := e.byGoid[g]
	if t == nil {
		name := "env"
		if e.running != nil {
			e.running.kids++
			name = e.running.name + "." + strconv.Itoa(e.running.kids)
		}
		t = &thread{idx: len(e.threads), name: name, ch: make(chan struct{})}
		e.byGoid[g] = t
		e.threads = append(e.threads, t)
	}
	return t
}

// P is a scheduling point.
func P(site int) {
	e := cur.Load()
	if e == nil {
		return
	}
	e.point(site)
}

// PB is a scheduling point inside a condition.
func PB(site int) bool {
	P(site)
	return true
}

func (e *Engine) point(site int) {
	e.mu.Lock()
	if e.stop {
		e.mu.Unlock()
		return
	}
	t := e.self()
	t.site = site
	t.parked = true
	if e.waiting {
		e.waiting = false
		close(e.wake)
	}
	ch := t.ch
	e.mu.Unlock()
	<-ch
}

// Spawn registers a root thread of the harness; it starts parked.
func (e *Engine) Spawn(name string, fn func()) {
	e.mu.Lock()
	e.nroots++
	e.mu.Unlock()
	go func() {
		e.mu.Lock()
		t := &thread{idx: len(e.threads), name: name, ch: make(chan struct{}), root: true}
		e.byGoid[goid()] = t
		e.threads = append(e.threads, t)
		e.mu.Unlock()
		e.point(-1)
		fn()
		e.mu.Lock()
		t.done = true
		e.rootsUp++
		if e.waiting {
			e.waiting = false
			close(e.wake)
		}
		e.mu.Unlock()
	}()
	synctest.Wait()
}

// New makes an engine that replays prefix and then takes choice 0 everywhere.
func New(prefix []int) *Engine {
	return &Engine{byGoid: map[uint64]*thread{}, prefix: prefix, MaxSteps: 20000, Horizon: time.Hour}
}

// decide records a decision with n alternatives.
func (e *Engine) decide(kind string, n, cost int, label string) int {
	i := len(e.Decs)
	c := 0
	if i < len(e.prefix) {
		c = e.prefix[i]
		e.prefixStep = e.steps
		if c >= n {
			e.Err = fmt.Errorf("replay divergence at decision %d (%s): choice %d of %d", i, kind, c, n)
			c = 0
		}
	}
	e.Decs = append(e.Decs, Dec{kind, n, c, cost, label})
	return c
}

// Choose asks the explorer for one of n alternatives (0 is the default environment answer).
// Safe to call from instrumented code or harness bodies.
func Choose(kind string, n int) int {
	e := cur.Load()
	if e == nil || n <= 1 {
		return 0
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.stop {
		return 0
	}
	return e.decide(kind, n, 1, "")
}

// Choose0 is Choose whose alternatives are free (they do not use the deviation budget).
func Choose0(kind string, n int) int {
	e := cur.Load()
	if e == nil || n <= 1 {
		return 0
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.stop {
		return 0
	}
	return e.decide(kind, n, 0, "")
}

// Activate makes e the engine the hooks talk to.
func (e *Engine) Activate() { cur.Store(e) }

// Loop schedules until every root thread has returned and nothing else can run without waiting (or horizon / deadlock / crash).
// It must be called by the bubble's main goroutine.
func (e *Engine) Loop() {
	start := time.Now()
	for {
		synctest.Wait()
		e.mu.Lock()
		if e.Err != nil {
			e.mu.Unlock()
			break
		}
		var en []*thread
		if e.running != nil && e.running.parked {
			en = append(en, e.running)
		}
		for _, t := range e.threads {
			if t.parked && t != e.running {
				en = append(en, t)
			}
		}
		if e.nlow > 0 {
			sort.SliceStable(en, func(i, j int) bool { return en[i].low < en[j].low })
		}
		if e.rootsUp == e.nroots && len(en) == 0 { // what the roots started goes on until it waits for time
			e.mu.Unlock()
			break
		}
		if len(en) == 0 {
			if time.Since(start) > e.Horizon {
				e.Dead = true
				e.mu.Unlock()
				break
			}
			e.waiting = true
			e.wake = make(chan struct{})
			w := e.wake
			e.running = nil
			e.mu.Unlock()
			tm := time.NewTimer(e.Horizon + time.Second)
			select {
			case <-w:
				tm.Stop()
			case <-tm.C:
			}
			continue
		}
		e.steps++
		if e.CrashAt > 0 && e.steps >= e.CrashAt {
			e.Crashed = true
			e.mu.Unlock()
			break
		}
		if e.steps > e.MaxSteps {
			e.Err = fmt.Errorf("step limit %d exceeded (livelock?)", e.MaxSteps)
			e.mu.Unlock()
			break
		}
		if e.Pause > 0 && e.decide("pause", 2, 1, "") == 1 {
			e.mu.Unlock()
			time.Sleep(e.Pause)
			continue
		}
		c := 0
		if len(en) > 1 {
			cost := 0
			if e.Delay || e.running != nil && e.running.parked {
				cost = 1
			}
			c = e.decide("sched", len(en), cost, "")
			if e.Starve && c > 0 {
				for _, t := range en[:c] { // all that came before the chosen one
					if t.low == 0 {
						e.nlow++
					}
				}
				k := e.steps
				for _, t := range en[:c] {
					t.low = k
				}
				en[c].low = 0
			}
		}
		t := en[c]
		if e.Verbose {
			e.Trace = append(e.Trace, fmt.Sprintf("%s@%d", t.name, t.site))
		}
		e.running = t
		t.parked = false
		f := e.OnStep
		e.mu.Unlock()
		if f != nil {
			f(e.steps)
		}
		t.ch <- struct{}{}
	}
}

// Release deactivates the engine and lets every parked goroutine run freely (end of an execution).
func (e *Engine) Release() {
	e.mu.Lock()
	e.stop = true
	cur.Store(nil)
	var l []*thread
	for _, t := range e.threads {
		if t.parked {
			t.parked = false
			l = append(l, t)
		}
	}
	e.mu.Unlock()
	for _, t := range l {
		t.ch <- struct{}{}
	}
}

// Reset makes sure no engine is active.
func Reset() { cur.Store(nil) }

// Prefix is the decision prefix this execution replays.
func (e *Engine) Prefix() []int { return e.prefix }

// PrefixStep is the step at which the last decision of the prefix was taken.
func (e *Engine) PrefixStep() int { return e.prefixStep }

// Choices are all decisions taken.
func (e *Engine) Choices() []int {
	l := make([]int, len(e.Decs))
	for i, d := range e.Decs {
		l[i] = d.Chosen
	}
	return l
}

// Steps is the number of scheduling steps taken.
func (e *Engine) Steps() int { return e.steps }

// Blocked lists root threads which have not returned.
func (e *Engine) Blocked() []string {
	var out []string
	for _, t := range e.threads {
		if t.root && !t.done {
			out = append(out, fmt.Sprintf("%s@%d", t.name, t.site))
		}
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- exploration

// Explorer enumerates every execution with total deviation cost <= Bound.
type Explorer struct {
	Bound    int
	Shard    int
	NShards  int
	Execs    int
	Decision int
	MaxExecs int
	Deadline time.Time
	Delay    bool
	Starve   bool
	Capped   bool
	Steps    int64
	// Body runs one execution (build the system, Loop, check) and returns false to stop exploring.
	Body func(e *Engine) bool
	rr   int
}

// Explore runs the depth-first enumeration.
func (x *Explorer) Explore() bool {
	return x.rec(nil, 0, true)
}

func (x *Explorer) rec(prefix []int, used int, root bool) bool {
	if x.MaxExecs > 0 && x.Execs >= x.MaxExecs || !x.Deadline.IsZero() && realNow().After(x.Deadline) {
		x.Capped = true
		return true
	}
	e := New(prefix)
	e.Delay, e.Starve = x.Delay, x.Starve
	if !(root && x.NShards > 1 && x.Shard != 0) {
		x.Execs++
	}
	if !x.Body(e) {
		return false
	}
	x.Steps += int64(e.steps)
	decs := e.Decs
	chosen := make([]int, len(decs))
	for i, d := range decs {
		chosen[i] = d.Chosen
	}
	for i := 0; i < len(decs); i++ {
		d := decs[i]
		if i >= len(prefix) {
			x.Decision++
			if used+d.Cost <= x.Bound {
				for alt := 1; alt < d.N; alt++ {
					if root && x.NShards > 1 {
						x.rr++
						if x.rr%x.NShards != x.Shard {
							continue
						}
					}
					np := make([]int, i+1)
					copy(np, chosen[:i])
					np[i] = alt
					if !x.rec(np, used+d.Cost, false) {
						return false
					}
				}
			}
		}
	}
	return true
}

func realNow() time.Time { return time.Now() }

// Debugf prints to stderr when VMC_DEBUG is set.
func Debugf(f string, a ...interface{}) {
	if os.Getenv("VMC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
