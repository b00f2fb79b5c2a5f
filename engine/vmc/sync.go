//go:build go1.22

package vmc

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// Mutex and RWMutex are doubles of the sync types whose waits are durably blocking (channel waits), so a
// goroutine may be descheduled while it holds one.
type RWMutex struct {
	mu      sync.Mutex
	w       bool
	r       int
	wwait   int
	waiters []chan struct{}
}

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

func (m *RWMutex) wait() {
	ch := make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch
}

func (m *RWMutex) wakeAll() {
	l := m.waiters
	m.waiters = nil
	for _, ch := range l {
		close(ch)
	}
}

func (m *RWMutex) Lock() {
	P(-2)
	first := true
	for {
		m.mu.Lock()
		if !m.w && m.r == 0 {
			m.w = true
			if !first {
				m.wwait--
			}
			m.mu.Unlock()
			return
		}
		if first {
			m.wwait++
			first = false
		}
		m.wait()
		P(-2)
	}
}

func (m *RWMutex) TryLock() bool {
	P(-2)
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.w && m.r == 0 {
		m.w = true
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.w {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wakeAll()
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	P(-2)
	for {
		m.mu.Lock()
		if !m.w && m.wwait == 0 {
			m.r++
			m.mu.Unlock()
			return
		}
		m.wait()
		P(-2)
	}
}

func (m *RWMutex) TryRLock() bool {
	P(-2)
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.w && m.wwait == 0 {
		m.r++
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.r <= 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.wakeAll()
	m.mu.Unlock()
}

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once is a double of sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Map is a double of sync.Map with a deterministic iteration order.
type Map struct {
	mu   sync.Mutex
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.set(k, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.del(k)
	return o, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	if c, ok := m.m[k]; ok && c == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	P(-3)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.keys = nil, nil
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	P(-3)
	m.mu.Lock()
	keys := append([]interface{}(nil), m.keys...)
	m.mu.Unlock()
	for i, k := range keys {
		if i > 0 {
			P(-3)
		}
		m.mu.Lock()
		v, ok := m.m[k]
		m.mu.Unlock()
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool is a double of sync.Pool: LIFO; a Get may also miss (explorer's choice).
type Pool struct {
	New   func() interface{}
	mu    sync.Mutex
	items []interface{}
}

func (p *Pool) Put(x interface{}) {
	P(-4)
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

func (p *Pool) Get() interface{} {
	P(-4)
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// ---------------------------------------------------------------- channels

type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
	timer    unsafe.Pointer
	elemtype unsafe.Pointer
	sendx    uint
	recvx    uint
	recvq    struct{ first, last unsafe.Pointer }
	sendq    struct{ first, last unsafe.Pointer }
}

func init() {
	a := make(chan int, 2)
	a <- 1
	h := *(**hchan)(unsafe.Pointer(&a))
	if h.qcount != 1 || h.dataqsiz != 2 || h.closed != 0 {
		panic("vmc: unexpected channel layout")
	}
	close(a)
	if h.closed == 0 || h.timer != nil {
		panic("vmc: unexpected channel layout")
	}
}

// RR reports whether a receive on c could proceed now.
func RR[T any](c <-chan T) bool {
	if c == nil {
		return false
	}
	h := *(**hchan)(unsafe.Pointer(&c))
	if h.timer != nil {
		return false
	}
	return h.qcount > 0 || h.closed != 0 || h.sendq.first != nil
}

// SR reports whether a send on c could proceed now.
func SR[T any](c chan<- T) bool {
	if c == nil {
		return false
	}
	h := *(**hchan)(unsafe.Pointer(&c))
	return h.closed != 0 || h.qcount < h.dataqsiz || h.recvq.first != nil
}

// Sel picks the select case to take: -1 leaves the select untouched, otherwise only that case stays live.
func Sel(ready ...bool) int {
	var idx []int
	for i, r := range ready {
		if r {
			idx = append(idx, i)
		}
	}
	if len(idx) < 2 {
		return -1
	}
	if Active() == nil {
		return -1
	}
	return idx[Choose("select", len(idx))]
}

// GR and GS gate a select case.
func GR[T any](s, i int, c <-chan T) <-chan T {
	if s >= 0 && s != i {
		return nil
	}
	return c
}
func GS[T any](s, i int, c chan<- T) chan<- T {
	if s >= 0 && s != i {
		return nil
	}
	return c
}

// After is time.After on an ordinary buffered channel.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	time.AfterFunc(d, func() { ch <- time.Now() })
	return ch
}

// ---------------------------------------------------------------- maps and randomness

// Iter iterates a map in an order chosen by the explorer (default: sorted).
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

func NewIter[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	type kk struct {
		k K
		s string
	}
	l := make([]kk, 0, len(m))
	for k := range m {
		l = append(l, kk{k, fmt.Sprint(k)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	for _, e := range l {
		it.keys = append(it.keys, e.k)
	}
	if n := len(it.keys); n > 1 && Active() != nil {
		switch {
		case n == 2:
			if Choose("map", 2) == 1 {
				it.keys[0], it.keys[1] = it.keys[1], it.keys[0]
			}
		default: // rotations and the reversal
			c := Choose("map", n+1)
			if c == n {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			} else if c > 0 {
				it.keys = append(append([]K(nil), it.keys[c:]...), it.keys[:c]...)
			}
		}
	}
	return it
}

func (it *Iter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}
func (it *Iter[K, V]) K() K      { return it.k }
func (it *Iter[K, V]) V() V      { return it.v }
func (it *Iter[K, V]) ZK() (z K) { return }
func (it *Iter[K, V]) ZV() (z V) { return }

// RandHook overrides random draws when no engine is active.
var RandHook func() float64

// Float64 replaces math/rand.Float64: 0 by default (always "take"), ~1 as the alternative.
func Float64() float64 {
	if Active() != nil {
		if Choose("rand", 2) == 1 {
			return 0.999999
		}
		return 0
	}
	if RandHook != nil {
		return RandHook()
	}
	return rand.Float64()
}
