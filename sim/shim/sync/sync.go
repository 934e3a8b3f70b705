//go:build go1.22

// Package sync is the simulated sync: same semantics, scheduled by zsim.
package sync

import (
	"fmt"

	"github.com/hound-search/hound/zsim"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex allows barging, as Go's does, with a hand-over after two lost races.
type Mutex struct {
	locked bool
	starve bool
	handed *zsim.Task
	q      zsim.WaitQ
}

func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Lock() {
	if zsim.W == nil || zsim.Dead() {
		m.locked = true
		return
	}
	zsim.Contend()
	lost := 0
	for m.locked {
		if lost >= 2 {
			m.starve = true
		}
		m.q.Wait("mutex")
		if m.handed == zsim.Cur() {
			m.handed = nil
			return
		}
		lost++
	}
	m.locked = true
}

func (m *Mutex) Unlock() {
	if zsim.W == nil || zsim.Dead() {
		m.locked = false
		return
	}
	if !m.locked {
		zsim.Fatal("sync: unlock of unlocked mutex")
	}
	if m.starve {
		m.starve = false
		if t := m.q.Take(); t != nil {
			m.handed = t // stays locked for the one woken
			zsim.Ready(t)
			return
		}
	}
	m.locked = false
	m.q.WakeOne()
	zsim.Contend()
}

// RWMutex has Go's preference rules: a waiting writer keeps new readers out, and
// readers that waited for a writer go before the next writer.
type RWMutex struct {
	readers int
	writer  bool
	pending bool // a writer has announced itself
	rq      zsim.WaitQ
	wq      zsim.WaitQ // writers waiting for other writers
	dq      zsim.WaitQ // the pending writer, waiting for readers to drain
	gen     int
}

func (m *RWMutex) RLock() {
	if zsim.W == nil || zsim.Dead() {
		return
	}
	zsim.Contend()
	if m.writer || m.pending {
		g := m.gen
		for m.gen == g {
			m.rq.Wait("rlock")
		}
		return // the releasing writer counted us
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if m.writer || m.pending {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if zsim.W == nil || zsim.Dead() {
		return
	}
	if m.readers <= 0 {
		zsim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && m.pending {
		m.dq.WakeAll()
	}
	zsim.Contend()
}

func (m *RWMutex) TryLock() bool {
	if m.writer || m.pending || m.readers > 0 {
		return false
	}
	m.writer, m.pending = true, true
	return true
}

func (m *RWMutex) Lock() {
	if zsim.W == nil || zsim.Dead() {
		return
	}
	zsim.Contend()
	for m.writer || m.pending {
		m.wq.Wait("lock (behind writer)")
	}
	m.pending = true
	for m.readers > 0 {
		m.dq.Wait("lock (readers)")
	}
	m.writer = true
}

func (m *RWMutex) Unlock() {
	if zsim.W == nil || zsim.Dead() {
		return
	}
	if !m.writer {
		zsim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer, m.pending = false, false
	m.gen++
	m.readers += m.rq.Live()
	m.rq.WakeAll()
	m.wq.WakeOne()
	zsim.Contend()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	q zsim.WaitQ
}

func (g *WaitGroup) Add(d int) {
	if zsim.W != nil && zsim.Dead() {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.WakeAll()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if zsim.W == nil || zsim.Dead() {
		return
	}
	for g.n > 0 {
		g.q.Wait("waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	zsim.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L Locker
	q zsim.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if zsim.W == nil || zsim.Dead() {
		return
	}
	t := c.q.Enqueue()
	c.L.Unlock()
	c.q.ParkEnqueued(t, "cond")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if zsim.W != nil && !zsim.Dead() {
		c.q.WakeOne()
	}
}
func (c *Cond) Broadcast() {
	if zsim.W != nil && !zsim.Dead() {
		c.q.WakeAll()
	}
}

// Pool hands back what was put, or drops it, as the seed decides.
type Pool struct {
	New func() any
	a   []any
}

func (p *Pool) Get() any {
	if n := len(p.a); n > 0 {
		x := p.a[n-1]
		p.a = p.a[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil && len(p.a) < 64 {
		p.a = append(p.a, x)
	}
}

// Map keeps insertion order.
type Map struct {
	m map[any]any
	k []any
}

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Delete(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			break
		}
	}
}
func (m *Map) Swap(k, v any) (any, bool) {
	o, ok := m.m[k]
	m.Store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.m[k] = n
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.Delete(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.k...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { m.m, m.k = nil, nil }

var _ = fmt.Sprint
