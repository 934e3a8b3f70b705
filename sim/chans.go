//go:build go1.22

package zsim

import "unsafe"

// Channels keep the program's own channel values; what is buffered lives in the
// real channel, blocked senders and receivers live in side queues here.

type waiter struct {
	t     *Task
	sel   *selState // shared by the cases of one select
	idx   int
	val   interface{}
	ok    bool
	fired bool
	panic bool
}

type selState struct{ fired *waiter }

type chanOps interface {
	pollRecv() (interface{}, bool, bool) // value, ok, done
}

type chanState struct {
	keep   interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	poll   func() (interface{}, bool, bool)
}

func chanKey[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (w *World) chanState(key uintptr, mk func() *chanState) *chanState {
	st := w.chans[key]
	if st == nil {
		st = mk()
		w.chans[key] = st
		w.chanList = append(w.chanList, st)
	}
	return st
}

func stateOf[T any](ch chan T) *chanState {
	return W.chanState(chanKey(ch), func() *chanState {
		return &chanState{keep: ch, poll: func() (interface{}, bool, bool) {
			select {
			case v, ok := <-ch:
				return v, ok, true
			default:
				return nil, false, false
			}
		}}
	})
}

func recvState[T any](ch <-chan T) *chanState {
	key := *(*uintptr)(unsafe.Pointer(&ch))
	return W.chanState(key, func() *chanState {
		return &chanState{keep: ch, poll: func() (interface{}, bool, bool) {
			select {
			case v, ok := <-ch:
				return v, ok, true
			default:
				return nil, false, false
			}
		}}
	})
}

func live(x *waiter) bool {
	if x.fired || x.t.ended || x.t.dying || x.t.proc.Dead {
		return false
	}
	return x.sel == nil || x.sel.fired == nil
}

func takeWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if live(x) {
			return x
		}
	}
	return nil
}

func fire(x *waiter) {
	x.fired = true
	if x.sel != nil {
		x.sel.fired = x
	}
	W.makeReady(x.t)
}

func dropWaiter(q *[]*waiter, x *waiter) {
	for i, y := range *q {
		if y == x {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			return
		}
	}
}

func sendDir[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// trySend reports whether the send could go through at once.
func trySend[T any](ch chan T, v T) bool {
	st := stateOf(ch)
	if st.closed {
		panic("send on closed channel")
	}
	if x := takeWaiter(&st.recvq); x != nil {
		x.val, x.ok = v, true
		fire(x)
		return true
	}
	if cap(ch) > 0 {
		select {
		case ch <- v:
			return true
		default:
		}
	}
	return false
}

// TrySend is a send from the scheduler or a shim; it never blocks.
func TrySend[T any](ch chan T, v T) bool { return trySend(ch, v) }

func doSend[T any](ch chan T, v T) {
	if W == nil {
		ch <- v
		return
	}
	if dead() {
		dieIfDead()
	}
	if ch == nil {
		BlockForever()
	}
	if trySend(ch, v) {
		W.schedPoint()
		return
	}
	st := stateOf(ch)
	x := &waiter{t: cur, val: v}
	st.sendq = append(st.sendq, x)
	W.park("chan send")
	if x.panic {
		panic("send on closed channel")
	}
}

// Send is the statement ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { doSend(sendDir(ch), v) }
}

// tryRecv: value, ok, done
func tryRecv[T any](ch <-chan T) (v T, ok bool, done bool) {
	st := recvState(ch)
	select {
	case v, ok = <-ch:
		if !ok {
			st.closed = true
			return v, false, true
		}
		// room for a blocked sender
		if x := takeWaiter(&st.sendq); x != nil {
			c := *(*chan T)(unsafe.Pointer(&ch))
			c <- as[T](x.val)
			fire(x)
		}
		return v, true, true
	default:
	}
	if x := takeWaiter(&st.sendq); x != nil {
		v = as[T](x.val)
		fire(x)
		return v, true, true
	}
	return v, false, false
}

func as[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if W == nil {
		v, ok := <-ch
		return v, ok
	}
	if dead() {
		dieIfDead()
	}
	if ch == nil {
		BlockForever()
	}
	if v, ok, done := tryRecv(ch); done {
		W.schedPoint()
		return v, ok
	}
	st := recvState(ch)
	x := &waiter{t: cur}
	st.recvq = append(st.recvq, x)
	W.park("chan receive")
	return as[T](x.val), x.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	c := sendDir(ch)
	if W == nil {
		close(c)
		return
	}
	if dead() {
		return
	}
	st := stateOf(c)
	close(c) // panics as it should if already closed
	st.closed = true
	for {
		x := takeWaiter(&st.recvq)
		if x == nil {
			break
		}
		x.val, x.ok = nil, false
		fire(x)
	}
	for {
		x := takeWaiter(&st.sendq)
		if x == nil {
			break
		}
		x.panic = true
		fire(x)
	}
	W.schedPoint()
}

// BlockForever blocks the task for good.
func BlockForever() {
	if W == nil {
		select {}
	}
	if dead() {
		dieIfDead()
	}
	for {
		W.park("forever")
	}
}

// ChanIter ranges over a channel.
type ChanIter[T any] struct{ ch <-chan T }

func ChanStart[T any](ch <-chan T) (*ChanIter[T], T, bool) {
	it := &ChanIter[T]{ch}
	v, ok := it.Next()
	return it, v, ok
}
func (it *ChanIter[T]) Next() (T, bool) { return Recv2(it.ch) }

// SelCase is one communication of a select statement.
type SelCase interface {
	try() bool
	enq(x *waiter)
	deq(x *waiter)
	take(x *waiter)
	isNil() bool
}

type RecvC[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }
func (c *RecvC[T]) V() T                    { return c.v }
func (c *RecvC[T]) V2() (T, bool)           { return c.v, c.ok }
func (c *RecvC[T]) isNil() bool             { return c.ch == nil }
func (c *RecvC[T]) try() bool {
	v, ok, done := tryRecv(c.ch)
	if done {
		c.v, c.ok = v, ok
	}
	return done
}
func (c *RecvC[T]) enq(x *waiter)  { st := recvState(c.ch); st.recvq = append(st.recvq, x) }
func (c *RecvC[T]) deq(x *waiter)  { dropWaiter(&recvState(c.ch).recvq, x) }
func (c *RecvC[T]) take(x *waiter) { c.v, c.ok = as[T](x.val), x.ok }

type SendC[T any] struct {
	ch chan T
	v  T
}

func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{sendDir(ch), v} }
}
func (c *SendC[T]) isNil() bool    { return c.ch == nil }
func (c *SendC[T]) try() bool      { return trySend(c.ch, c.v) }
func (c *SendC[T]) enq(x *waiter)  { x.val = c.v; st := stateOf(c.ch); st.sendq = append(st.sendq, x) }
func (c *SendC[T]) deq(x *waiter)  { dropWaiter(&stateOf(c.ch).sendq, x) }
func (c *SendC[T]) take(x *waiter) {}

// Select is the select statement; it returns the index of the case taken, -1
// for the default.
func Select(def bool, cases ...SelCase) int {
	if W == nil {
		for {
			for i, c := range cases {
				if !c.isNil() && rawTry(c) {
					return i
				}
			}
			if def {
				return -1
			}
		}
	}
	if dead() {
		dieIfDead()
	}
	// try in an order chosen by the seed: Go picks any ready case
	n := len(cases)
	start := 0
	if n > 1 {
		start = W.Choose("select", n)
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		if !cases[i].isNil() && cases[i].try() {
			W.schedPoint()
			return i
		}
	}
	if def {
		return -1
	}
	sel := &selState{}
	var xs []*waiter
	for i, c := range cases {
		x := &waiter{t: cur, sel: sel, idx: i}
		if !c.isNil() {
			c.enq(x)
		}
		xs = append(xs, x)
	}
	for sel.fired == nil {
		W.park("select")
	}
	f := sel.fired
	for i, c := range cases {
		if !c.isNil() && xs[i] != f {
			c.deq(xs[i])
		}
	}
	if f.panic {
		panic("send on closed channel")
	}
	cases[f.idx].take(f)
	return f.idx
}

func rawTry(c SelCase) bool { return false }

// TrySendDir is TrySend on a send-only channel.
func TrySendDir[T any](ch chan<- T, v T) bool { return trySend(sendDir(ch), v) }

// PollForeign wakes receivers of channels closed by code outside the simulation
// (package context).
func PollForeign() {
	if W != nil {
		W.pollForeign()
	}
}

// pollForeign looks for channels closed or filled by code outside the simulation.
func (w *World) pollForeign() bool {
	hit := false
	for _, st := range w.chanList {
		if len(st.recvq) == 0 || st.poll == nil {
			continue
		}
		liveW := false
		for _, x := range st.recvq {
			if live(x) {
				liveW = true
			}
		}
		if !liveW {
			continue
		}
		if v, ok, done := st.poll(); done {
			if x := takeWaiter(&st.recvq); x != nil {
				x.val, x.ok = v, ok
				fire(x)
				hit = true
			}
		}
	}
	return hit
}
