//go:build go1.22

// Package time is the simulated time: the virtual clock of zsim.
package time

import (
	real "time"

	"github.com/hound-search/hound/zsim"
)

func Now() Time {
	zsim.Op0("now")
	return zsim.TimeNow()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if zsim.W == nil {
		return
	}
	zsim.W.Sleep(int64(d))
}

type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *zsim.Timer
}

func (t *Timer) arm(d Duration) {
	t.t = zsim.W.At(int64(d), func() {
		if t.f != nil {
			f := t.f
			zsim.SpawnFromTimer(f)
			return
		}
		zsim.TrySend(t.c, zsim.TimeNow())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	if !zsim.Dead() && zsim.W != nil {
		t.arm(d)
	}
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	if !zsim.Dead() && zsim.W != nil {
		t.arm(d)
	}
	return t
}
func After(d Duration) <-chan Time { return NewTimer(d).C }
func (t *Timer) Stop() bool {
	if t.t == nil || zsim.W == nil {
		return false
	}
	ok := zsim.W.Cancel(t.t)
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return ok
}
func (t *Timer) Reset(d Duration) bool {
	ok := t.Stop()
	if zsim.W != nil && !zsim.Dead() {
		t.arm(d)
	}
	return ok
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	t    *zsim.Timer
	stop bool
}

func (t *Ticker) arm() {
	t.t = zsim.W.At(int64(t.d), func() {
		if t.stop {
			return
		}
		zsim.TrySend(t.c, zsim.TimeNow())
		t.arm()
	})
}
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	if zsim.W != nil && !zsim.Dead() {
		t.arm()
	}
	return t
}
func (t *Ticker) Stop() {
	t.stop = true
	if t.t != nil && zsim.W != nil {
		zsim.W.Cancel(t.t)
	}
}
func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.stop = false
	t.d = d
	if zsim.W != nil && !zsim.Dead() {
		t.arm()
	}
}
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

var _ real.Duration
