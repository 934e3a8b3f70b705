//go:build go1.22

// Package context runs deadlines on the virtual clock.
package context

import (
	real "context"
	"time"

	"github.com/hound-search/hound/zsim"
)

func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	c, f := real.WithCancel(parent)
	return c, func() { f(); zsim.PollForeign() }
}

type dctx struct {
	real.Context
	at      time.Time
	expired *bool
}

func (d *dctx) Deadline() (time.Time, bool) { return d.at, true }
func (d *dctx) Err() error {
	if *d.expired {
		return real.DeadlineExceeded
	}
	return d.Context.Err()
}

func WithTimeout(parent real.Context, t time.Duration) (real.Context, real.CancelFunc) {
	c, f := real.WithCancel(parent)
	var exp bool
	d := &dctx{c, zsim.TimeNow().Add(t), &exp}
	if zsim.W == nil || zsim.Dead() {
		return d, f
	}
	tm := zsim.W.At(int64(t), func() {
		if c.Err() == nil {
			exp = true
		}
		f()
		zsim.PollForeign()
	})
	return d, func() {
		if zsim.W != nil {
			zsim.W.Cancel(tm)
		}
		f()
		zsim.PollForeign()
	}
}

func WithDeadline(parent real.Context, at time.Time) (real.Context, real.CancelFunc) {
	return WithTimeout(parent, at.Sub(zsim.TimeNow()))
}
