//go:build go1.22

package signal

import (
	"context"
	"os"
	"syscall"

	"github.com/hound-search/hound/zsim"
)

// term reports whether sig (or, if empty, any signal) includes SIGTERM.
func term(sig []os.Signal) bool {
	for _, s := range sig {
		if s == syscall.SIGTERM {
			return true
		}
	}
	return len(sig) == 0
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if p := zsim.CurProc(); p != nil && term(sig) {
		p.OnTerm(c, func() { zsim.TrySendDir(c, os.Signal(syscall.SIGTERM)) })
	}
}

func Stop(c chan<- os.Signal) {
	if p := zsim.CurProc(); p != nil {
		p.OnTerm(c, nil)
	}
}

func Ignore(sig ...os.Signal) {
	if p := zsim.CurProc(); p != nil && term(sig) {
		p.SigIgn = true
	}
}

func Ignored(sig os.Signal) bool {
	p := zsim.CurProc()
	return p != nil && p.SigIgn && sig == syscall.SIGTERM
}

func Reset(sig ...os.Signal) {
	if p := zsim.CurProc(); p != nil && term(sig) {
		p.ResetTerm()
	}
}

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	p := zsim.CurProc()
	if p == nil || !term(sig) {
		return ctx, cancel
	}
	p.OnTerm(ctx, func() { cancel(); zsim.PollForeign() })
	return ctx, func() {
		cancel()
		if p := zsim.CurProc(); p != nil {
			p.OnTerm(ctx, nil)
		}
		zsim.PollForeign()
	}
}
