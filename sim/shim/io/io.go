//go:build go1.22

// Package io has in-memory pipes that block in the simulator.
package io

import (
	real "io"

	"github.com/hound-search/hound/zsim/shim/sync"
)

type pipe struct {
	wmu  sync.Mutex // one writer at a time
	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	full bool // a write is waiting for its bytes to be taken
	rerr error
	werr error
}

// PipeReader and PipeWriter are the ends of a pipe.
type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = sync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, real.ErrClosedPipe
		}
		if p.full {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			if len(p.buf) == 0 {
				p.full = false
				p.cond.Broadcast()
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil {
		p.rerr = err
	}
	p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, real.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.buf, p.full = b, true
	for p.full && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := len(b) - len(p.buf)
	if p.full {
		p.full, p.buf = false, nil
		if p.rerr != nil {
			return n, p.rerr
		}
		return n, real.ErrClosedPipe
	}
	return len(b), nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	return nil
}
