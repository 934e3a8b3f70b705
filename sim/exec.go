//go:build go1.22

package zsim

import (
	"fmt"
	"io"
	"io/fs"
	"syscall"
)

// Program is a simulated external program. It runs as a task of its own process
// and returns the exit code.
type Program func(c *Child) int

// Child is a running external program.
type Child struct {
	Proc   *Proc
	Args   []string
	Dir    string
	Env    []string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	FS     *FS
	W      *World
	done   bool
	code   int
	sig    bool
}

// Path makes a path relative to the child's directory absolute.
func (c *Child) Path(p string) string {
	if len(p) > 0 && p[0] == '/' {
		return p
	}
	return clean(c.Dir + "/" + p)
}

func (c *Child) Printf(f string, a ...interface{}) {
	if c.Stdout != nil {
		fmt.Fprintf(c.Stdout, f, a...)
	}
}
func (c *Child) Errf(f string, a ...interface{}) {
	if c.Stderr != nil {
		fmt.Fprintf(c.Stderr, f, a...)
	}
}

// Pipe is a bounded in-memory pipe.
type Pipe struct {
	buf     []byte
	wclosed bool
	rclosed bool
	rq, wq  WaitQ
}

const pipeCap = 65536

type PipeReader struct{ P *Pipe }
type PipeWriter struct{ P *Pipe }

func NewPipe() (*PipeReader, *PipeWriter) {
	p := &Pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.P
	for {
		dieIfDead()
		if p.rclosed {
			return 0, fs.ErrClosed
		}
		if len(p.buf) > 0 {
			n := len(p.buf)
			if n > len(b) {
				n = len(b)
			}
			// pieces of seeded size
			if n > 1 {
				if k := W.Choose("piperead", 4); k == 1 {
					n = 1 + W.Choose("pipesize", n)
					if n > len(b) {
						n = len(b)
					}
					if n > len(p.buf) {
						n = len(p.buf)
					}
				}
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			p.wq.WakeAll()
			return n, nil
		}
		if p.wclosed {
			return 0, io.EOF
		}
		p.rq.wait("pipe read")
	}
}

func (r *PipeReader) Close() error {
	if Dead() {
		return nil
	}
	if r.P.rclosed {
		return fs.ErrClosed
	}
	r.P.rclosed = true
	r.P.wq.WakeAll()
	r.P.rq.WakeAll()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.P
	t := 0
	for len(b) > 0 {
		dieIfDead()
		if p.rclosed || p.wclosed {
			return t, syscall.EPIPE
		}
		room := pipeCap - len(p.buf)
		if room <= 0 {
			p.wq.wait("pipe write")
			continue
		}
		n := len(b)
		if n > room {
			n = room
		}
		p.buf = append(p.buf, b[:n]...)
		b = b[n:]
		t += n
		p.rq.WakeAll()
	}
	return t, nil
}

func (w *PipeWriter) Close() error {
	w.P.wclosed = true
	w.P.rq.WakeAll()
	w.P.wq.WakeAll()
	return nil
}

// StartChild starts a program as a child of the running process.
func StartChild(name string, args []string, dir string, env []string, stdin io.Reader, stdout, stderr io.Writer, onExit func()) (*Child, error) {
	w := W
	dieIfDead()
	prog := w.Progs[name]
	if prog == nil {
		return nil, &NotFoundError{name}
	}
	o := &Op{Kind: "exec", Path: name}
	if len(args) > 1 {
		o.Path = name + " " + args[1]
	}
	if ft := w.FS.op(o); ft.Err != nil {
		return nil, &fs.PathError{Op: "fork/exec", Path: "/usr/bin/" + name, Err: ft.Err}
	}
	if dir != "" {
		n := w.FS.NodeF(Abs(dir))
		if n == nil {
			return nil, &fs.PathError{Op: "chdir", Path: dir, Err: syscall.ENOENT}
		}
		if !n.IsDir() {
			return nil, &fs.PathError{Op: "chdir", Path: dir, Err: syscall.ENOTDIR}
		}
	}
	parent := cur.proc
	p := w.NewProc(name, "child")
	p.parent = parent
	parent.kids = append(parent.kids, p)
	d := dir
	if d == "" {
		d = parent.Cwd
	}
	p.Cwd = clean(Abs(d))
	c := &Child{Proc: p, Args: args, Dir: p.Cwd, Env: env, Stdin: stdin, Stdout: stdout, Stderr: stderr, FS: w.FS, W: w}
	p.Data = c
	fin := func() {
		if onExit != nil {
			onExit()
		}
	}
	p.onEnd = fin
	p.Spawn(name, func() {
		code := prog(c)
		if !p.Dead {
			w.endProc(p, code, "exit")
		}
	})
	w.FS.end(o)
	w.schedPoint()
	return c, nil
}

// NotFoundError: the program is not installed.
type NotFoundError struct{ Name string }

func (e *NotFoundError) Error() string {
	return fmt.Sprintf("exec: %q: executable file not found in $PATH", e.Name)
}

func (c *Child) Wait() int {
	c.Proc.WaitExit(0)
	return c.Proc.Code
}
