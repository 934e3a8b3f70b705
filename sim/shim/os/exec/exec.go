//go:build go1.22

// Package exec runs the simulated external programs.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/hound-search/hound/zsim"
	"github.com/hound-search/hound/zsim/shim/os"
	"github.com/hound-search/hound/zsim/shim/sync"
)

//zsim:only zsimnone

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + `"` + e.Name + `": ` + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	child    *zsim.Child
	onStart  []func()
	after    []io.Closer // parent's ends, closed by Wait
	childEnd []io.Closer // child's ends, closed when it ends
	copies   []func() error
	errs     []error
	wg       sync.WaitGroup
	ctx      context.Context
	waited   bool
	started  bool
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func base(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

func LookPath(f string) (string, error) {
	if zsim.W != nil && zsim.W.Progs[base(f)] != nil {
		return "/usr/bin/" + base(f), nil
	}
	return "", &Error{f, ErrNotFound}
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	r, w := zsim.NewPipe()
	c.Stdout = w
	c.childEnd = append(c.childEnd, w)
	c.after = append(c.after, r)
	return r, nil
}
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	r, w := zsim.NewPipe()
	c.Stderr = w
	c.childEnd = append(c.childEnd, w)
	c.after = append(c.after, r)
	return r, nil
}
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	r, w := zsim.NewPipe()
	c.Stdin = r
	c.childEnd = append(c.childEnd, r)
	c.after = append(c.after, w)
	return w, nil
}

// out makes the child's side of an output stream.
func (c *Cmd) out(w io.Writer) io.Writer {
	switch x := w.(type) {
	case nil:
		return io.Discard
	case *zsim.PipeWriter:
		return x
	case *os.File:
		return x
	}
	pr, pw := zsim.NewPipe()
	c.childEnd = append(c.childEnd, pw)
	c.copies = append(c.copies, func() error {
		_, err := io.Copy(w, pr)
		pr.Close()
		return err
	})
	return pw
}

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	if c.Err != nil {
		return c.Err
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	var stdout, stderr io.Writer
	stdout = c.out(c.Stdout)
	if same(c.Stderr, c.Stdout) && c.Stdout != nil {
		stderr = stdout
	} else {
		stderr = c.out(c.Stderr)
	}
	stdin := c.Stdin
	if stdin != nil {
		switch x := stdin.(type) {
		case *zsim.PipeReader, *os.File:
			_ = x
		default:
			src := stdin
			pr, pw := zsim.NewPipe()
			stdin = pr
			c.childEnd = append(c.childEnd, pr)
			c.copies = append(c.copies, func() error {
				_, err := io.Copy(pw, src)
				if errors.Is(err, syscall.EPIPE) {
					err = nil
				}
				pw.Close()
				return err
			})
		}
	} else {
		stdin = bytes.NewReader(nil)
	}
	var env []string
	if c.Env == nil {
		env = os.Environ()
	} else {
		env = c.Env
	}
	ends := c.childEnd
	ch, err := zsim.StartChild(base(c.Path), c.Args, c.Dir, env, stdin, stdout, stderr, func() {
		for _, e := range ends {
			e.Close()
		}
	})
	if err != nil {
		for _, e := range ends {
			e.Close()
		}
		for _, e := range c.after {
			e.Close()
		}
		var nf *zsim.NotFoundError
		if errors.As(err, &nf) {
			return &Error{c.Path, ErrNotFound}
		}
		return err
	}
	c.child = ch
	c.Process = &os.Process{Pid: ch.Proc.ID + 1000, P: ch.Proc}
	for _, f := range c.copies {
		f := f
		c.wg.Add(1)
		zsim.Go(func() {
			defer c.wg.Done()
			if err := f(); err != nil {
				c.errs = append(c.errs, err)
			}
		})
	}
	if c.ctx != nil && c.ctx.Done() != nil {
		ctx := c.ctx
		zsim.Go(func() {
			d := ctx.Done()
			for !ch.Proc.Dead {
				// look now and then: the context may be closed outside the simulation
				select {
				case <-d:
					ch.Proc.Kill()
					return
				default:
				}
				ch.Proc.WaitExit(int64(50 * time.Millisecond))
			}
		})
	}
	return nil
}

func same(a, b any) bool {
	defer func() { recover() }()
	return a == b
}

func (c *Cmd) Wait() error {
	if c.child == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	code := c.child.Wait()
	c.ProcessState = &os.ProcessState{Code: code, Pid_: c.Process.Pid}
	c.wg.Wait()
	for _, e := range c.after {
		e.Close()
	}
	if c.ctx != nil && c.ctx.Err() != nil && code != 0 {
		return c.ctx.Err()
	}
	if code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	if len(c.errs) > 0 {
		return c.errs[0]
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b, eb bytes.Buffer
	c.Stdout = &b
	capt := c.Stderr == nil
	if capt {
		c.Stderr = &eb
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capt {
		ee.Stderr = eb.Bytes()
	}
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}
