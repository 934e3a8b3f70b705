//go:build go1.22

package zsim

import (
	"fmt"
	"runtime"
	"syscall"
)

// Contend is a place where the scheduler may prefer another task (lock operations).
func Contend() {
	if W != nil {
		W.schedPoint()
	}
}

// Fatal is a throw of the Go runtime: the process ends.
func Fatal(msg string) {
	w := W
	p := cur.proc
	if !p.Dead {
		p.Stack = "fatal error: " + msg + "\n" + stackHere()
		p.Err = append(p.Err, []byte("fatal error: "+msg+"\n")...)
		w.endProc(p, 2, "panic")
	}
	runtime.Goexit()
}

// FatalExit is log.Fatal: exit status 1 after a message.
func FatalExit(msg string) {
	if W == nil {
		panic("log.Fatal outside a run: " + msg)
	}
	dieIfDead()
	p := cur.proc
	p.Stack = stackHere()
	p.w.endProc(p, 1, "fatal: "+msg)
	runtime.Goexit()
}

// Live counts the waiters still alive.
func (q *WaitQ) Live() int {
	n := 0
	for _, t := range q.q {
		if !t.ended && !t.dying && !t.proc.Dead {
			n++
		}
	}
	return n
}

// Take removes the first live waiter.
func (q *WaitQ) Take() *Task { return q.take() }

// Ready makes a task taken from a queue runnable.
func Ready(t *Task) { W.makeReady(t) }

// Enqueue puts the running task in the queue without blocking yet.
func (q *WaitQ) Enqueue() *Task {
	q.q = append(q.q, cur)
	return cur
}

// ParkEnqueued blocks the task put in the queue by Enqueue unless it has been
// taken out already.
func (q *WaitQ) ParkEnqueued(t *Task, why string) {
	for _, x := range q.q {
		if x == t {
			W.park(why)
			return
		}
	}
	// woken in the meantime: it is in the ready list
	W.unready(t)
}

// Op0 is an operation that cannot fail.
func Op0(name string) {}

// SpawnFromTimer starts a task of the process that owns the timer firing.
func SpawnFromTimer(f func()) {
	if p := W.timerProc; p != nil && !p.Dead {
		p.Spawn("timer", f)
	}
}

// RandU64 draws from the process's own generator.
func RandU64() uint64 {
	if cur == nil {
		return 4
	}
	return cur.proc.Rand.U64()
}

// Stdout and Stderr are the streams of the running process.
func Stdout(b []byte) (int, error) {
	dieIfDead()
	p := CurProc()
	if p == nil {
		return len(b), nil
	}
	if p.OutErr != 0 && len(p.Out)+len(b) > p.OutRoom {
		n := p.OutRoom - len(p.Out)
		if n < 0 {
			n = 0
		}
		p.Out = append(p.Out, b[:n]...)
		p.OutHit++
		W.Log("write to stdout fails: %v", p.OutErr)
		return n, p.OutErr
	}
	p.Out = append(p.Out, b...)
	return len(b), nil
}

func Stderr(b []byte) (int, error) {
	dieIfDead()
	if p := CurProc(); p != nil {
		p.Err = append(p.Err, b...)
		if W.TraceOn {
			W.Log("stderr: %s", b)
		}
	}
	return len(b), nil
}

// Getenv reads the running process's environment.
func Getenv(k string) (string, bool) {
	p := CurProc()
	if p == nil {
		return "", false
	}
	v, ok := p.Env[k]
	return v, ok
}

// SyncAll is sync(2).
func SyncAll() {
	if W != nil {
		W.FS.SyncAll()
	}
}

// FdSync is fsync(2).
func FdSync(fd int) error {
	p := CurProc()
	if p == nil {
		return syscall.EBADF
	}
	f := p.fds[fd]
	if f == nil {
		return syscall.EBADF
	}
	if err := f.Sync(); err != nil {
		return errnoOf(err)
	}
	return nil
}

// FileOfFd is the open file behind a descriptor.
func FileOfFd(fd int) *File {
	if p := CurProc(); p != nil {
		return p.fds[fd]
	}
	return nil
}

func (t *Task) String() string { return fmt.Sprintf("%s#%d", t.proc.Name, t.id) }

// Seq is a running number of scheduling events.
func (w *World) Seq() int64 { return w.steps }

// Hooks lets the harness reach into instrumented packages.
var Hooks = map[string]func() map[string]interface{}{}

// Delayed is the time tasks have been kept from going on so far.
func (w *World) Delayed() int64 { return w.stalled + w.slowed }
