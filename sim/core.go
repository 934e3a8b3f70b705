//go:build go1.22

// Package zsim is the deterministic simulator: a cooperative scheduler with a
// virtual clock that runs the real program (rewritten at build time so that
// every source of nondeterminism arrives here) in one process. Exactly one task
// runs at a time; which one, what fails and when is decided by seeded decision
// streams, recorded so that a run can be replayed and minimised.
package zsim

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
)

// ---------------------------------------------------------------- random

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Chance(p float64) bool { return r.Float() < p }
func (r *Rng) Range(a, b int) int    { return a + r.Intn(b-a+1) }

// Log draws log-uniformly from [a,b].
func (r *Rng) Log(a, b int64) int64 {
	if b <= a {
		return a
	}
	// choose a magnitude, then a value in it
	n := 0
	for v := a; v < b; v *= 2 {
		n++
		if v == 0 {
			v = 1
		}
	}
	k := r.Intn(n)
	lo := a
	if lo == 0 {
		lo = 1
	}
	lo <<= uint(k)
	hi := lo * 2
	if hi > b {
		hi = b
	}
	if hi <= lo {
		return lo
	}
	return lo + int64(r.U64()%uint64(hi-lo))
}

// Geo draws a geometric-like interval with the given mean.
func (r *Rng) Geo(mean int64) int64 {
	if mean <= 1 {
		return 1
	}
	// exponential through inverse of a float, without math import
	u := r.Float()
	// -ln(1-u) by series on halves
	k := 0.0
	for u > 0.5 {
		u = (u - 0.5) * 2
		k += 0.6931471805599453
	}
	x := u
	t := x
	s := 0.0
	for i := 1; i < 12; i++ {
		s += t / float64(i)
		t *= x
	}
	return 1 + int64((k+s)*float64(mean))
}

func hash64(s string, seed uint64) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	h ^= h >> 29
	return h
}

// Hash64 is a seeded string hash.
func Hash64(s string, seed uint64) uint64 { return hash64(s, seed) }

// ---------------------------------------------------------------- decisions

// Decisions are the recorded non-default choices of a run, per stream, keyed by
// the running number of the choice in its stream (for "preempt": by the count of
// yield points passed).
type Decisions map[string][][2]int64

type stream struct {
	n    int64
	rng  *Rng
	rep  map[int64]int64
	rec  [][2]int64
	used int
}

func (w *World) stream(name string) *stream {
	s := w.streams[name]
	if s == nil {
		s = &stream{rng: NewRng(hash64(name, w.Seed))}
		if w.Replay != nil {
			s.rep = map[int64]int64{}
			for _, d := range w.Replay[name] {
				s.rep[d[0]] = d[1]
			}
		}
		w.streams[name] = s
	}
	return s
}

// Decide draws one decision: gen makes a fresh one (0 is the default: nothing
// special happens), a replay looks it up.
func (w *World) Decide(name string, gen func(r *Rng) int64) int64 {
	s := w.stream(name)
	s.n++
	var v int64
	if w.Replay != nil {
		v = s.rep[s.n]
	} else {
		v = gen(s.rng)
	}
	if v != 0 {
		s.rec = append(s.rec, [2]int64{s.n, v})
		s.used++
	}
	return v
}

// Choose picks one of n, 0 being the default.
func (w *World) Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := w.Decide(name, func(r *Rng) int64 { return int64(r.Intn(n)) })
	if v < 0 || v >= int64(n) {
		v = ((v % int64(n)) + int64(n)) % int64(n)
	}
	return int(v)
}

// Recorded returns the decisions taken so far.
func (w *World) Recorded() Decisions {
	d := Decisions{}
	for n, s := range w.streams {
		if len(s.rec) > 0 {
			d[n] = s.rec
		}
	}
	return d
}

// ---------------------------------------------------------------- world

// Sched are the scheduling parameters of a run.
type Sched struct {
	Policy      string  `json:"policy"`      // fifo, random, sticky, pct
	PreemptMean int64   `json:"preemptMean"` // mean number of yield points between preemptions, 0: none
	StallP      float64 `json:"stallP"`      // chance that a preemption is a stall
	StallMax    int64   `json:"stallMax"`    // longest stall (ns)
	SlowOpP     float64 `json:"slowOpP"`     // chance that an I/O operation takes time
	SlowOpMax   int64   `json:"slowOpMax"`
	RareP       float64 `json:"rareP,omitempty"` // chance of a preemption at a statement seldom run so far
	RareK       int     `json:"rareK,omitempty"` // how often a statement has to be run to count as seldom run no more
}

type World struct {
	Seed   uint64
	Replay Decisions // non-nil: replay these
	Sched  Sched

	now     int64 // virtual ns since start, monotonic
	wallOff int64 // wall clock offset
	streams map[string]*stream

	ready  []*Task
	timers timerHeap
	tseq   int64
	tasks  map[int]*Task
	nextID int
	procs  []*Proc

	yields      int64 // yield points passed
	yArmed      int64 // interval armed last
	nextPreempt int64
	steps       int64 // task switches
	Switches    int64
	maxYields   int64
	maxSteps    int64
	lastNow     int64
	yieldsAtNow int64
	schedHash   uint64
	stateSet    map[uint64]struct{}
	stateX      uint64
	preOrder    []int64
	preAt       int

	stop     string // why the run was stopped early
	stopKind string
	done     chan struct{}
	exited   chan struct{}
	tearing  bool
	mainTask *Task

	chans    map[uintptr]*chanState
	chanList []*chanState
	FS       *FS
	Net      *Net
	Progs    map[string]Program

	Faults  map[string]int64 // injected faults by kind
	FaultsF func(op *Op) Fault
	KillF   func(op *Op) int // <0: no; 0 before the operation, 1 after it, 2 in the middle
	OpHook  func(op *Op)
	OnExit  func(p *Proc)
	OnSpawn func(p *Proc)
	Trace   []string
	TraceOn bool
	stallOn bool
	BlockF  func(task int, why string) // a task is about to wait
	stalled int64
	slowed  int64

	finalNow  int64
	Mapped    int64
	NOps      int64
	TraceOps  bool
	inTimer   bool
	timerProc *Proc
}

var (
	// W is the world of the run in progress, nil outside one.
	W   *World
	cur *Task
	// YC counts down to the next scheduling event.
	YC int64 = 1 << 60
)

const epoch = 1700000000 // virtual wall clock at start

func NewWorld(seed uint64, sched Sched, replay Decisions) *World {
	w := &World{
		Seed: seed, Sched: sched, Replay: replay,
		streams: map[string]*stream{}, tasks: map[int]*Task{},
		chans: map[uintptr]*chanState{}, done: make(chan struct{}, 1), exited: make(chan struct{}),
		Faults: map[string]int64{}, stateSet: map[uint64]struct{}{},
		Progs: map[string]Program{}, maxYields: 4e9, maxSteps: 20e6, stallOn: true,
	}
	w.FS = newFS(w)
	w.Net = newNet(w)
	return w
}

func (w *World) Now() int64          { return w.now }
func (w *World) Wall() int64         { return epoch*1e9 + w.now + w.wallOff }
func (w *World) JumpClock(d int64)   { w.wallOff += d; w.CountFault("clock-jump") }
func (w *World) Yields() int64       { return w.yields + (w.yArmed - YC) }
func (w *World) Stopped() string     { return w.stop }
func (w *World) StopKind() string    { return w.stopKind }
func (w *World) SchedHash() uint64   { return w.schedHash }
func (w *World) States() int         { return len(w.stateSet) }
func (w *World) SimTime() int64      { return w.finalNow }
func (w *World) SetStalls(on bool)   { w.stallOn = on }
func (w *World) CountFault(k string) { w.Faults[k]++ }
func (w *World) Log(f string, a ...interface{}) {
	if w.TraceOn {
		t := ""
		if cur != nil {
			t = fmt.Sprintf("%s/%d", cur.proc.Name, cur.id)
		}
		w.Trace = append(w.Trace, fmt.Sprintf("[%9.3fms %s] ", float64(w.now)/1e6, t)+fmt.Sprintf(f, a...))
	}
}

// NoteState adds an abstract state of the system to the set of states reached.
func (w *World) NoteState(s string) { w.stateSet[hash64(s, 7)] = struct{}{} }

// StateList lists the distinct states seen (hashes).
func (w *World) StateList() []uint64 {
	var l []uint64
	for s := range w.stateSet {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// noteBlock keeps the sum of what all tasks wait for, as a measure of states.
func (w *World) noteBlock(t *Task, why string) {
	if t.blockH != 0 {
		w.stateX -= t.blockH
		t.blockH = 0
	}
	if why != "" {
		t.blockH = hash64(t.proc.Name, hash64(why, 11)) | 1
		w.stateX += t.blockH
		if len(w.stateSet) < 20000 {
			w.stateSet[w.stateX] = struct{}{}
		}
	}
}

// ---------------------------------------------------------------- processes

// Proc is a simulated operating-system process.
type Proc struct {
	ID       int
	Name     string
	Kind     string
	w        *World
	tasks    map[int]*Task
	Dead     bool
	Code     int
	Reason   string // how it ended: exit, killed, panic, fault
	Stack    string
	Out      []byte        // captured stdout
	Err      []byte        // captured stderr and log
	OutRoom  int           // bytes stdout takes before OutErr
	OutErr   syscall.Errno // what writes to stdout fail with (0: nothing)
	Tty      bool          // stdout is a terminal
	OutHit   int
	ExitedAt int64
	StartAt  int64
	Yields0  int64
	Ops      int64
	KillOp   int64 // kill when Ops reaches this (0: never)
	KillPart int   // what the fatal operation still does: 0 nothing, 1 all, 2 part (writes)
	KillY    int64 // kill at this absolute yield count (0: never)
	exitQ    WaitQ
	onEnd    func()
	onKill   []*WaitQ
	fds      map[int]*File
	maps     []*procMap
	nextFD   int
	sigs     map[string][]interface{}
	SigTerm  []termHandler // registered handlers for SIGTERM
	SigIgn   bool
	parent   *Proc
	kids     []*Proc
	Rand     *Rng
	Args     []string
	Env      map[string]string
	Cwd      string
	Data     interface{}
	Flags    interface{}
}

func (w *World) NewProc(name, kind string) *Proc {
	p := &Proc{ID: len(w.procs) + 1, Name: name, Kind: kind, w: w, tasks: map[int]*Task{}, fds: map[int]*File{}, nextFD: 3, Cwd: "/", StartAt: w.now}
	p.Yields0 = w.Yields()
	p.Rand = NewRng(hash64(fmt.Sprintf("rand%d", p.ID), w.Seed))
	w.procs = append(w.procs, p)
	if kind == "prog" {
		w.resetSeldom()
	}
	return p
}

func (w *World) Procs() []*Proc { return w.procs }

// CurProc is the process of the running task.
func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.proc
}

// Task ids and states, for the harness.
func (p *Proc) TaskStates() map[int]string {
	m := map[int]string{}
	for id, t := range p.tasks {
		m[id] = t.block
	}
	return m
}

func (p *Proc) World() *World { return p.w }
func (p *Proc) NTasks() int   { return len(p.tasks) }

type Task struct {
	id     int
	proc   *Proc
	name   string
	ch     chan struct{}
	dying  bool
	ended  bool
	prio   uint64
	block  string
	blockH uint64
	fnpc   string
	// SetDeadline style wake-up data
	timedOut bool
}

func (t *Task) ID() int { return t.id }

// Cur is the running task.
func Cur() *Task { return cur }

type zexit struct{}

func (w *World) newTask(p *Proc, name string, fn func()) *Task {
	w.nextID++
	t := &Task{id: w.nextID, proc: p, name: name, ch: make(chan struct{}, 1)}
	t.prio = hash64(fmt.Sprint("prio", t.id), w.Seed)
	w.tasks[t.id] = t
	p.tasks[t.id] = t
	go func() {
		<-t.ch
		debug.SetPanicOnFault(true)
		ok := false
		defer func() {
			if !ok && !t.dying && !p.Dead {
				if r := recover(); r != nil {
					w.crash(p, r)
				}
			} else if !ok {
				recover()
			}
			w.taskEnd(t)
		}()
		if t.dying || p.Dead {
			ok = true
			return
		}
		fn()
		ok = true
	}()
	return t
}

// Crash records that the process ended by an unrecovered panic.
func (w *World) crash(p *Proc, r interface{}) {
	st := string(debug.Stack())
	kind := "panic"
	if IsFault(r) {
		kind = "fault"
	}
	p.Stack = fmt.Sprintf("%v\n%s", r, trimStack(st))
	w.endProc(p, 2, kind)
}

// CrashProc ends the current process the way an unrecovered panic does.
func CrashProc(r interface{}) {
	w := W
	p := cur.proc
	if !p.Dead {
		w.crash(p, r)
	}
	runtime.Goexit()
}

var hexArgs = regexp.MustCompile(`(\{?0x[0-9a-f]+\??\}?(, )?)+| ?\+0x[0-9a-f]+| goroutine \d+|\.\.\.`)

func trimStack(s string) string {
	var out []string
	ls := strings.Split(s, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.Contains(ls[i], "/zsim.") || strings.HasPrefix(ls[i], "runtime") || strings.HasPrefix(ls[i], "panic(") {
			if strings.HasPrefix(strings.TrimSpace(ls[i+1]), "/") {
				i++
			}
			continue
		}
		out = append(out, hexArgs.ReplaceAllString(ls[i], ""))
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

// IsFault reports whether a recovered value is a memory fault, which kills a
// real Go process outright.
func IsFault(r interface{}) bool {
	if e, ok := r.(interface{ Addr() uintptr }); ok {
		return e.Addr() >= 4096
	}
	return false
}

// endProc marks the process dead and ends its other tasks. The caller, if it
// belongs to the process, must Goexit.
func (w *World) endProc(p *Proc, code int, reason string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Code = code
	p.Reason = reason
	p.ExitedAt = w.now
	w.Log("process %s ends: %s (%d)", p.Name, reason, code)
	var ids []int
	for id := range p.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	me := cur
	for _, id := range ids {
		t := p.tasks[id]
		if t == nil || t == me {
			continue
		}
		w.reap(t)
	}
	cur = me
	w.FS.closeAll(p)
	w.Net.closeAll(p)
	for _, k := range p.kids {
		if !k.Dead && p.Reason != "exit0" {
			w.endProc(k, 137, "killed")
		}
	}
	if p.onEnd != nil {
		p.onEnd()
	}
	for _, q := range p.onKill {
		q.WakeAll()
	}
	p.onKill = nil
	for _, t := range p.exitQ.takeAll() {
		w.makeReady(t)
	}
	if w.OnExit != nil {
		w.OnExit(p)
	}
}

// reap runs a task's goroutine to its end (its deferred calls see a dead process).
func (w *World) reap(t *Task) {
	if t.ended {
		return
	}
	t.dying = true
	w.unready(t)
	me := cur
	cur = t
	t.ch <- struct{}{}
	<-w.exited
	cur = me
}

func (w *World) taskEnd(t *Task) {
	t.ended = true
	delete(w.tasks, t.id)
	delete(t.proc.tasks, t.id)
	w.noteBlock(t, "")
	if t.dying {
		w.exited <- struct{}{}
		return
	}
	p := t.proc
	if p.Kind == "prog" && len(p.tasks) == 0 && !p.Dead {
		// last task of a process without explicit exit
		w.endProc(p, 0, "exit")
	}
	if t == w.mainTask || w.stop != "" {
		w.finish()
		return
	}
	next := w.pick()
	if next == nil {
		w.finish()
		return
	}
	w.runTask(next)
}

func (w *World) finish() {
	cur = nil
	select {
	case w.done <- struct{}{}:
	default:
	}
}

func (w *World) runTask(t *Task) {
	w.steps++
	w.schedHash = (w.schedHash ^ uint64(t.id)) * 0x100000001b3
	cur = t
	t.ch <- struct{}{}
}

// Exit ends the current process (os.Exit).
func Exit(code int) {
	p := cur.proc
	if !p.Dead {
		p.w.endProc(p, code, "exit")
	}
	runtime.Goexit()
}

// Kill ends a process as SIGKILL does.
func (p *Proc) Kill() {
	if p.Dead {
		return
	}
	p.w.endProc(p, 137, "killed")
	if cur != nil && cur.proc == p {
		runtime.Goexit()
	}
}

// Signal delivers SIGTERM.
func (p *Proc) Signal() {
	if p.Dead {
		return
	}
	if len(p.SigTerm) == 0 {
		if !p.SigIgn {
			p.w.endProc(p, 143, "sigterm")
			if cur != nil && cur.proc == p {
				runtime.Goexit()
			}
		}
		return
	}
	for _, h := range p.SigTerm {
		f := h.f
		f()
	}
}

// WaitExit blocks until the process has ended or d (ns) has passed (0: forever).
func (p *Proc) WaitExit(d int64) bool {
	if p.Dead {
		return true
	}
	if d <= 0 {
		for !p.Dead {
			p.exitQ.wait("wait exit")
		}
		return true
	}
	return p.exitQ.waitFor("wait exit", d, func() bool { return p.Dead })
}

// Spawn starts fn as a task of the process.
func (p *Proc) Spawn(name string, fn func()) *Task {
	if p.Dead {
		return nil
	}
	t := p.w.newTask(p, name, fn)
	p.w.makeReady(t)
	return t
}

// Go is the go statement.
func Go(fn func()) {
	if W == nil {
		go fn()
		return
	}
	if dead() {
		return
	}
	cur.proc.Spawn("go", fn)
	W.schedPoint()
}

func dead() bool { return cur == nil || cur.dying || cur.proc.Dead }

// Dead reports whether the running task's process has ended; shims then do nothing.
func Dead() bool { return W != nil && dead() }

func dieIfDead() {
	if W != nil && cur != nil && (cur.dying || cur.proc.Dead) {
		runtime.Goexit()
	}
}

// ---------------------------------------------------------------- scheduler

func (w *World) makeReady(t *Task) {
	if t.ended || t.dying {
		return
	}
	w.ready = append(w.ready, t)
}

func (w *World) unready(t *Task) {
	for i, x := range w.ready {
		if x == t {
			w.ready = append(w.ready[:i:i], w.ready[i+1:]...)
			return
		}
	}
}

// pick chooses the next task to run, moving virtual time on when none is ready.
func (w *World) pick() *Task {
	for {
		if w.stop != "" {
			return nil
		}
		if len(w.ready) > 0 {
			break
		}
		if w.timers.len() > 0 {
			w.fireNext()
			continue
		}
		if w.pollForeign() {
			continue
		}
		w.Stop("deadlock", "every task is blocked and no timer is pending: "+w.blockedList())
		return nil
	}
	// due timers
	for w.timers.len() > 0 && w.timers.a[0].when <= w.now {
		w.fireNext()
	}
	i := 0
	if n := len(w.ready); n > 1 {
		switch w.Sched.Policy {
		case "random":
			i = w.Choose("sched", n)
		case "lifo":
			i = int(w.Decide("sched", func(r *Rng) int64 {
				if r.Intn(4) == 0 {
					return 0
				}
				return int64(n - 1)
			}))
		case "pct":
			i = int(w.Decide("sched", func(r *Rng) int64 {
				b := 0
				for k, t := range w.ready {
					if t.prio > w.ready[b].prio {
						b = k
					}
				}
				return int64(b)
			}))
		}
		if i < 0 || i >= n {
			i = 0
		}
	}
	t := w.ready[i]
	w.ready = append(w.ready[:i:i], w.ready[i+1:]...)
	if w.now != w.lastNow {
		w.lastNow = w.now
		w.yieldsAtNow = w.Yields()
	}
	return t
}

func (w *World) blockedList() string {
	var ids []int
	for id := range w.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var s []string
	for _, id := range ids {
		t := w.tasks[id]
		s = append(s, fmt.Sprintf("%s/%s#%d(%s)", t.proc.Name, t.name, t.id, t.block))
	}
	return strings.Join(s, " ")
}

// Stop ends the run early.
func (w *World) Stop(kind, why string) {
	if w.stop == "" {
		w.stop = why
		w.stopKind = kind
	}
}

// park blocks the running task until something makes it ready.
func (w *World) park(why string) {
	me := cur
	me.block = why
	if why != "yield" {
		w.noteBlock(me, why)
		if w.BlockF != nil {
			w.BlockF(me.id, why)
		}
	}
	next := w.pick()
	if next == nil {
		w.finish()
		<-me.ch
		dieIfDead()
		// only teardown wakes us here
		runtime.Goexit()
	}
	if next != me {
		w.runTask(next)
		<-me.ch
	} else {
		cur = me
	}
	me.block = ""
	w.noteBlock(me, "")
	dieIfDead()
}

// Yield lets others run.
func (w *World) Yield() {
	if dead() {
		return
	}
	w.makeReady(cur)
	w.park("yield")
}

// schedPoint is a place where another task may be preferred (after an operation
// that made one runnable).
func (w *World) schedPoint() {
	if dead() || len(w.ready) == 0 {
		return
	}
	switch w.Sched.Policy {
	case "random", "pct":
		if w.Decide("point", func(r *Rng) int64 { return int64(r.Intn(2)) }) != 0 {
			w.Yield()
		}
	}
}

// nSites is the size of the table of places (their numbers are taken modulo it).
const nSites = 1 << 13

// seldom says how many more times each place counts as seldom run.
var seldom [nSites]uint8

// resetSeldom makes every place a seldom run one.
func (w *World) resetSeldom() {
	k := w.Sched.RareK
	if w.Replay != nil || w.Sched.RareP <= 0 {
		k = 0
	}
	for i := range seldom {
		seldom[i] = uint8(k)
	}
}

// Y is called before every statement of the program under test.
func Y(site int) {
	YC--
	if YC < 0 || seldom[site&(nSites-1)] != 0 {
		yevent(site & (nSites - 1))
	}
}

func yevent(site int) {
	if YC < 0 {
		yslow()
	} else {
		yrare(site)
	}
}

// yrare preempts the running task, by chance, at a place seldom run so far: what
// happens once in a program's life would hardly ever be hit otherwise.
func yrare(site int) {
	seldom[site]--
	w := W
	if w == nil || dead() {
		return
	}
	s := w.stream("preempt")
	if !s.rng.Chance(w.Sched.RareP) {
		return
	}
	v := int64(1)
	if s.rng.Intn(2) == 0 {
		v = 1 + s.rng.Log(1000, max(w.Sched.StallMax, 1e6))
	}
	w.arm()
	w.CountFault("rare-preempt")
	s.rec = append(s.rec, [2]int64{w.yields - 1, v})
	w.arm()
	w.preempt(v)
}

// preempt makes the running task wait, for v-1 ns at least.
func (w *World) preempt(v int64) {
	if v == 1 {
		if w.Sched.Policy == "pct" {
			cur.prio = cur.prio >> 8
		}
		w.Yield()
	} else if v > 1 && w.stallOn && w.stalled < 100e9 {
		w.CountFault("stall")
		w.stalled += v - 1
		w.Sleep(v - 1)
	}
}

func (w *World) arm() {
	w.yields += w.yArmed - YC
	// distance to the next event
	n := int64(1 << 18)
	if w.nextPreempt >= 0 && w.nextPreempt-w.yields < n {
		n = w.nextPreempt - w.yields
	}
	for _, p := range w.procs {
		if !p.Dead && p.KillY > 0 && p.KillY-w.yields < n {
			n = p.KillY - w.yields
		}
	}
	if n < 0 {
		n = 0
	}
	w.yArmed = n
	YC = n
}

// SetKillY asks for the process to be killed after n more yield points (of any task).
func (p *Proc) SetKillY(n int64) {
	p.w.arm()
	p.KillY = p.w.yields + n
	p.w.arm()
}

func (w *World) planPreempt() {
	if w.Replay != nil {
		if w.preOrder == nil {
			w.preOrder = []int64{}
			for k := range w.stream("preempt").rep {
				w.preOrder = append(w.preOrder, k)
			}
			sort.Slice(w.preOrder, func(i, j int) bool { return w.preOrder[i] < w.preOrder[j] })
		}
		for w.preAt < len(w.preOrder) && w.preOrder[w.preAt] < w.yields {
			w.preAt++
		}
		w.nextPreempt = -1
		if w.preAt < len(w.preOrder) {
			w.nextPreempt = w.preOrder[w.preAt]
		}
		return
	}
	if w.Sched.PreemptMean <= 0 {
		w.nextPreempt = -1
		return
	}
	w.nextPreempt = w.yields + w.stream("preempt").rng.Geo(w.Sched.PreemptMean)
}

func yslow() {
	w := W
	if w == nil {
		YC = 1 << 60
		return
	}
	w.arm()
	if dead() {
		return
	}
	for _, p := range w.procs {
		if !p.Dead && p.KillY > 0 && w.yields > p.KillY {
			p.KillY = 0
			w.CountFault("kill-at-statement")
			p.Kill()
		}
	}
	if w.yields > w.maxYields {
		w.Stop("budget", "yield budget exceeded")
		w.Yield()
	}
	if w.now == w.lastNow && w.yields-w.yieldsAtNow > 250e6 {
		w.Stop("livelock", fmt.Sprintf("no progress of time over %d statements, running %s/%s#%d\n%s", w.yields-w.yieldsAtNow, cur.proc.Name, cur.name, cur.id, trimStack(string(debug.Stack()))))
		w.Yield()
	}
	if w.nextPreempt >= 0 && w.yields > w.nextPreempt {
		at := w.nextPreempt
		s := w.stream("preempt")
		var v int64
		if w.Replay != nil {
			v = s.rep[at]
		} else {
			v = 1
			if w.Sched.StallP > 0 && s.rng.Chance(w.Sched.StallP) {
				v = 1 + s.rng.Log(1000, w.Sched.StallMax)
			}
		}
		if v > 0 {
			s.rec = append(s.rec, [2]int64{at, v})
		}
		w.planPreempt()
		w.arm()
		w.preempt(v)
	}
}

// ---------------------------------------------------------------- timers

type Timer struct {
	when int64
	seq  int64
	fn   func()
	idx  int
	proc *Proc
}

type timerHeap struct{ a []*Timer }

func (h *timerHeap) len() int { return len(h.a) }
func (h *timerHeap) less(i, j int) bool {
	if h.a[i].when != h.a[j].when {
		return h.a[i].when < h.a[j].when
	}
	return h.a[i].seq < h.a[j].seq
}
func (h *timerHeap) swap(i, j int) {
	h.a[i], h.a[j] = h.a[j], h.a[i]
	h.a[i].idx, h.a[j].idx = i, j
}
func (h *timerHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			return
		}
		h.swap(i, p)
		i = p
	}
}
func (h *timerHeap) down(i int) {
	for {
		c := 2*i + 1
		if c >= len(h.a) {
			return
		}
		if c+1 < len(h.a) && h.less(c+1, c) {
			c++
		}
		if !h.less(c, i) {
			return
		}
		h.swap(i, c)
		i = c
	}
}
func (h *timerHeap) remove(i int) {
	n := len(h.a) - 1
	if i != n {
		h.swap(i, n)
	}
	h.a[n].idx = -1
	h.a = h.a[:n]
	if i < n {
		h.down(i)
		h.up(i)
	}
}

// At schedules fn (run by the scheduler; it must not block) in d ns.
func (w *World) At(d int64, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &Timer{when: w.now + d, seq: w.tseq, fn: fn, idx: w.timers.len()}
	if cur != nil && !w.inTimer {
		t.proc = cur.proc
	}
	if w.inTimer {
		t.proc = w.timerProc
	}
	w.timers.a = append(w.timers.a, t)
	w.timers.up(t.idx)
	return t
}

// Cancel stops the timer; it reports whether it was pending.
func (w *World) Cancel(t *Timer) bool {
	if t.idx < 0 || t.idx >= len(w.timers.a) || w.timers.a[t.idx] != t {
		return false
	}
	w.timers.remove(t.idx)
	return true
}

func (w *World) fireNext() {
	t := w.timers.a[0]
	w.timers.remove(0)
	if t.when > w.now {
		w.now = t.when
	}
	if t.proc != nil && t.proc.Dead {
		return
	}
	w.inTimer, w.timerProc = true, t.proc
	t.fn()
	w.inTimer, w.timerProc = false, nil
}

// Sleep blocks the running task for d ns of virtual time.
func (w *World) Sleep(d int64) {
	if dead() {
		dieIfDead()
		return
	}
	if d <= 0 {
		w.Yield()
		return
	}
	t := cur
	w.At(d, func() { w.makeReady(t) })
	w.park("sleep")
}

// ---------------------------------------------------------------- wait queues

// WaitQ is a queue of blocked tasks.
type WaitQ struct{ q []*Task }

func (q *WaitQ) Len() int { return len(q.q) }

func (q *WaitQ) drop(t *Task) {
	for i, x := range q.q {
		if x == t {
			q.q = append(q.q[:i:i], q.q[i+1:]...)
			return
		}
	}
}

// wait blocks the running task until it is taken from the queue.
func (q *WaitQ) wait(why string) {
	me := cur
	q.q = append(q.q, me)
	defer func() {
		if me.dying || me.proc.Dead {
			q.drop(me)
		}
	}()
	W.park(why)
}

func (q *WaitQ) Wait(why string) { q.wait(why) }

// waitFor waits until cond holds or d ns have passed.
func (q *WaitQ) waitFor(why string, d int64, cond func() bool) bool {
	w := W
	end := w.now + d
	for !cond() {
		if w.now >= end {
			return false
		}
		me := cur
		tm := w.At(end-w.now, func() { q.drop(me); w.makeReady(me) })
		q.wait(why)
		w.Cancel(tm)
	}
	return true
}

// WaitFor waits until cond holds, or d ns have passed.
func (q *WaitQ) WaitFor(why string, d int64, cond func() bool) bool { return q.waitFor(why, d, cond) }

func (q *WaitQ) take() *Task {
	for len(q.q) > 0 {
		t := q.q[0]
		q.q = q.q[1:]
		if !t.ended && !t.dying && !t.proc.Dead {
			return t
		}
	}
	return nil
}
func (q *WaitQ) takeAll() []*Task {
	var a []*Task
	for {
		t := q.take()
		if t == nil {
			return a
		}
		a = append(a, t)
	}
}

// WakeOne makes the first waiter ready.
func (q *WaitQ) WakeOne() bool {
	t := q.take()
	if t == nil {
		return false
	}
	W.makeReady(t)
	return true
}

// WakeAll makes every waiter ready.
func (q *WaitQ) WakeAll() {
	for _, t := range q.takeAll() {
		W.makeReady(t)
	}
}

// ---------------------------------------------------------------- runs

var resets = map[string]func(){}
var resetOrder []string

// RegisterReset records the function that re-initialises a package's state.
func RegisterReset(pkg string, fn func()) {
	resets[pkg] = fn
	resetOrder = append(resetOrder, pkg)
}

// ResetPackages re-initialises the packages for which want holds, in dependency order.
func ResetPackages(want func(pkg string) bool) {
	for _, p := range resetOrder {
		if want(p) {
			resets[p]()
		}
	}
}

// Run runs main as a task of a world process until it returns, then ends every
// task that is left.
func (w *World) Run(mainFn func()) {
	if W != nil {
		panic("zsim: nested run")
	}
	W = w
	w.yArmed, YC = 0, 0
	w.resetSeldom()
	w.planPreempt()
	w.arm()
	p := w.NewProc("world", "world")
	w.mainTask = w.newTask(p, "main", mainFn)
	w.runTask(w.mainTask)
	<-w.done
	w.finalNow = w.now
	w.tearing = true
	for _, p := range w.procs {
		if !p.Dead && p.Kind != "world" {
			p.Dead = true
			p.Reason = "end"
		}
	}
	var ids []int
	for id := range w.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if t := w.tasks[id]; t != nil {
			w.reap(t)
		}
	}
	w.yields += w.yArmed - YC
	YC = 1 << 60
	w.yArmed = YC
	seldom = [nSites]uint8{}
	cur = nil
	W = nil
	w.FS.release()
	releaseMem()
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("ZSIM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type termHandler struct {
	key any
	f   func()
}

// OnTerm sets what happens on SIGTERM for key (a channel or context), or nothing
// more if f is nil.
func (p *Proc) OnTerm(key any, f func()) {
	var hs []termHandler
	for _, h := range p.SigTerm {
		if h.key != key {
			hs = append(hs, h)
		}
	}
	if f != nil {
		hs = append(hs, termHandler{key, f})
		p.SigIgn = false
	}
	p.SigTerm = hs
}

// ResetTerm goes back to what SIGTERM does by itself.
func (p *Proc) ResetTerm() { p.SigTerm, p.SigIgn = nil, false }
