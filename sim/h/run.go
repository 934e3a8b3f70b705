//go:build go1.22

package h

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/hound-search/hound/zsim"
)

// Programs under test, set by the command.
var (
	HounddMain func()
	HoundMain  func()
)

const ms = int64(1e6)

// Violation is a property found broken.
type Violation struct {
	Class string `json:"class"`
	Sig   string `json:"sig"` // what identifies it across runs
	Msg   string `json:"msg"`
	At    int64  `json:"at_ms"`
}

// Run is a run in progress.
type Run struct {
	W          *zsim.World
	P          *Plan
	R          *Remotes
	Viol       []*Violation
	vseen      map[string]bool
	srv        *Srv
	cliRestore func()
	srvN       int
	tick       int64
	cache      *refCache
	locals     map[string]*Local
	rules      []*FaultRule
	kill       *KillRule
	db         string
	conf       *Conf

	idxFaultTick int64 // last time a fault hit an index file
	faultTick    int64 // last time any storage fault was injected
	damaged      bool
	starts       []int64 // when servers were started
	secrets      []string
	srvTree      map[string]map[string]string // watched outside trees
	builds       map[int]string               // task to the index directory it fills
	overloads    []*overload
	idxMade      []string
	maxBusy      int
	overSeen     bool
	actors       int
	actorQ       zsim.WaitQ
	Stats        map[string]int64
	obsHash      uint64
	settling     bool
	busyWatch    int
	powered      bool
	reCache      map[string]*regexp.Regexp
	mcache       map[SOpts]*matcher
	baseTasks    int
	CliRuns      int
	Samples      []string
	addr         string
	port         string
	healthURI    string
	planted      map[string]string
}

// Srv is one run of the server.
type Srv struct {
	N         int
	Proc      *zsim.Proc
	Conf      *Conf
	Start     int64
	delayed   int64 // of the world at the start
	StartTick int64
	Ready     bool
	ReadyTick int64 // when a normal answer had been received
	Served    map[string]bool
	Doomed    bool // it is meant to end
	Term      bool
	lb        map[string][]*seenPos
	pushes    []*pushRec
	troubled  map[string]bool // repositories that had trouble during start-up
	diskBad   bool            // storage faults during start-up
	pre       []*idxInfo
	preTip    map[string]string
	preLocal  map[string]int
	exitSeen  bool
	inflight  int
	mayFail   bool
	termAt    int64
	readyAt   int64
	firstIdx  int
	tmpPre    map[string]bool // files that were in the temporary directory
	began     bool            // it has begun to work on repositories
	updates   int             // requests to update
}

// overload is a moment at which too much seemed to go on at once; it counts if each of the index
// builds goes on afterwards.
type overload struct {
	what  string
	tasks map[int]bool
}

type seenPos struct {
	tick int64
	pos  int
}

type pushRec struct {
	repo string
	tick int64
	at   int64
	done bool
}

// Local is a folder on the server's machine.
type Local struct {
	Path  string
	Snaps []map[string]*FileSpec
	Ticks []int64
}

func (r *Run) next() int64 { r.tick++; return r.tick }

func (r *Run) stat(k string) { r.Stats[k]++ }

// violate records a violation.
func (r *Run) violate(class, sig, f string, a ...interface{}) {
	k := class + "\x00" + sig
	if r.vseen[k] {
		return
	}
	r.vseen[k] = true
	v := &Violation{Class: class, Sig: sig, Msg: fmt.Sprintf(f, a...), At: r.W.Now() / ms}
	r.Viol = append(r.Viol, v)
	r.W.Log("VIOLATION %s [%s]: %s", class, sig, v.Msg)
}

func (r *Run) observe(s string) { r.obsHash = zsim.Hash64(s, r.obsHash) }

// NewRun prepares a run of the plan.
func NewRun(p *Plan, dec zsim.Decisions) *Run {
	w := zsim.NewWorld(p.Seed, p.Sched, dec)
	r := &Run{W: w, P: p, cache: newRefCache(), vseen: map[string]bool{}, locals: map[string]*Local{}, builds: map[int]string{},
		Stats: map[string]int64{}, srvTree: map[string]map[string]string{}, reCache: map[string]*regexp.Regexp{}, mcache: map[SOpts]*matcher{}, obsHash: 1}
	r.R = NewRemotes(w)
	r.R.On = func(o *VcsOp) {
		o.StartSeq = r.next()
		r.checkBusy()
	}
	w.FaultsF = r.faultF
	w.KillF = r.killF
	w.OpHook = r.opHook
	w.BlockF = func(task int, why string) {
		// a searcher waiting for its next update or its turn is not indexing
		if r.builds[task] != "" && (strings.HasPrefix(why, "select") || strings.HasPrefix(why, "chan send")) {
			r.buildEnded(task)
		}
	}
	w.OnExit = r.onExit
	w.FS.PowerLoss = p.Power
	w.FS.Cap = p.DiskCap
	w.Net.RoundTripF = nil
	r.port = "6080"
	return r
}

func (r *Run) re(s string) *regexp.Regexp {
	x := r.reCache[s]
	if x == nil {
		x = regexp.MustCompile(s)
		r.reCache[s] = x
	}
	return x
}

// Execute runs the plan to its end.
func (r *Run) Execute() {
	r.W.Run(func() {
		r.setup()
		for _, s := range r.P.Steps {
			r.step(s)
		}
		r.joinActors(3600e9)
	})
	if k := r.W.StopKind(); k != "" {
		why := r.W.Stopped()
		if k == "budget" {
			r.Stats["budget"]++
		} else {
			r.violate(k, k, "%s", why)
		}
	}
}

func (r *Run) setup() {
	w := r.W
	w.FS.PutDir("/tmp")
	w.FS.PutDir("/root")
	w.FS.PutDir("/etc/hound")
	w.FS.Put("/outside/secret.txt", []byte("outside foo\n"), 0o644)
	w.FS.Put("/etc/passwd", []byte("root:x:0:0:foo\n"), 0o644)
	for _, s := range r.P.Remotes {
		m := r.R.Add(s.URL, s.Kind)
		m.User, m.Pass = s.User, s.Pass
		if s.Head != "" && s.Head != "master" {
			m.SetHead(s.Head)
		}
		for _, b := range sortedKeys(s.Branches) {
			m.Commit(b, specMap(s.Branches[b]))
		}
	}
	for _, l := range r.P.Locals {
		if l.Link != "" {
			w.FS.PutLink(l.Path, l.Link)
			continue
		}
		lo := &Local{Path: l.Path}
		r.locals[l.Path] = lo
		w.FS.PutDir(l.Path)
		fm := specMap(l.Files)
		for _, p := range sortedKeys(fm) {
			r.putLocal(l.Path, fm[p])
		}
		lo.Snaps = append(lo.Snaps, fm)
		lo.Ticks = append(lo.Ticks, r.next())
	}
	r.snapOutside()
	for _, c := range r.P.Confs {
		r.secrets = append(r.secrets, c.Secrets...)
	}
}

func specMap(fs []*FileSpec) map[string]*FileSpec {
	m := map[string]*FileSpec{}
	for _, f := range fs {
		m[f.Path] = f
	}
	return m
}

func (r *Run) putLocal(root string, f *FileSpec) {
	p := root + "/" + f.Path
	if r.W.FS.Node(p) != nil {
		r.W.FS.Del(p)
	}
	switch {
	case f.Kind == "dir":
		r.W.FS.PutDir(p)
	case f.Link != "":
		r.W.FS.PutLink(p, f.Link)
	case f.Kind == "fifo":
		r.W.FS.Put(p, nil, 0x2000000|0o644) // fs.ModeNamedPipe
	default:
		n := r.W.FS.Put(p, f.Content(), 0o644)
		if f.Kind == "noread" {
			n.SetUnreadable(true)
		}
	}
}

// snapOutside notes what the world outside the data directory looks like.
func (r *Run) snapOutside() {
	for _, d := range []string{"/srv", "/etc", "/outside", "/root"} {
		r.srvTree[d] = r.W.FS.Tree(d)
	}
}

// ---------------------------------------------------------------- hooks

var idxDirRE = regexp.MustCompile(`/idx-[0-9a-f]+(/|$)`)
var idxMkRE = regexp.MustCompile(`/idx-[0-9a-f]+(/raw)?$`)

func hasWord(list, w string) bool {
	for _, x := range strings.Fields(list) {
		if x == w {
			return true
		}
	}
	return false
}

func (r *Run) isSrv(o *zsim.Op) bool { return r.srv != nil && o.Root == r.srv.Proc }

func errOf(s string) error {
	switch s {
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EMFILE":
		return syscall.EMFILE
	case "ENOMEM":
		return syscall.ENOMEM
	case "EROFS":
		return syscall.EROFS
	case "EPIPE":
		return syscall.EPIPE
	case "ENOTEMPTY":
		return syscall.ENOTEMPTY
	}
	return nil
}

func (r *Run) faultF(o *zsim.Op) zsim.Fault {
	if !r.isSrv(o) {
		return zsim.Fault{}
	}
	// observations
	task := zsim.Cur().ID()
	if o.Kind == "exec" || strings.HasPrefix(o.Path, r.db+"/") {
		r.srv.began = true
	}
	switch o.Kind {
	case "mkdir":
		if idxMkRE.MatchString(o.Path) {
			r.buildEnded(task)
			r.builds[task] = o.Path
			r.checkBusy()
		}
	case "write", "create", "sync":
		if d := r.builds[task]; d != "" && strings.HasPrefix(o.Path, d+"/") {
			for _, l := range r.overloads {
				if l.tasks[task] {
					delete(l.tasks, task)
					if len(l.tasks) == 0 && l.what != "" {
						r.violate("over-limit", "over-limit", "%s", l.what)
						l.what = ""
					}
				}
			}
		}
	case "close":
		if strings.HasSuffix(o.Path, "/metadata.gob") {
			r.buildEnded(task)
		}
	case "exec":
		r.buildEnded(task)
	case "remove":
		if o.Path == r.builds[task] {
			r.buildEnded(task)
		}
	}
	for _, f := range r.rules {
		if !hasWord(f.Kinds, o.Kind) {
			continue
		}
		if f.Who == "srv" && o.Proc != r.srv.Proc || f.Who == "vcs" && o.Proc == r.srv.Proc {
			continue
		}
		if f.Path != "" && !r.re(f.Path).MatchString(o.Path) {
			continue
		}
		if f.Count > 0 && f.hits >= f.Count && f.Nth == 0 {
			continue
		}
		f.seen++
		hit := false
		switch {
		case f.Nth > 0:
			c := f.Count
			if c == 0 {
				c = 1
			}
			hit = f.seen >= f.Nth && f.seen < f.Nth+c
		case f.P > 0:
			hit = r.W.Decide("fault", func(g *zsim.Rng) int64 {
				if g.Chance(f.P) {
					return 1
				}
				return 0
			}) != 0
		default:
			hit = true
		}
		if !hit {
			continue
		}
		f.hits++
		kind := "io-" + o.Kind + "-" + f.Err
		ft := zsim.Fault{Err: errOf(f.Err), Kind: kind}
		if f.Short {
			if o.N <= 1 {
				continue
			}
			ft.Short = 1 + r.W.Choose("short", o.N-1)
			ft.Kind = "io-short-" + o.Kind
			if o.Kind == "read" {
				ft.Err = nil
				return ft // a short read is no error
			}
		}
		r.faultTick = r.next()
		switch o.Kind {
		case "write", "create", "read", "sync":
		default:
			r.Stats["rm-faults"]++
		}
		if idxDirRE.MatchString(o.Path) {
			r.idxFaultTick = r.tick
		}
		if !r.srv.Ready {
			r.srv.diskBad = true
		}
		return ft
	}
	return zsim.Fault{}
}

func (r *Run) killF(o *zsim.Op) int {
	k := r.kill
	if k == nil || k.Kinds == "" || !r.isSrv(o) {
		return -1
	}
	if !hasWord(k.Kinds, o.Kind) && k.Kinds != "any" {
		return -1
	}
	if k.Path != "" && !r.re(k.Path).MatchString(o.Path) {
		return -1
	}
	k.seen++
	if k.seen < k.Nth {
		return -1
	}
	r.kill = nil
	r.srv.Doomed = true
	return k.Part
}

func (r *Run) opHook(o *zsim.Op) {
	if !r.isSrv(o) {
		return
	}
	p := path.Clean(o.Path)
	if o.Kind == "mkdir" && idxMkRE.MatchString(p) && !strings.HasSuffix(p, "/raw") {
		r.idxMade = append(r.idxMade, p)
	}
	if !inside(p, r.db) && !inside(p, "/tmp") {
		if o.Kind == "mkdir" && strings.HasPrefix(r.db+"/", p+"/") {
			return
		}
		r.violate("outside-write", o.Kind+" "+path.Dir(p), "the server did %s on %s, outside its data directory %s and /tmp", o.Kind, o.Path, r.db)
	}
}

func inside(p, d string) bool { return d != "" && (p == d || strings.HasPrefix(p, d+"/")) }

// topFrame is the function a stack trace starts in.
func topFrame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "github.com/hound-search/hound/"); i == 0 {
			l = strings.TrimPrefix(l, "github.com/hound-search/hound/")
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "?"
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (r *Run) onExit(p *zsim.Proc) {
	if r.srv == nil || p != r.srv.Proc {
		return
	}
	r.next()
	r.builds = map[int]string{}
	r.overloads = nil
	if r.srv.Doomed && (p.Reason == "killed" || p.Reason == "end") {
		return
	}
	if r.srv.Term {
		if p.Reason == "exit" && p.Code == 0 {
			return
		}
	}
	if p.Reason == "killed" || p.Reason == "end" {
		return
	}
	if r.srv.Term && p.Reason == "sigterm" && !r.srv.began {
		// it was still reading its configuration
		return
	}
	r.stat("server-died")
	if r.srv.mayFail {
		return
	}
	msg := firstLine(p.Stack)
	r.violate("srv-died", p.Reason+" in "+topFrame(p.Stack), "the server ended by itself: %s (code %d) %s\n%s\nlast output: %s", p.Reason, p.Code, msg, p.Stack, tail(string(p.Err), 600))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// busy lists what is being cloned, pulled or indexed.
func (r *Run) busy() []string {
	var out []string
	dirs := map[string]bool{}
	for i := len(r.R.Ops) - 1; i >= 0 && i >= len(r.R.Ops)-200; i-- {
		o := r.R.Ops[i]
		if o.Live() && r.srv != nil && !dirs[o.Dir] && o.Proc.Kind == "child" {
			dirs[o.Dir] = true
			out = append(out, o.Prog+" "+o.Sub+" "+o.Dir)
		}
	}
	if r.srv != nil && len(r.builds) > 0 {
		st := r.srv.Proc.TaskStates()
		var ids []int
		for id := range r.builds {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if _, ok := st[id]; !ok {
				delete(r.builds, id)
				continue
			}
			out = append(out, fmt.Sprintf("index build by task %d", id))
		}
	}
	return out
}

// buildEnded notes that a task fills no index directory any more. What had counted on it going on is void.
func (r *Run) buildEnded(task int) {
	if r.builds[task] == "" {
		return
	}
	delete(r.builds, task)
	keep := r.overloads[:0]
	for _, l := range r.overloads {
		if !l.tasks[task] && l.what != "" {
			keep = append(keep, l)
		}
	}
	r.overloads = keep
}

func (r *Run) checkBusy() {
	if r.srv == nil || r.srv.Proc.Dead {
		return
	}
	b := r.busy()
	if len(b) > r.maxBusy {
		r.maxBusy = len(b)
	}
	if len(b) > r.busyWatch {
		r.busyWatch = len(b)
	}
	lim := r.srv.Conf.MaxIdx
	if lim == 0 {
		lim = 2
	}
	if len(b) > lim {
		l := &overload{what: fmt.Sprintf("%d updates run at once with max-concurrent-indexers %d: %s", len(b), lim, strings.Join(b, "; ")), tasks: map[int]bool{}}
		for id := range r.builds {
			l.tasks[id] = true
		}
		if len(l.tasks) == 0 {
			r.violate("over-limit", "over-limit", "%s", l.what)
		} else if len(r.overloads) < 100 {
			r.overloads = append(r.overloads, l)
		}
	}
}

// ---------------------------------------------------------------- steps

func (r *Run) step(s *Step) {
	w := r.W
	if s.Op != "search" {
		w.Log("step %s %s", s.Op, s.URL+s.Repo+s.Path)
	}
	switch s.Op {
	case "sleep":
		w.Sleep(s.D * ms)
	case "start":
		r.start(s.Conf, s)
	case "ready":
		r.waitReady(s.D)
	case "commit", "rewrite":
		r.commit(s)
	case "force": // move the branch back to the N-th commit in its history
		if m := r.R.ByURL[s.URL]; m != nil {
			var revs []string
			for _, e := range m.Log {
				if e.Branch == s.Branch && e.Rev != "" {
					revs = append(revs, e.Rev)
				}
			}
			if n := s.N; len(revs) > 0 && (m.Branches[s.Branch] != nil || m.MayExist(s.Branch)) {
				r.next()
				if n < 0 { // counted from the newest one
					n = max2(0, len(revs)-1+n)
				}
				m.SetTip(s.Branch, m.Commits[revs[n%len(revs)]])
			}
		}
	case "head":
		if m := r.R.ByURL[s.URL]; m != nil && m.Branches[s.Branch] != nil {
			r.next()
			m.SetHead(s.Branch)
		}
	case "rename": // a branch (the default one if none is named) gets another name
		if m := r.R.ByURL[s.URL]; m != nil {
			r.next()
			from, to := s.Branch, s.Path
			if from == "" {
				from = m.Head
			}
			switch to {
			case "": // of the directory that it is in, or the other way round
				if to = path.Dir(from); to == "." {
					to = from + "/1"
				}
			case "/":
				to = from + "/next"
			}
			if m.Rename(from, to) {
				w.Log("upstream %s renames %s to %s", s.URL, from, to)
			}
		}
	case "remote":
		if m := r.R.ByURL[s.URL]; m != nil {
			if s.Mode != "slow" && s.Mode != "up" {
				m.Faulty = true
			}
			switch s.Mode {
			case "down":
				m.Down = true
			case "up":
				m.Down = false
			case "slow":
				m.Slow = s.D * ms
			case "hang":
				m.HangNext = s.D * ms
			case "blip":
				m.Blip += max2(1, s.N)
			case "fail":
				m.FailNext += max2(1, s.N)
			case "norev":
				m.NoRev += max2(1, s.N)
			case "badrev":
				m.BadRev += max2(1, s.N)
			}
			if r.srv != nil && !r.srv.Ready && s.Mode != "up" && s.Mode != "slow" {
				for _, c := range r.srv.Conf.Repos {
					if c.URL == s.URL {
						r.srv.troubled[c.Name] = true
					}
				}
			}
		}
	case "local":
		r.editLocal(s)
	case "fault":
		f := *s.Fault
		r.rules = append(r.rules, &f)
	case "nofault":
		r.rules = nil
	case "kill":
		if s.Kill == nil {
			r.killNow()
		} else {
			k := *s.Kill
			if r.srv != nil && !r.srv.Proc.Dead {
				switch {
				case k.Stmts > 0:
					r.srv.Doomed = true
					r.srv.Proc.SetKillY(k.Stmts)
				case k.Ops > 0:
					r.srv.Doomed = true
					r.srv.Proc.KillOp = r.srv.Proc.Ops + k.Ops
					r.srv.Proc.KillPart = k.Part
				default:
					r.kill = &k
				}
			}
		}
	case "awaitdeath":
		if r.srv != nil {
			r.srv.Proc.WaitExit(s.D * ms)
		}
	case "restart":
		r.killNow()
		r.start(s.Conf, s)
	case "term":
		r.term(s)
	case "actor":
		r.actor(s)
	case "join":
		r.joinActors(s.D * ms)
	case "settle":
		r.settle(s)
	case "search":
		r.search(s.Q, s.Slow)
	case "searches":
		for i := 0; i < max2(1, s.N); i++ {
			r.search(s.Q, s.Slow)
			if s.D > 0 {
				w.Sleep(s.D * ms)
			}
		}
	case "pages":
		r.pages(s)
	case "excludes":
		r.excludes(s.Repo)
	case "repos":
		r.repos()
	case "update":
		r.update(s)
	case "webhook":
		r.webhook(s)
	case "health":
		r.health(s)
	case "get":
		r.rawGet(s)
	case "title":
		r.title()
	case "polls":
		r.polls()
	case "clock":
		w.JumpClock(s.D * ms)
	case "power":
		r.power()
	case "damage":
		r.damage(s)
	case "plant":
		r.plant(s)
	case "cli":
		r.cli(s)
	case "concur":
		r.concur(s)
	case "baseline":
		r.baseTasks = r.idleTasks()
	case "noleak":
		r.noLeak()
	default:
		panic("unknown step " + s.Op)
	}
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (r *Run) commit(s *Step) {
	m := r.R.ByURL[s.URL]
	if m == nil {
		return
	}
	b := s.Branch
	if b == "" {
		b = m.Head
	}
	if m.Branches[b] == nil && !m.MayExist(b) {
		b = m.Head
	}
	files := map[string]*FileSpec{}
	if t := m.Branches[b]; t != nil && s.Op != "rewrite" {
		for p, f := range t.Files {
			files[p] = f
		}
	}
	for _, p := range s.Del {
		delete(files, p)
	}
	for _, f := range s.Set {
		have := map[string]bool{}
		for p := range files {
			if p != f.Path {
				have[p] = true
			}
		}
		if conflict(have, f.Path) {
			continue
		}
		files[f.Path] = f
	}
	r.next()
	c := m.Commit(b, files)
	r.W.Log("upstream %s %s -> %s", s.URL, b, c.Rev)
}

func (r *Run) editLocal(s *Step) {
	lo := r.localAt(s.Path)
	if lo == nil {
		return
	}
	fm := map[string]*FileSpec{}
	for p, f := range lo.Snaps[len(lo.Snaps)-1] {
		fm[p] = f
	}
	if s.Mode == "revert" { // as it was N changes ago
		old := lo.Snaps[max2(0, len(lo.Snaps)-1-max2(1, s.N))]
		c := *s
		s = &c
		for _, p := range sortedKeys(fm) {
			if old[p] == nil {
				s.Del = append(s.Del, p)
			}
		}
		for _, p := range sortedKeys(old) {
			if fm[p] != old[p] {
				s.Set = append(s.Set, old[p])
			}
		}
	}
	for _, p := range s.Del {
		if fm[p] != nil {
			delete(fm, p)
			r.W.FS.Del(lo.Path + "/" + p)
		}
	}
	for _, f := range s.Set {
		have := map[string]bool{}
		for p := range fm {
			if p != f.Path {
				have[p] = true
			}
		}
		if conflict(have, f.Path) || r.W.FS.Node(lo.Path+"/"+f.Path) != nil && r.W.FS.Node(lo.Path+"/"+f.Path).IsDir() {
			continue
		}
		bad := false
		for d := path.Dir(f.Path); d != "."; d = path.Dir(d) {
			if n := r.W.FS.Node(lo.Path + "/" + d); n != nil && !n.IsDir() {
				bad = true
			}
		}
		if bad {
			continue
		}
		fm[f.Path] = f
		r.putLocal(lo.Path, f)
	}
	lo.Snaps = append(lo.Snaps, fm)
	lo.Ticks = append(lo.Ticks, r.next())
	if r.srv != nil && !r.srv.Ready {
		// a folder changing while it is read for the first time may be left out
		for _, c := range r.srv.Conf.Repos {
			if kindOf(c) == "local" && r.localOf(c) == lo {
				r.srv.troubled[c.Name] = true
			}
		}
	}
	r.snapOutside()
}

// ---------------------------------------------------------------- the server

func cliPkg(p string) bool {
	return strings.HasSuffix(p, "/cmds/hound") || strings.HasSuffix(p, "/prog/hound") || strings.HasSuffix(p, "/client") || strings.HasSuffix(p, "/ansi")
}

func (r *Run) start(ci int, s *Step) {
	w := r.W
	if r.srv != nil && !r.srv.Proc.Dead {
		r.killNow()
	}
	c := r.P.Confs[ci%len(r.P.Confs)]
	r.conf = c
	r.db = c.db()
	w.FS.Put("/etc/hound/config.json", c.JSON(), 0o644)
	r.snapOutside()
	sv := &Srv{N: r.srvN + 1, Conf: c, Start: w.Now(), delayed: w.Delayed(), StartTick: r.next(), lb: map[string][]*seenPos{}, troubled: map[string]bool{}, preTip: map[string]string{}, preLocal: map[string]int{}}
	r.srvN++
	r.starts = append(r.starts, sv.StartTick)
	for _, rc := range c.Repos {
		if m := r.R.ByURL[rc.URL]; m != nil {
			if m.Down || m.Blip > 0 || m.FailNext > 0 || m.NoRev > 0 || m.BadRev > 0 {
				sv.troubled[rc.Name] = true
			}
			sv.preTip[rc.Name] = m.tip(r.targetOf(rc, m))
		}
	}
	sv.pre = r.idxDirs()
	sv.firstIdx = len(r.idxMade)
	sv.tmpPre = map[string]bool{}
	if n := w.FS.NodeF("/tmp"); n != nil {
		for _, k := range n.Names() {
			sv.tmpPre[k] = true
		}
	}
	if len(r.rules) > 0 && s.Mode == "mayfail" {
		sv.mayFail = true
	}
	p := w.NewProc("houndd", "prog")
	sv.Proc = p
	r.srv = sv
	r.baseTasks = 0
	p.Args = []string{"houndd", "-conf", "/etc/hound/config.json"}
	p.Env = map[string]string{"HOME": "/root", "PATH": "/usr/bin"}
	zsim.ResetPackages(func(pkg string) bool { return !cliPkg(pkg) })
	r.healthURI = c.Health
	if r.healthURI == "" {
		r.healthURI = "/healthz"
	}
	p.Spawn("main", HounddMain)
	r.stat("server-starts")
	if !s.NoWait {
		r.waitReady(0)
	}
}

func (r *Run) up() bool { return r.srv != nil && !r.srv.Proc.Dead }

// waitReady polls until the server serves normally.
func (r *Run) waitReady(d int64) {
	if d == 0 {
		d = 900000
	}
	end := r.W.Now() + d*ms
	for r.up() && !r.srv.Ready {
		r.repos()
		if !r.up() || r.srv.Ready {
			break
		}
		if r.W.Now() > end {
			if !r.srv.mayFail {
				r.violate("not-ready", "not-ready", "the server is not ready %d s after its start; tasks: %v", (r.W.Now()-r.srv.Start)/1e9, r.srv.Proc.TaskStates())
			}
			return
		}
		r.W.Sleep(200 * ms)
	}
}

func (r *Run) killNow() {
	if r.up() {
		r.srv.Doomed = true
		r.W.CountFault("kill")
		r.srv.Proc.Kill()
	}
	r.kill = nil
}

func (r *Run) power() {
	r.killNow()
	r.W.FS.PowerOff()
	r.powered = true
	r.W.CountFault("power-failure")
}

// term asks the server to end and checks that it does.
func (r *Run) term(s *Step) {
	if !r.up() {
		return
	}
	sv := r.srv
	wasReady := sv.Ready
	sv.Term = true
	sv.termAt = r.W.Now()
	sv.Proc.Signal()
	r.stat("sigterm")
	if s.NoWait {
		return
	}
	d := s.D
	if d == 0 {
		d = 600000
	}
	if !sv.Proc.WaitExit(d * ms) {
		r.violate("term-hang", "term-hang", "%d s after SIGTERM (ready: %v) the server has not ended; tasks: %v", d/1000, wasReady, sv.Proc.TaskStates())
		r.killNow()
		return
	}
	p := sv.Proc
	if sv.Doomed {
		return
	}
	if p.Code != 0 && !(p.Reason == "sigterm" && !sv.began) {
		r.violate("term-code", fmt.Sprintf("%s %d", p.Reason, p.Code), "after SIGTERM the server ended with %s, code %d", p.Reason, p.Code)
	}
	if s.Mode == "ready" {
		// it was idle: every index directory must be complete
		for _, i := range r.idxDirs() {
			if !i.Complete && r.faultTick == 0 {
				r.violate("incomplete-after-term", "incomplete-after-term", "after a graceful shutdown %s is incomplete: %s", i.Dir, i.Why)
			}
		}
	}
}

// ---------------------------------------------------------------- index directories

type idxInfo struct {
	Dir      string
	URL, Rev string
	Complete bool
	Why      string
	tri      *zsim.Inode
	man      string // the manifest
}

func (r *Run) idxDirs() []*idxInfo {
	var out []*idxInfo
	n := r.W.FS.NodeF(r.db)
	if n == nil || !n.IsDir() {
		return nil
	}
	for _, k := range n.Names() {
		if !strings.HasPrefix(k, "idx-") {
			continue
		}
		i := &idxInfo{Dir: r.db + "/" + k}
		out = append(out, i)
		d := n.Kid(k)
		if !d.IsDir() {
			i.Why = "not a directory"
			continue
		}
		mf := d.Kid("metadata.gob")
		if mf == nil {
			i.Why = "no manifest"
			continue
		}
		var man struct {
			Url, Rev string
			Time     time.Time
		}
		if err := gob.NewDecoder(bytes.NewReader(mf.Data())).Decode(&man); err != nil {
			i.Why = "bad manifest: " + err.Error()
			continue
		}
		i.URL, i.Rev = man.Url, man.Rev
		if d.Kid("tri") == nil || d.Kid("raw") == nil || d.Kid("excluded_files.json") == nil {
			i.Why = "files missing"
			continue
		}
		if t := d.Kid("tri").Data(); !bytes.HasSuffix(t, []byte("\ncsearch trailr\n")) {
			i.Why = fmt.Sprintf("trigram file cut short (%d bytes)", len(t))
			continue
		}
		if i.Rev == "" {
			i.Why = "no revision"
			continue
		}
		i.Complete = true
		i.tri, i.man = d.Kid("tri"), string(mf.Data())
	}
	return out
}

// ---------------------------------------------------------------- upstream truth

// targetOf is the branch a repository follows, as a function of the default branch.
func (r *Run) targetOf(rc *RepoConf, m *Remote) func(head string) string {
	switch m.Kind {
	case "git":
		if rc.Ref != "" {
			return func(string) string { return rc.Ref }
		}
		if rc.Detect {
			return func(h string) string {
				if !m.had(h) {
					return "master" // there is no default branch to be told
				}
				return h
			}
		}
		return func(string) string { return "master" }
	}
	return func(h string) string { return h }
}

// history is the sequence of tips of the followed branch, one entry per event.
func (m *Remote) history(target func(string) string) []string {
	tips := map[string]string{}
	head := "master"
	var out []string
	last := ""
	for _, e := range m.Log {
		if e.Head != "" {
			head = e.Head
		} else {
			tips[e.Branch] = e.Rev
		}
		if t := tips[target(head)]; t != "" {
			last = t
		}
		out = append(out, last)
	}
	return out
}

// had reports whether there ever was such a branch.
func (m *Remote) had(b string) bool {
	for _, e := range m.Log {
		if e.Branch == b && e.Rev != "" {
			return true
		}
	}
	return false
}

// defaults is what was at one time or another the tip of a branch that is or was the default.
func (m *Remote) defaults() []string {
	heads := map[string]bool{"master": true}
	for i, e := range m.Log {
		if e.Head != "" {
			if i == 0 && m.had(e.Head) {
				delete(heads, "master") // it never was
			}
			heads[e.Head] = true
		}
	}
	var out []string
	for _, e := range m.Log {
		if e.Head == "" && heads[e.Branch] {
			out = append(out, e.Rev)
		}
	}
	return out
}

// guessed reports whether a server may have had to guess the default branch: the
// first time that it asked in its life, it was not told.
func (r *Run) guessed(sv *Srv, rc *RepoConf, m *Remote) bool {
	if !r.onlyEntry(sv, rc) {
		return true
	}
	srv := -1
	for _, o := range r.R.Ops {
		if o.URL != m.URL || o.Sub != "remote" {
			continue
		}
		n := 0
		for n < len(r.starts) && r.starts[n] < o.StartSeq {
			n++
		}
		if n != srv && (o.Code != 0 || o.Untold) {
			return true
		}
		srv = n
	}
	return false
}

func (m *Remote) tip(target func(string) string) string {
	h := m.history(target)
	if len(h) == 0 {
		return ""
	}
	return h[len(h)-1]
}

func (r *Run) optsOf(rc *RepoConf, kind string) IdxOpts {
	o := IdxOpts{DotEx: rc.DotEx}
	switch kind {
	case "git":
		o.Special = []string{".git"}
	case "hg":
		o.Special = []string{".hg"}
	case "svn":
		o.Special = []string{".svn"}
	case "bzr":
		o.Special = []string{".bzr"}
	case "local":
		o.Special = rc.Ignored
	}
	return o
}

func kindOf(rc *RepoConf) string {
	switch rc.Vcs {
	case "":
		return "git"
	case "mercurial":
		return "hg"
	case "subversion":
		return "svn"
	}
	return rc.Vcs
}

func (r *Run) localOf(rc *RepoConf) *Local {
	return r.localAt(strings.TrimPrefix(rc.URL, "file://"))
}

func (r *Run) localAt(p string) *Local {
	for i := 0; i < 4; i++ {
		if lo := r.locals[p]; lo != nil {
			return lo
		}
		n := r.W.FS.Node(p)
		if n == nil || n.Target() == "" {
			return nil
		}
		t := n.Target()
		if t[0] != '/' {
			t = path.Join(path.Dir(p), t)
		}
		p = path.Clean(t)
	}
	return nil
}

// commitIndex is the reference index of a revision for a repository.
func (r *Run) commitIndex(rc *RepoConf, m *Remote, rev string) *RefIndex {
	c := m.Commits[rev]
	if c == nil {
		return nil
	}
	return r.cache.index(m.URL+"@"+rev, c.Files, r.optsOf(rc, m.Kind))
}

func (r *Run) snapIndex(rc *RepoConf, lo *Local, i int) *RefIndex {
	return r.cache.index(fmt.Sprintf("%s@%d", lo.Path, i), lo.Snaps[i], r.optsOf(rc, "local"))
}

// ---------------------------------------------------------------- requests

func (r *Run) do(method, uri string, form url.Values, body string, slow int64) (*zsim.Response, *Srv, int64) {
	sv := r.srv
	u := "http://localhost:" + r.port + uri
	var rd io.Reader
	if form != nil && method != "POST" {
		u += "?" + form.Encode()
	} else if form != nil {
		body = form.Encode()
	}
	if body != "" {
		rd = strings.NewReader(body)
	}
	req, err := http.NewRequest(method, u, rd)
	if err != nil {
		return &zsim.Response{Err: err}, sv, r.next()
	}
	if form != nil && method == "POST" {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	st := r.next()
	if sv != nil {
		sv.inflight++
	}
	res := r.W.Net.Do(r.port, req, slow*ms, 1800e9)
	if sv != nil {
		sv.inflight--
	}
	r.next()
	r.stat("requests")
	r.observe(fmt.Sprintf("%s %s %d %d %v %d", method, uri, res.Status, len(res.Body), res.Err, r.W.Now()))
	if res.Err == nil {
		r.scanSecrets(uri, res)
	}
	return res, sv, st
}

func (r *Run) scanSecrets(uri string, res *zsim.Response) {
	if len(r.secrets) == 0 {
		return
	}
	hb := ""
	for k, v := range res.Header {
		hb += k + ": " + strings.Join(v, ",") + "\n"
	}
	for _, s := range r.secrets {
		for _, e := range encodings(s) {
			if bytes.Contains(res.Body, []byte(e)) || strings.Contains(hb, e) {
				r.violate("secret", path.Dir(uri)+" "+firstField(uri), "the answer of %s (status %d) contains %q, part of a vcs-config value", uri, res.Status, e)
				return
			}
		}
	}
}

func firstField(u string) string {
	if i := strings.IndexAny(u, "?&"); i >= 0 {
		return u[:i]
	}
	return u
}

// lost handles an answer that never came; it reports whether there is one.
func (r *Run) lost(what string, res *zsim.Response, sv *Srv, st int64) bool {
	if res.Err == nil {
		return false
	}
	if sv == nil || sv.Proc.Dead || sv != r.srv {
		return true // the server is down: judged where it went down
	}
	if res.Panic != "" {
		fr := panicFrame(string(sv.Proc.Err))
		r.violate("request-crashed", what+" "+fr, "%s: the handler crashed: %s\n%s", what, res.Panic, tail(string(sv.Proc.Err), 1500))
		return true
	}
	if res.Err == zsim.ErrRefused {
		if r.W.Now()-sv.Start > 5e9+r.W.Delayed()-sv.delayed && !sv.mayFail {
			r.violate("request-refused", what, "%s: connection refused %d ms after the start", what, (r.W.Now()-sv.Start)/ms)
		}
		return true
	}
	r.violate("request-stuck", what, "%s: no answer: %v; tasks %v", what, res.Err, sv.Proc.TaskStates())
	return true
}

func panicFrame(out string) string {
	i := strings.LastIndex(out, "http: panic serving")
	if i < 0 {
		return "?"
	}
	return topFrame(out[i:])
}

// gate judges the status of an answer to anything but the health check. It
// reports whether the server served the request normally.
func (r *Run) gate(what string, res *zsim.Response, sv *Srv, st int64) bool {
	if sv != r.srv {
		return false
	}
	if res.Status == 503 {
		r.stat("503")
		if sv.Ready && sv.ReadyTick < st {
			r.violate("ready-back", "ready-back", "%s got 503 although an earlier request had been served", what)
		}
		return false
	}
	if !sv.Ready {
		sv.Ready = true
		sv.ReadyTick = r.tick
		sv.readyAt = r.W.Now()
		r.onReady(sv)
	}
	return true
}

// onReady runs at the first normal answer of a server run.
func (r *Run) onReady(sv *Srv) {
	r.stat("ready")
}

func (r *Run) health(s *Step) {
	m := s.Method
	if m == "" {
		m = "GET"
	}
	res, sv, st := r.do(m, r.healthURI+s.Body, nil, "", 0)
	if r.lost("health check", res, sv, st) {
		return
	}
	r.stat("health")
	if res.Status != 200 || len(res.Body) == 0 && m != "HEAD" {
		r.violate("healthz", fmt.Sprint(res.Status), "the health check answered %d %q", res.Status, clip(string(res.Body)))
	}
}

func (r *Run) rawGet(s *Step) {
	m := s.Method
	if m == "" {
		m = "GET"
	}
	res, sv, st := r.do(m, s.Path, nil, s.Body, s.Slow)
	if r.lost(m+" "+s.Path, res, sv, st) {
		return
	}
	if !r.gate(m+" "+s.Path, res, sv, st) {
		return
	}
	if s.N > 0 && res.Status != s.N {
		r.violate("status", m+" "+s.Path, "%s %s answered %d, want %d (%s)", m, s.Path, res.Status, s.N, clip(string(res.Body)))
	}
}

// mustServe reports whether the repository has to be there after this start.
func (r *Run) mustServe(sv *Srv, rc *RepoConf) bool {
	return !rc.Broken && !sv.troubled[rc.Name] && !sv.diskBad && !sv.mayFail
}

// repos checks the repository list.
func (r *Run) repos() {
	res, sv, st := r.do("GET", "/api/v1/repos", nil, "", 0)
	if r.lost("repository list", res, sv, st) || !r.gate("repository list", res, sv, st) {
		return
	}
	if res.Status != 200 {
		r.violate("repos-wrong", "status", "the repository list answered %d: %s", res.Status, clip(string(res.Body)))
		return
	}
	var m map[string]map[string]interface{}
	if err := json.Unmarshal(res.Body, &m); err != nil {
		r.violate("bad-json", "repos", "the repository list is not JSON: %v: %s", err, clip(string(res.Body)))
		return
	}
	served := map[string]bool{}
	for _, n := range sortedKeys(m) {
		served[n] = true
		rc := sv.Conf.repo(n)
		if rc == nil {
			r.violate("repos-wrong", "foreign", "the repository list contains %q, which is not configured", n)
			continue
		}
		if rc.Broken {
			r.violate("repos-wrong", "broken", "the repository list contains %q, which cannot be served", n)
		}
		if u, _ := m[n]["url"].(string); u != rc.URL {
			r.violate("repos-wrong", "url", "the repository list gives %q the URL %q instead of %q", n, u, rc.URL)
			continue
		}
		// everything the user interface and the client go by
		wants := map[string]interface{}{"display-name": rc.Display, "vcs": or(rc.Vcs, "git"), "ms-between-poll": float64(orI(rc.PollMs, 30000)),
			"exclude-dot-files": rc.DotEx, "url-pattern": map[string]interface{}{"base-url": or(rc.BaseURL, "{url}/blob/{rev}/{path}{anchor}"), "anchor": or(rc.Anchor, "#L{line}")}}
		for _, k := range sortedKeys(wants) {
			want := wants[k]
			if have := m[n][k]; !reflect.DeepEqual(have, want) {
				r.violate("repos-settings", k, "the repository list gives %q the %s %v instead of %v", n, k, have, want)
			}
		}
	}
	for _, rc := range sv.Conf.Repos {
		if !served[rc.Name] && r.mustServe(sv, rc) {
			r.violate("repos-missing", "repos-missing", "repository %q is not in the list although nothing is wrong with it; log: %s", rc.Name, tail(string(sv.Proc.Err), 500))
		}
	}
	if sv.Served == nil {
		sv.Served = served
		for _, rc := range sv.Conf.Repos {
			if !served[rc.Name] {
				r.stat("repo-left-out")
			}
		}
	} else if fmt.Sprint(sv.Served) != fmt.Sprint(served) {
		r.violate("half-ready", "repos", "the repository list changed while the server ran: %v, then %v", sv.Served, served)
	}
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func orI(a, b int) int {
	if a == 0 {
		return b
	}
	return a
}

func (r *Run) served() map[string]bool {
	if r.srv.Served == nil {
		r.repos()
	}
	if r.srv == nil || r.srv.Served == nil {
		return map[string]bool{}
	}
	return r.srv.Served
}

func (q *Query) form() url.Values {
	v := url.Values{"q": {q.Pat}, "repos": {strings.Join(q.Repos, ",")}}
	add := func(k, s string) {
		if s != "" {
			v.Set(k, s)
		}
	}
	add("files", q.Files)
	add("excludeFiles", q.Exclude)
	add("ctx", q.Ctx)
	add("rng", q.Rng)
	add("limit", q.Limit)
	// the ways to say yes and no, picked by the query itself
	k := len(q.Pat) + 3*len(q.Repos) + len(q.Files) + len(q.Ctx)
	flag := func(n string, on bool) {
		k++
		if on {
			v.Set(n, []string{"true", "fosho", "1", "True", "FOSHO"}[k%5])
		} else if k%3 == 0 {
			v.Set(n, []string{"false", "0", "nope", "False"}[k/3%4])
		}
	}
	flag("i", q.I)
	flag("literal", q.Lit)
	flag("stats", q.Stats)
	return v
}

func (q *Query) ctx() int {
	if q.Ctx == "" {
		return 2
	}
	n := 0
	for _, c := range q.Ctx {
		if c < '0' || c > '9' {
			return 2
		}
		n = n*10 + int(c-'0')
	}
	if n > 20 {
		n = 20
	}
	return n
}

func (q *Query) sopts() SOpts {
	return SOpts{Pat: q.Pat, Lit: q.Lit, I: q.I, Files: q.Files, Exclude: q.Exclude}
}

func (r *Run) matcherOf(q *Query) (*matcher, error) {
	o := q.sopts()
	if m := r.mcache[o]; m != nil {
		return m, nil
	}
	m, err := compileQ(o)
	if err == nil {
		r.mcache[o] = m
	}
	return m, err
}

// ask sends the query; ok reports whether there is a normal answer to judge.
func (r *Run) ask(q *Query, slow int64) (res map[string]*JRepo, sv *Srv, st, en int64, ok bool) {
	method := "GET"
	if q.Post {
		method = "POST"
	}
	what := "search"
	t0 := r.W.Now()
	rs, sv, st := r.do(method, "/api/v1/search", q.form(), "", slow)
	if r.lost(what, rs, sv, st) || !r.gate(what, rs, sv, st) {
		return nil, sv, st, 0, false
	}
	en = r.tick
	r.stat("searches")
	if rs.Status != 200 {
		r.violate("search-failed", fmt.Sprintf("status %d", rs.Status), "search %+v answered %d: %s", *q, rs.Status, clip(string(rs.Body)))
		return nil, sv, st, en, false
	}
	var ans struct {
		Error   *string
		Results map[string]*JRepo
		Stats   *struct{ FilesOpened, Duration *int }
	}
	if err := json.Unmarshal(rs.Body, &ans); err != nil {
		r.violate("bad-json", "search", "search %+v: the answer is not JSON: %v: %s", *q, err, clip(string(rs.Body)))
		return nil, sv, st, en, false
	}
	if ans.Error != nil {
		if q.Bad {
			r.stat("bad-queries")
			return nil, sv, st, en, false
		}
		if r.idxFaultTick > st || r.damaged {
			r.stat("search-errors-excused")
			return nil, sv, st, en, false
		}
		r.violate("search-failed", errSig(*ans.Error), "search %+v failed: %s", *q, *ans.Error)
		return nil, sv, st, en, false
	}
	if q.Bad {
		// nothing to refuse if no repository was asked
		sn := r.served()
		for _, n := range q.Repos {
			if sn[n] || n == "*" && len(sn) > 0 {
				r.violate("wrong-answer", "bad-query-accepted", "an invalid expression of %+v was accepted", *q)
				break
			}
		}
		return nil, sv, st, en, false
	}
	// the statistics, if and only if they were asked for
	switch a := ans.Stats; {
	case a == nil && q.Stats:
		r.violate("stats", "missing", "search %+v: no statistics in the answer", *q)
	case a != nil && !q.Stats:
		r.violate("stats", "unasked", "search %+v: statistics nobody asked for", *q)
	case a != nil:
		n := 0
		for _, j := range ans.Results {
			if j != nil {
				n += j.FilesWithMatch
			}
		}
		took := (r.W.Now() - t0) / 1e6
		if a.FilesOpened == nil || a.Duration == nil {
			r.violate("stats", "incomplete", "search %+v: statistics are incomplete: %s", *q, clip(string(rs.Body)))
		} else if *a.FilesOpened < n {
			r.violate("stats", "files", "search %+v: %d files opened to find %d files with matches", *q, *a.FilesOpened, n)
		} else if *a.Duration < 0 || int64(*a.Duration) > took {
			r.violate("stats", "duration", "search %+v: %d ms were spent on it, of %d ms", *q, *a.Duration, took)
		}
		r.stat("statistics-judged")
	}
	return ans.Results, sv, st, en, true
}

var hexRE = regexp.MustCompile(`idx-[0-9a-f]+|vcs-[0-9a-f]+|[0-9a-f]{16,}|\d+`)

func errSig(s string) string {
	s = hexRE.ReplaceAllString(s, "#")
	if i := strings.Index(s, "/raw/"); i >= 0 {
		j := strings.Index(s[i:], ": ")
		if j > 0 {
			s = s[:i] + "/raw/*" + s[i+j:]
		}
	}
	return clip(s)
}

// search makes a request and judges the answer.
func (r *Run) search(q *Query, slow int64) {
	res, sv, st, en, ok := r.ask(q, slow)
	if !ok {
		return
	}
	r.judge(q, res, sv, st, en, true)
}

func (r *Run) asked(q *Query, sv *Srv) []string {
	served := r.served()
	if len(q.Repos) == 1 && strings.TrimSpace(q.Repos[0]) == "*" {
		return sortedKeys(served)
	}
	var out []string
	for _, n := range q.Repos {
		if served[n] && !contains(out, n) {
			out = append(out, n)
		}
	}
	return out
}

// judge compares an answer with the truth. full: no range or limit applies.
func (r *Run) judge(q *Query, res map[string]*JRepo, sv *Srv, st, en int64, full bool) {
	if sv != r.srv {
		return
	}
	m, err := r.matcherOf(q)
	if err != nil {
		r.violate("wrong-answer", "bad-query-accepted", "the invalid expression %q was accepted: %v", q.Pat, err)
		return
	}
	names := r.asked(q, sv)
	for _, n := range sortedKeys(res) {
		if !contains(names, n) {
			r.violate("foreign-repo", "foreign-repo", "search %+v: answer for %q, which was not asked for", *q, n)
		}
	}
	for _, n := range names {
		rc := sv.Conf.repo(n)
		if rc == nil {
			continue
		}
		r.judgeRepo(q, m, rc, res[n], sv, st, en)
	}
	r.stat("answers-judged")
}

func (r *Run) lower(sv *Srv, repo string, st int64) int {
	lb := 0
	for _, s := range sv.lb[repo] {
		if s.tick < st && s.pos > lb {
			lb = s.pos
		}
	}
	return lb
}

func (r *Run) notePos(sv *Srv, repo string, en int64, pos int) {
	l := sv.lb[repo]
	if n := len(l); n > 0 && l[n-1].pos >= pos && l[n-1].tick <= en {
		return
	}
	sv.lb[repo] = append(l, &seenPos{en, pos})
}

func (r *Run) effLimit(q *Query, sv *Srv) int {
	lim := sv.Conf.Limit
	if lim == 0 {
		lim = 5000
	}
	if q.Limit != "" {
		var n int
		var rest string
		if k, _ := fmt.Sscanf(q.Limit, "%d%s", &n, &rest); k == 1 {
			lim = n
		}
		if lim > 100000 {
			lim = 100000
		}
	}
	if lim < 0 {
		lim = 0
	}
	return lim
}

func count(want map[string][]int) int {
	n := 0
	for _, l := range want {
		n += len(l)
	}
	return n
}

// judgeRepo judges one repository's part of an answer (nil: it has none).
func (r *Run) judgeRepo(q *Query, m *matcher, rc *RepoConf, got *JRepo, sv *Srv, st, en int64) {
	limit := r.effLimit(q, sv)
	bounded := func(ri *RefIndex) bool { return limit > 0 && count(ri.search(m)) >= limit }
	cmp := func(ri *RefIndex) string {
		if q.Rng != "" || bounded(ri) {
			return ri.checkPart(m, q, limit, got)
		}
		return ri.checkRepo(m, q.ctx(), got)
	}
	empty := func(ri *RefIndex) bool {
		sure, _ := ri.filesFor(m)
		return q.cut(sure) == 0
	}
	kind := kindOf(rc)
	if kind == "local" {
		lo := r.localOf(rc)
		if lo == nil {
			return
		}
		r.judgeLocal(q, m, rc, lo, got, sv, st, en, cmp, empty)
		return
	}
	rem := r.R.ByURL[rc.URL]
	if rem == nil {
		return
	}
	hist := rem.history(r.targetOf(rc, rem))
	lb := r.lower(sv, rc.Name, st)
	if got == nil {
		for i := lb; i < len(hist); i++ {
			if hist[i] == "" {
				continue
			}
			if ri := r.commitIndex(rc, rem, hist[i]); ri != nil && empty(ri) {
				return
			}
		}
		if rem.Faulty || rc.Detect || r.faultTick > 0 {
			for _, c := range sortedKeys(rem.Commits) {
				if empty(r.commitIndex(rc, rem, c)) {
					return
				}
			}
		}
		r.violate("missing-repo", "missing-repo", "search %+v: no answer for %q although every revision it may be at (%v) has matches", *q, rc.Name, hist[min2(lb, len(hist)):])
		return
	}
	ri := r.commitIndex(rc, rem, got.Revision)
	if ri == nil {
		r.violate("wrong-answer", "unknown-revision", "search %+v: the answer for %q names revision %q, which never existed", *q, rc.Name, got.Revision)
		return
	}
	if s := cmp(ri); s != "" {
		r.violate("wrong-answer", sigOfDiff(s), "search %+v: the answer for %q at %s is wrong: %s", *q, rc.Name, got.Revision, s)
		return
	}
	pos := -1
	for i := lb; i < len(hist); i++ {
		if hist[i] == got.Revision {
			pos = i
			break
		}
	}
	if pos < 0 {
		if contains(hist, got.Revision) {
			r.violate("went-back", "went-back", "search %+v: %q answers from revision %s although an answer that ended before this request was made came from a later one (%v from %d)", *q, rc.Name, got.Revision, hist, lb)
		} else if r.faultTick > 0 {
		} else if rc.Detect && rc.Ref == "" && rem.Kind == "git" && (!rem.Faulty || len(r.P.Confs) == 1) {
			if !r.guessed(sv, rc, rem) && !contains(rem.defaults(), got.Revision) || !rem.Faulty && !contains(rem.defaults(), got.Revision) {
				r.violate("wrong-ref", "wrong-ref detected", "%q answers from revision %s, which was never the tip of a default branch (%v), although the default branch could be told from the beginning", rc.Name, got.Revision, hist)
			}
		} else if !rem.Faulty {
			r.violate("wrong-ref", "wrong-ref", "%q answers from revision %s, which was never the tip of the branch it follows (%v)", rc.Name, got.Revision, hist)
		}
	} else {
		r.notePos(sv, rc.Name, en, pos)
	}
	// marks
	auto := autoSet(rem.Kind, rc.AutoGen, rem.Commits[got.Revision].Files)
	for _, f := range got.Matches {
		if f.AutoGenerated != auto[f.Filename] {
			r.violate("autogen", "autogen", "%q at %s: file %q is marked auto-generated=%v, want %v", rc.Name, got.Revision, f.Filename, f.AutoGenerated, auto[f.Filename])
			break
		}
	}
}

// sigOfDiff makes a difference's description independent of names and numbers.
func sigOfDiff(s string) string {
	s = regexp.MustCompile(`"([^"\\]|\\.)*"`).ReplaceAllString(s, "S")
	s = regexp.MustCompile(`\[[^\]]*\]`).ReplaceAllString(s, "L")
	s = regexp.MustCompile(`\d+`).ReplaceAllString(s, "N")
	return clip(s)
}

func (r *Run) judgeLocal(q *Query, m *matcher, rc *RepoConf, lo *Local, got *JRepo, sv *Srv, st, en int64, cmp func(*RefIndex) string, empty func(*RefIndex) bool) {
	n := len(lo.Snaps)
	if got == nil {
		for i := n - 1; i >= 0; i-- {
			if empty(r.snapIndex(rc, lo, i)) {
				return
			}
		}
		if n > 1 {
			// may have been read while it was changing: a file may be missing
			// only if some version lacks its matches
			all := map[string]int{}
			for i := 0; i < n; i++ {
				for p := range r.snapIndex(rc, lo, i).search(m) {
					all[p]++
				}
			}
			ok := true
			for _, c := range all {
				if c == n {
					ok = false
				}
			}
			if ok {
				return
			}
		}
		r.violate("missing-repo", "missing-repo", "search %+v: no answer for folder %q although every version of it has matches", *q, rc.Name)
		return
	}
	var first string
	for i := n - 1; i >= 0; i-- {
		s := cmp(r.snapIndex(rc, lo, i))
		if s == "" {
			r.checkAutoList(rc, got)
			return
		}
		if first == "" {
			first = s
		}
	}
	if n == 1 {
		r.violate("wrong-answer", "local "+sigOfDiff(first), "search %+v: the answer for folder %q is wrong: %s", *q, rc.Name, first)
		return
	}
	// file by file
	for _, f := range got.Matches {
		ok := false
		var s string
		for i := n - 1; i >= 0 && !ok; i-- {
			ri := r.snapIndex(rc, lo, i)
			w := ri.search(m)[f.Filename]
			if w == nil {
				continue
			}
			if r.effLimit(q, sv) > 0 && len(f.Matches) > 0 && len(f.Matches) < len(w) {
				w = w[:len(f.Matches)]
			}
			if s = checkMatches(ri.Files[f.Filename].Lines, w, q.ctx(), f); s == "" {
				ok = true
			}
		}
		if !ok {
			r.violate("wrong-answer", "local-file "+sigOfDiff(s), "search %+v: folder %q: no version of %q gives this answer: %s", *q, rc.Name, f.Filename, s)
			return
		}
	}
}

func (r *Run) checkAutoList(rc *RepoConf, got *JRepo) {
	for _, f := range got.Matches {
		if f.AutoGenerated != contains(rc.AutoGen, f.Filename) {
			r.violate("autogen", "autogen-list", "%q: file %q is marked auto-generated=%v, the list is %v", rc.Name, f.Filename, f.AutoGenerated, rc.AutoGen)
			return
		}
	}
}

// filesFor tells how many files match at least, and at most.
func (ri *RefIndex) filesFor(m *matcher) (sure, most int) {
	for p := range ri.search(m) {
		most++
		if !ri.Either[p] {
			sure++
		}
	}
	return
}

// cut tells how many of n files the range asks for.
func (q *Query) cut(n int) int {
	i := strings.Index(q.Rng, ":")
	if i < 0 {
		return n
	}
	num := func(s string) int {
		n, err := strconv.ParseUint(s, 10, 62)
		if err != nil {
			return 0
		}
		return int(n)
	}
	n = max2(0, n-num(q.Rng[:i]))
	if l := num(q.Rng[i+1:]); l > 0 {
		n = min2(n, l)
	}
	return n
}

// checkPart judges an answer to which a range or limit applies: everything in it
// is true, it holds as many files as the range asks for, and no more lines than
// the limit allows.
func (ri *RefIndex) checkPart(m *matcher, q *Query, limit int, got *JRepo) string {
	ctx := q.ctx()
	want := ri.search(m)
	total := 0
	seen := map[string]bool{}
	for _, f := range got.Matches {
		w := want[f.Filename]
		if seen[f.Filename] || w == nil {
			return fmt.Sprintf("file %q should not be in the answer (again)", f.Filename)
		}
		seen[f.Filename] = true
		total += len(f.Matches)
		if len(f.Matches) == 0 {
			return fmt.Sprintf("file %q has no lines", f.Filename)
		}
		if len(f.Matches) < len(w) {
			if limit <= 0 || total < limit {
				return fmt.Sprintf("%q: %d of %d matching lines without a limit that says so", f.Filename, len(f.Matches), len(w))
			}
			w = w[:len(f.Matches)]
		}
		if s := checkMatches(ri.Files[f.Filename].Lines, w, ctx, f); s != "" {
			return s
		}
	}
	if limit > 0 && total > limit {
		return fmt.Sprintf("%d lines with a limit of %d", total, limit)
	}
	if sure, most := ri.filesFor(m); limit <= 0 || total < limit {
		if n := len(got.Matches); n < q.cut(sure) || n > q.cut(most) {
			return fmt.Sprintf("%d files for the range, not %d", n, q.cut(most))
		}
		if n := got.FilesWithMatch; n < sure || n > most {
			return fmt.Sprintf("%d files with matches, not %d", n, most)
		}
	}
	return ""
}

// ---------------------------------------------------------------- other requests

type JExcl struct{ Filename, Reason string }

func (r *Run) getExcludes(repo string) (list []*JExcl, sv *Srv, st, en int64, ok bool) {
	res, sv, st := r.do("GET", "/api/v1/excludes", url.Values{"repo": {repo}}, "", 0)
	if sv == nil {
		return nil, sv, st, 0, false
	}
	if r.lost("excluded files", res, sv, st) || !r.gate("excluded files", res, sv, st) {
		return nil, sv, st, 0, false
	}
	en = r.tick
	r.stat("excludes")
	known := r.served()[repo]
	if !known {
		if res.Status == 200 {
			r.violate("status", "excludes-unknown", "the excluded files of the unknown repository %q: status 200 %q", repo, clip(string(res.Body)))
		}
		return nil, sv, st, en, false
	}
	if res.Status != 200 {
		if r.idxFaultTick > st || r.damaged {
			return nil, sv, st, en, false
		}
		r.violate("excl-failed", fmt.Sprint(res.Status), "the excluded files of %q: status %d %s", repo, res.Status, clip(string(res.Body)))
		return nil, sv, st, en, false
	}
	if err := json.Unmarshal(res.Body, &list); err != nil {
		if r.idxFaultTick > st || r.damaged {
			return nil, sv, st, en, false
		}
		r.violate("excl-failed", "not-json", "the excluded files of %q are not a list: %v: %q", repo, err, clip(string(res.Body)))
		return nil, sv, st, en, false
	}
	return list, sv, st, en, true
}

// exclDiff compares an excluded-files list with what an index must exclude.
func exclDiff(ri *RefIndex, list []*JExcl) string {
	seen := map[string]bool{}
	for _, e := range list {
		if seen[e.Filename] {
			return fmt.Sprintf("%q is listed twice", e.Filename)
		}
		seen[e.Filename] = true
		if e.Reason == "" {
			return fmt.Sprintf("%q is listed without a reason", e.Filename)
		}
		if ri.Excluded[e.Filename] == "" && !ri.Either[e.Filename] {
			if ri.Files[e.Filename] != nil {
				return fmt.Sprintf("%q is listed (%s) but is plain text", e.Filename, e.Reason)
			}
			return fmt.Sprintf("%q is listed (%s) but is no file of the revision", e.Filename, e.Reason)
		}
	}
	for _, p := range sortedKeys(ri.Excluded) {
		if !seen[p] {
			return fmt.Sprintf("%q (%s) is not listed", p, ri.Excluded[p])
		}
	}
	return ""
}

func (r *Run) excludes(repo string) {
	list, sv, st, _, ok := r.getExcludes(repo)
	if !ok || sv != r.srv {
		return
	}
	rc := sv.Conf.repo(repo)
	if rc == nil {
		return
	}
	var diff string
	if kindOf(rc) == "local" {
		lo := r.localOf(rc)
		if lo == nil {
			return
		}
		for i := len(lo.Snaps) - 1; i >= 0; i-- {
			if diff = exclDiff(r.snapIndex(rc, lo, i), list); diff == "" {
				return
			}
		}
		if len(lo.Snaps) > 1 {
			return
		}
	} else {
		rem := r.R.ByURL[rc.URL]
		if rem == nil {
			return
		}
		hist := rem.history(r.targetOf(rc, rem))
		lb := r.lower(sv, repo, st)
		for i := lb; i < len(hist); i++ {
			if ri := r.commitIndex(rc, rem, hist[i]); ri != nil {
				if diff = exclDiff(ri, list); diff == "" {
					return
				}
			}
		}
		if rem.Faulty || rc.Detect || r.faultTick > 0 {
			for _, c := range sortedKeys(rem.Commits) {
				if exclDiff(r.commitIndex(rc, rem, c), list) == "" {
					return
				}
			}
		}
	}
	r.violate("excl-wrong", sigOfDiff(diff), "the excluded files of %q fit no revision it may be at: %s", repo, diff)
}

func (r *Run) update(s *Step) {
	form := url.Values{"repos": {strings.Join(s.Repos, ",")}}
	m := s.Method
	if m == "" {
		m = "POST"
	}
	t0 := r.W.Now()
	res, sv, st := r.do(m, "/api/v1/update", form, "", 0)
	if r.lost("update", res, sv, st) || !r.gate("update", res, sv, st) {
		return
	}
	r.stat("updates")
	if r.srv != nil {
		r.srv.updates++
	}
	if r.W.Now()-t0 > 60e9+r.P.Sched.StallMax*20 {
		r.violate("update-blocked", "update-blocked", "an update request took %d ms", (r.W.Now()-t0)/ms)
	}
	if m != "POST" {
		if res.Status != 405 {
			r.violate("push-refused-wrong", "405", "%s update answered %d", m, res.Status)
		}
		return
	}
	served := r.served()
	names := s.Repos
	if len(names) == 1 && strings.TrimSpace(names[0]) == "*" {
		names = sortedKeys(served)
	}
	allowed := true
	for _, n := range names {
		if !served[n] {
			continue
		}
		if !sv.Conf.repo(n).Push {
			allowed = false
		}
	}
	if !allowed {
		if res.Status != 403 {
			r.violate("push-refused-wrong", "403", "update of %v, push updates being off for one, answered %d %s", names, res.Status, clip(string(res.Body)))
		}
		return
	}
	if res.Status != 200 {
		r.violate("push-refused-wrong", "200", "update of %v answered %d %s", names, res.Status, clip(string(res.Body)))
		return
	}
	for _, n := range names {
		if served[n] {
			sv.pushes = append(sv.pushes, &pushRec{repo: n, tick: st, at: t0})
		}
	}
}

func (r *Run) webhook(s *Step) {
	m := s.Method
	if m == "" {
		m = "POST"
	}
	body := s.Body
	if body == "" && s.Mode != "bad" {
		b, _ := json.Marshal(map[string]interface{}{"repository": map[string]string{"name": "x", "full_name": s.Repo}, "ref": "refs/heads/master"})
		body = string(b)
	}
	t0 := r.W.Now()
	res, sv, st := r.do(m, "/api/v1/github-webhook", nil, body, 0)
	if r.lost("webhook", res, sv, st) || !r.gate("webhook", res, sv, st) {
		return
	}
	r.stat("webhooks")
	want := 200
	served := r.served()
	rc := sv.Conf.repo(s.Repo)
	switch {
	case m != "POST":
		want = 405
	case s.Mode == "bad":
		want = 400
	case rc == nil || !served[s.Repo]:
		want = 404
	case !rc.Push:
		want = 403
	}
	if res.Status != want {
		r.violate("push-refused-wrong", fmt.Sprint("webhook ", want), "%s webhook for %q answered %d, want %d", m, s.Repo, res.Status, want)
		return
	}
	if want == 200 {
		sv.pushes = append(sv.pushes, &pushRec{repo: s.Repo, tick: st, at: t0})
	}
}

// ---------------------------------------------------------------- actors

func (r *Run) actor(s *Step) {
	r.actors++
	world := r.W.Procs()[0]
	world.Spawn("actor", func() {
		for k := 0; k < max2(1, s.N); k++ {
			for _, x := range s.Sub {
				r.step(x)
			}
			if s.D > 0 {
				r.W.Sleep(s.D * ms)
			}
		}
		r.actors--
		r.actorQ.WakeAll()
	})
}

func (r *Run) joinActors(d int64) {
	if d == 0 {
		d = 3600e9
	}
	if !r.actorQ.WaitFor("join", d, func() bool { return r.actors == 0 }) {
		if r.W.Stopped() == "" {
			r.violate("actors-stuck", "actors-stuck", "clients have been waiting for more than %d s", d/1e9)
		}
	}
}

func parseTruth(b []byte) (map[string]*JRepo, bool) {
	var ans struct {
		Error   *string
		Results map[string]*JRepo
	}
	if json.Unmarshal(b, &ans) != nil || ans.Error != nil {
		return nil, false
	}
	return ans.Results, true
}
