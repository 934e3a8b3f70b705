//go:build go1.22

package h

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/zsim"
)

// Replay is a replay file: the plan, the decisions, and what they lead to.
type Replay struct {
	Property  string         `json:"property"`
	Violation *Violation     `json:"violation"`
	Sched     string         `json:"schedule_hash"`
	Plan      *Plan          `json:"plan"`
	Decisions zsim.Decisions `json:"decisions"`
	Trace     []string       `json:"trace,omitempty"` // for reading only
}

// Result is what a run reports.
type Result struct {
	Seed   uint64           `json:"seed"`
	Viol   []*Violation     `json:"viol,omitempty"`
	Hash   uint64           `json:"hash"`
	Obs    uint64           `json:"obs"`
	Sim    int64            `json:"sim"`
	Wall   int64            `json:"wall"`
	Yields int64            `json:"yields"`
	Faults map[string]int64 `json:"faults,omitempty"`
	Stats  map[string]int64 `json:"stats,omitempty"`
	States []uint64         `json:"states,omitempty"`
	Inter  []uint64         `json:"-"`
	Det    string           `json:"det,omitempty"` // "" not checked, "ok", or what differed
	Sample string           `json:"sample,omitempty"`
	dec    zsim.Decisions
	trace  []string
}

// RunPlan executes a plan.
func RunPlan(p *Plan, dec zsim.Decisions, trace int) *Result {
	t0 := time.Now()
	if p.Stream != nil {
		return runStream(p.Clone(), dec, trace)
	}
	r := NewRun(p.Clone(), dec)
	r.W.TraceOn = trace > 0
	r.W.TraceOps = trace > 1
	r.Execute()
	res := &Result{Seed: p.Seed, Viol: r.Viol, Hash: r.W.SchedHash(), Obs: r.obsHash, Sim: r.W.SimTime(), Wall: int64(time.Since(t0)), Yields: r.W.Yields(),
		Faults: map[string]int64{}, Stats: r.Stats, States: r.W.StateList(), dec: r.W.Recorded(), trace: r.W.Trace}
	for k, v := range r.W.Faults {
		res.Faults[k] = int64(v)
	}
	return res
}

func sig(v *Violation) string { return v.Class + "|" + v.Sig }

// ---------------------------------------------------------------- known findings

type known struct {
	prop, class, what, replay string
	sig                       *regexp.Regexp
}

// loadKnown reads the known findings: lines "known: property=C00 class=... sig=/.../ replay=FILE -- what".
func loadKnown(file string) ([]*known, error) {
	f, err := os.Open(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	re := regexp.MustCompile(`^known: property=(\S+) class=(\S+) sig=/(.*)/ replay=(\S+) -- (.*)$`)
	var out []*known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || l[0] == '#' || strings.HasPrefix(l, "fixed:") {
			continue
		}
		m := re.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("%s: bad line %q", file, l)
		}
		x, err := regexp.Compile("^(?:" + m[3] + ")$")
		if err != nil {
			return nil, err
		}
		out = append(out, &known{prop: m[1], class: m[2], sig: x, replay: m[4], what: m[5]})
	}
	return out, sc.Err()
}

func knownOf(ks []*known, prop string, v *Violation) *known {
	for _, k := range ks {
		if k.prop == prop && k.class == v.Class && k.sig.MatchString(v.Sig) {
			return k
		}
	}
	return nil
}

// ---------------------------------------------------------------- worker

func worker(prop string, seed uint64, from, stride, every int, deadline time.Time, deep bool, perRun time.Duration) {
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	for i := from; time.Now().Before(deadline); i += stride {
		p := Gen(prop, seed*1000003+uint64(i), deep)
		fmt.Fprintf(out, "@ %d\n", i)
		out.Flush()
		tm := time.AfterFunc(perRun, func() {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "run %d takes too long\n%s\n", i, buf[:n])
			os.Exit(7)
		})
		res := RunPlan(p, nil, 0)
		if every > 0 && (i/stride)%every == 0 {
			res.Det = "ok"
			r2 := RunPlan(p, res.dec, 0)
			if r2.Hash != res.Hash || r2.Obs != res.Obs || len(r2.Viol) != len(res.Viol) {
				res.Det = fmt.Sprintf("run %d: schedule %x then %x, observations %x then %x", i, res.Hash, r2.Hash, res.Obs, r2.Obs)
			}
			tm.Stop()
		}
		tm.Stop()
		res.Seed = uint64(i)
		if i < stride || len(res.Viol) > 0 {
			res.Sample = sample(p)
		}
		if err := enc.Encode(res); err != nil {
			os.Exit(0)
		}
		out.Flush()
		if i%(16*stride) < stride {
			debug.FreeOSMemory()
		}
	}
}

// sample writes a plan out in short.
func sample(p *Plan) string {
	b, _ := json.Marshal(p)
	if len(b) > 3000 {
		var ops []string
		for _, s := range p.Steps {
			ops = append(ops, s.Op)
		}
		c, _ := json.Marshal(p.Confs)
		if len(c) > 1200 {
			c = c[:1200]
		}
		return fmt.Sprintf("seed %d sched %+v confs %s steps %s", p.Seed, p.Sched, c, strings.Join(ops, " "))
	}
	return string(b)
}

// ---------------------------------------------------------------- the check

type tally struct {
	runs, nontriv, det, undet, timeouts, crashes int
	sim, yields                                  int64
	faults, stats                                map[string]int64
	hashes, states                               map[uint64]bool
	samples                                      []string
	foreign                                      map[string]int
	known                                        map[string]int
	undetWhat                                    string
}

func nontrivial(prop string, r *Result) bool {
	if r.Stats["stream-cases"] > 0 {
		return true
	}
	if r.Stats["ready"] == 0 {
		return false
	}
	f := int64(0)
	for _, n := range r.Faults {
		f += n
	}
	switch prop {
	case "C05", "C08", "C17", "C06", "C22":
		return f > 0 && r.Stats["answers-judged"] > 0
	case "C04":
		return r.Stats["updates"]+r.Stats["webhooks"] > 0
	case "C11":
		return r.Stats["sigterm"] > 0
	case "C15":
		return r.Stats["pages"] > 0
	case "C33":
		return r.Stats["cli-compared"] > 0
	case "C36":
		return r.Stats["cli-configured"] > 0
	case "C16":
		return r.Stats["cli-runs"] > 0
	case "C10":
		return r.Stats["503"] > 0
	case "C12":
		return r.Stats["concurrency-checks"] > 0
	}
	return r.Stats["answers-judged"] > 0
}

var rules = map[string]string{
	"":    "each case is a complete simulated run of the server (and client) generated from the seed: upstreams, folders, configuration, schedule parameters, requests and faults; non-trivial: the server became ready and at least one search answer was compared with the reference index",
	"C04": "…; non-trivial: at least one update or webhook request was answered",
	"C05": "…; non-trivial: at least one fault was injected and at least one search answer judged",
	"C06": "…; non-trivial: the server was killed at least once and at least one search answer judged",
	"C08": "…; non-trivial: at least one storage fault or damage and at least one search answer judged",
	"C10": "…; non-trivial: at least one request was answered 503 and the server became ready",
	"C11": "…; non-trivial: at least one SIGTERM",
	"C12": "…; non-trivial: the allowance was measured after the disturbances",
	"C15": "…; non-trivial: at least one page was compared with the whole answer",
	"C16": "…; non-trivial: the client ran at least once",
	"C33": "…; non-trivial: at least one answer was printed both on a terminal and elsewhere and compared",
	"C36": "…; non-trivial: the client ran at least once with a configuration of its own",
	"C17": "…; non-trivial: at least one fault and at least one search answer judged",
	"C22": "…; non-trivial: at least one power failure and at least one search answer judged",
	"C23": "each case is one content, one expression and one way of cutting the stream up; all are non-trivial; distinct by content, expression and cuts",
	"C32": "each case is a pair of index files and an optional write fault; all are non-trivial",
}

func ruleOf(p string) string {
	base := rules[""]
	if p == "C23" || p == "C32" {
		return rules[p] + "; a run is 4 to 11 cases; runs distinct by hash of what was observed"
	}
	if s := rules[p]; s != "" {
		return strings.SplitN(base, "; non-trivial", 2)[0] + strings.TrimPrefix(s, "…") + "; distinct: by hash of the complete schedule and of all observed answers"
	}
	return base + "; distinct: by hash of the complete schedule and of all observed answers"
}

// Main is the command.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: houndsim check|worker|run|replay|minimise …")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	fs := flag.NewFlagSet("houndsim", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Int("from", 0, "first run")
	stride := fs.Int("stride", 1, "stride")
	every := fs.Int("every", 0, "check every n-th run for determinism")
	secs := fs.Float64("secs", 40, "time for exploration")
	minSecs := fs.Float64("minsecs", 40, "time for minimising")
	deep := fs.Bool("deep", false, "thorough")
	dir := fs.String("dir", "/verif", "directory of the framework")
	trace := fs.Int("trace", 0, "trace level")
	workers := fs.Int("workers", 8, "processes")
	n := fs.Int("n", 1, "number of runs")
	level := fs.String("level", "exploration", "level")
	file := fs.String("file", "", "file")
	class := fs.String("class", "", "class")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "worker":
		worker(*prop, *seed, *from, *stride, *every, time.Now().Add(time.Duration(*secs*1e9)), *deep, 100*time.Second)
	case "run":
		bad := 0
		for i := 0; i < *n; i++ {
			p := Gen(*prop, *seed*1000003+uint64(*from+i), *deep)
			if *trace > 2 {
				fmt.Println(p)
			}
			r := RunPlan(p, nil, *trace)
			for _, l := range r.trace {
				fmt.Println(l)
			}
			if *every > 0 {
				r2 := RunPlan(p, r.dec, 0)
				if r2.Hash != r.Hash || r2.Obs != r.Obs {
					fmt.Printf("run %d not deterministic\n", *from+i)
				}
			}
			if len(r.Viol) > 0 {
				bad++
			}
			fmt.Printf("run %d: %d ms, sim %d s, %d statements, %v %v\n", *from+i, r.Wall/ms, r.Sim/1e9, r.Yields, r.Stats, r.Faults)
			for _, v := range r.Viol {
				fmt.Printf("  [%s] [%s] at %d ms: %s\n", v.Class, v.Sig, v.At, v.Msg)
			}
		}
		fmt.Printf("%d of %d runs with violations\n", bad, *n)
	case "save":
		p := Gen(*prop, *seed*1000003+uint64(*from), *deep)
		r := RunPlan(p, nil, 0)
		writeReplay(*file, &Replay{Property: *prop, Plan: p, Decisions: r.dec, Sched: fmt.Sprintf("%x", r.Hash), Violation: firstOf(r.Viol, *class)})
	case "replay":
		os.Exit(replayCmd(*file, *trace))
	case "minimise":
		minimiseCmd(*file, time.Now().Add(time.Duration(*minSecs*1e9)))
	case "check":
		os.Exit(check(*prop, *seed, *secs, *minSecs, *deep, *dir, *workers, *level))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func firstOf(vs []*Violation, class string) *Violation {
	for _, v := range vs {
		if class == "" || v.Class == class {
			return v
		}
	}
	return nil
}

func writeReplay(file string, r *Replay) {
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(file), 0o755)
		err = os.WriteFile(file+".tmp", b, 0o644)
	}
	if err == nil {
		err = os.Rename(file+".tmp", file)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func readReplay(file string) (*Replay, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	return r, json.Unmarshal(b, r)
}

func replayCmd(file string, trace int) int {
	rp, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := RunPlan(rp.Plan, rp.Decisions, trace)
	for _, l := range r.trace {
		fmt.Println(l)
	}
	ok := false
	for _, v := range r.Viol {
		fmt.Printf("violation of %s: [%s] [%s] at %d ms: %s\n", rp.Property, v.Class, v.Sig, v.At, v.Msg)
		if rp.Violation != nil && sig(v) == sig(rp.Violation) {
			ok = true
		}
	}
	same := fmt.Sprintf("%x", r.Hash) == rp.Sched
	fmt.Printf("schedule %x, recorded %s: same=%v\n", r.Hash, rp.Sched, same)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
		return 1
	}
	if len(r.Viol) > 0 {
		return 1
	}
	fmt.Println("no violation")
	return 0
}

type found struct {
	seed uint64
	v    *Violation
}

func check(prop string, seed uint64, secs, minSecs float64, deep bool, dir string, workers int, level string) int {
	t0 := time.Now()
	self, _ := os.Executable()
	ks, err := loadKnown(dir + "/known_findings.txt")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tier := "quick"
	if deep {
		tier = "thorough"
	}
	// the findings that are known show themselves
	shown := 0
	for _, k := range ks {
		if k.prop != prop {
			continue
		}
		rp, err := readReplay(dir + "/" + k.replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r := RunPlan(rp.Plan, rp.Decisions, 0)
		for _, v := range r.Viol {
			if knownOf([]*known{k}, prop, v) != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				shown++
				break
			}
		}
	}
	t := &tally{faults: map[string]int64{}, stats: map[string]int64{}, hashes: map[uint64]bool{}, states: map[uint64]bool{}, foreign: map[string]int{}, known: map[string]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var hits []*found
	stop := make(chan struct{})
	stopped := false
	deadline := time.Now().Add(time.Duration(secs * 1e9))
	var crash *found
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := w
			for tries := 0; tries < 50; tries++ {
				left := time.Until(deadline).Seconds()
				if left <= 0.2 {
					return
				}
				select {
				case <-stop:
					return
				default:
				}
				args := []string{"worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(workers), "-every", "10", "-secs", fmt.Sprint(left), fmt.Sprintf("-deep=%v", deep)}
				c := exec.Command(self, args...)
				c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
				eb := &tailBuf{}
				c.Stderr = eb
				so, err := c.StdoutPipe()
				if err != nil || c.Start() != nil {
					return
				}
				done := make(chan struct{})
				go func() {
					select {
					case <-stop:
					case <-done:
						return
					case <-time.After(time.Until(deadline) + 105*time.Second):
					}
					c.Process.Kill()
				}()
				sc := bufio.NewScanner(so)
				sc.Buffer(nil, 64<<20)
				last := from
				for sc.Scan() {
					l := sc.Text()
					if strings.HasPrefix(l, "@ ") {
						fmt.Sscanf(l, "@ %d", &last)
						continue
					}
					r := &Result{}
					if json.Unmarshal([]byte(l), r) != nil {
						continue
					}
					mu.Lock()
					t.add(prop, r)
					for _, v := range r.Viol {
						switch {
						case knownOf(ks, prop, v) != nil:
							t.known[sig(v)]++
						case !relevant(prop, v.Class):
							t.foreign[sig(v)]++
						default:
							hits = append(hits, &found{r.Seed, v})
							if !stopped {
								stopped = true
								close(stop)
							}
						}
					}
					mu.Unlock()
				}
				err = c.Wait()
				close(done)
				mu.Lock()
				if err == nil || stopped || time.Now().After(deadline.Add(-200*time.Millisecond)) && c.ProcessState.ExitCode() != 7 && c.ProcessState.ExitCode() != 2 {
					mu.Unlock()
					return
				}
				if c.ProcessState.ExitCode() == 7 {
					t.timeouts++
					if t.timeouts <= 2 {
						fmt.Printf("note: run %d did not end in time\n%s\n", last, tail(eb.String(), 3000))
					}
				} else {
					t.crashes++
					if crash == nil {
						crash = &found{uint64(last), &Violation{Class: "sim-crash", Sig: "sim-crash", Msg: tail(eb.String(), 3000)}}
					}
				}
				mu.Unlock()
				from = last + workers
			}
		}()
	}
	wg.Wait()
	explored := time.Since(t0).Seconds()
	code := 0
	nviol := 0
	if len(hits) == 0 && crash != nil {
		// the simulated program brought the simulator down: does it again?
		c := exec.Command(self, "run", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(crash.seed), fmt.Sprintf("-deep=%v", deep))
		out, err := c.CombinedOutput()
		if err != nil {
			crash.v.Msg = tail(string(out), 3000)
			hits = append(hits, crash)
		}
	}
	if len(hits) > 0 {
		sort.SliceStable(hits, func(i, j int) bool { return hits[i].seed < hits[j].seed })
		h := hits[0]
		nviol = len(hits)
		file := fmt.Sprintf("%s/replays/%s-%d-%d.json", dir, prop, seed, h.seed)
		p := Gen(prop, seed*1000003+h.seed, deep)
		writeReplay(file, &Replay{Property: prop, Plan: p, Violation: h.v, Sched: ""})
		if h.v.Class != "sim-crash" {
			c := exec.Command(self, "minimise", "-file", file, "-minsecs", fmt.Sprint(minSecs))
			c.Stderr = os.Stderr
			c.Stdout = os.Stdout
			c.Start()
			tm := time.AfterFunc(time.Duration((minSecs+60)*1e9), func() { c.Process.Kill() })
			c.Wait()
			tm.Stop()
		}
		rp, err := readReplay(file)
		if err == nil && rp.Violation != nil {
			h.v = rp.Violation
		}
		fmt.Printf("%s: [%s] [%s] (run %d of seed %d) %s\n", prop, h.v.Class, h.v.Sig, h.seed, seed, h.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		code = 1
	}
	for _, s := range sortedKeys(t.foreign) {
		fmt.Printf("note: %d runs show what is another property's matter: %s\n", t.foreign[s], s)
	}
	if t.undet > 0 {
		fmt.Printf("note: %d runs were not repeatable: %s\n", t.undet, t.undetWhat)
	}
	if t.runs == 0 && code == 0 {
		fmt.Println("no run ended: no verdict")
		code = 3
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": assumptions(prop),
		"coverage": map[string]interface{}{
			"evaluations": t.runs, "distinct_nontrivial": t.nontriv, "rule": ruleOf(prop), "samples": t.samples,
			"simulated_runs": t.runs, "seeds_per_hour": int(float64(t.runs) / explored * 3600), "simulated_seconds": t.sim / 1e9,
			"statements_executed": t.yields, "faults_injected": t.faults, "counters": t.stats,
			"distinct_schedules": len(t.hashes), "distinct_states": len(t.states), "state_measure": "hash of the blocking points of all tasks of the server at scheduling points, with the notes the harness makes at rest",
			"repeated_exactly": t.det, "not_repeatable": t.undet, "timeouts": t.timeouts, "known_findings_seen": t.known, "known_findings_shown": shown,
			"other_properties_violations": t.foreign,
			"real_code":                   "cmds/houndd, cmds/hound, api, client, codesearch, config, index, searcher, vcs, web, ui (all statements, instrumented), Go's regexp, encoding/*, compress/gzip, http.ServeMux and handlers",
			"stubs":                       "goroutine scheduler, channels, sync, clocks, file system, mmap, process creation, signals, TCP/HTTP transport (zsim); git, hg, svn, svnversion, bzr programs and their upstreams (harness)",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(dir+"/evidence", 0o755)
	if err := os.WriteFile(dir+"/evidence/"+prop+".json", append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d runs (%d non-trivial and distinct), %.0f s simulated, %d schedules, %d states, %d faults, %d repeated exactly, %.0f s: exit %d\n", prop, tier, t.runs, t.nontriv, float64(t.sim)/1e9, len(t.hashes), len(t.states), sum(t.faults), t.det, time.Since(t0).Seconds(), code)
	return code
}

func sum(m map[string]int64) int64 {
	n := int64(0)
	for _, v := range m {
		n += v
	}
	return n
}

func (t *tally) add(prop string, r *Result) {
	t.runs++
	t.sim += r.Sim
	t.yields += r.Yields
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Stats {
		t.stats[k] += v
	}
	h := r.Hash*31 + r.Obs
	if !t.hashes[h] {
		t.hashes[h] = true
		if nontrivial(prop, r) {
			t.nontriv++
		}
	}
	for _, s := range r.States {
		if len(t.states) < 3000000 {
			t.states[s] = true
		}
	}
	switch r.Det {
	case "":
	case "ok":
		t.det++
	default:
		t.undet++
		t.undetWhat = r.Det
	}
	if r.Sample != "" && len(t.samples) < 4 {
		t.samples = append(t.samples, fmt.Sprintf("run %d: %s", r.Seed, r.Sample))
	}
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<17 {
		t.b = append(append([]byte{}, t.b[:8192]...), t.b[len(t.b)-1<<16:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// relevant says whether a class of violations speaks against the property.
func relevant(prop, class string) bool {
	if prop == "C30" { // a setting that is not heeded shows in many ways
		switch class {
		case "autogen", "excl-wrong", "excl-failed", "healthz", "push-refused-wrong", "push-pulled", "over-limit", "limit", "status":
			return true
		}
	}
	switch class {
	case "repos-settings", "page-title", "polls":
		return prop == "C30"
	case "autogen":
		return prop == "C19" || prop == "C20"
	case "secret":
		return prop == "C13"
	case "over-limit", "allowance-lost":
		return prop == "C12"
	case "page", "limit":
		return prop == "C15" || prop == "C01"
	case "src-modified", "outside-write":
		return prop == "C17" || prop == "C07"
	case "tmp-left", "map-left", "fd-left":
		return prop == "C17" || prop == "C05" || prop == "C02" && class == "map-left"
	case "idx-leftover":
		return prop == "C07" || prop == "C05" || prop == "C06" || prop == "C02" || prop == "C17"
	case "not-reused":
		return prop == "C07" || prop == "C11"
	case "excl-wrong", "excl-failed":
		switch prop {
		case "C14", "C02", "C20", "C08", "C05", "C06", "C09", "C21", "C22", "C18":
			return true
		}
		return false
	case "healthz", "ready-back", "half-ready":
		return prop == "C10"
	case "push-lost", "push-refused-wrong", "push-pulled", "update-blocked":
		return prop == "C04"
	case "colour":
		return prop == "C33"
	case "cli-asks":
		return prop == "C36"
	case "task-leak", "stats":
		return prop == "C18"
	case "term-hang", "term-code", "incomplete-after-term":
		return prop == "C11"
	case "status":
		return prop == "C10" || prop == "C09" || prop == "C14"
	}
	if strings.HasPrefix(class, "cli-") {
		return prop == "C16" || prop == "C36" && (class == "cli-failed" || class == "cli-hang")
	}
	return true
}

func assumptions(prop string) []string {
	a := []string{
		"preemption happens between statements and at every synchronisation and I/O operation of the instrumented code; races inside one statement and weak memory effects are not simulated",
		"the VCS programs behave like the stand-ins: they keep a checkout per directory, die with the server, git leaves lock files and untracked files behind then, the others repair an interrupted update on the next one",
		"Go's regexp package is the reference for what a line matches",
	}
	if prop == "C22" {
		a = append(a, "the VCS checkouts themselves survive a power failure or are repaired by the VCS program")
	}
	return a
}
