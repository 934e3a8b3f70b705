//go:build go1.22

package h

import (
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/hound-search/hound/zsim"
)

// minimiser shrinks a failing plan while the same kind of violation remains.
type minimiser struct {
	want  *Violation
	rp    *Replay
	file  string
	until time.Time
	tries int
}

func (m *minimiser) over() bool { return time.Now().After(m.until) }

// try runs a candidate; if it fails in the same way it becomes the best.
func (m *minimiser) try(p *Plan, dec zsim.Decisions, seeds int) bool {
	for k := 0; k < seeds && !m.over(); k++ {
		q := p.Clone()
		q.Seed += uint64(k)
		m.tries++
		r := RunPlan(q, dec, 0)
		for _, v := range r.Viol {
			if v.Class == m.want.Class && (v.Sig == m.want.Sig || m.want.Class == "wrong-answer" || m.want.Class == "excl-wrong" || m.want.Class == "not-converged") {
				m.rp.Plan, m.rp.Decisions, m.rp.Violation, m.rp.Sched = q, r.dec, v, fmt.Sprintf("%x", r.Hash)
				return true
			}
		}
		if dec != nil {
			break
		}
	}
	return false
}

// ddmin removes as many of n items as possible; apply makes the plan without those marked.
func (m *minimiser) ddmin(n int, apply func(p *Plan, drop map[int]bool)) {
	dropped := map[int]bool{}
	base := m.rp.Plan.Clone()
	size := (n + 1) / 2
	for size >= 1 && !m.over() {
		progress := false
		for at := 0; at < n && !m.over(); at += size {
			d := map[int]bool{}
			any := false
			for k := range dropped {
				d[k] = true
			}
			for i := at; i < at+size && i < n; i++ {
				if !d[i] {
					d[i] = true
					any = true
				}
			}
			if !any {
				continue
			}
			p := base.Clone()
			p.Seed = m.rp.Plan.Seed
			apply(p, d)
			if m.try(p, nil, 2) {
				dropped = d
				progress = true
			}
		}
		if size == 1 && !progress {
			break
		}
		if size > 1 {
			size = (size + 1) / 2
		} else if !progress {
			break
		}
	}
}

func keepSteps(ss []*Step, drop map[int]bool) []*Step {
	var out []*Step
	for i, s := range ss {
		if !drop[i] {
			out = append(out, s)
		}
	}
	return out
}

func keepFiles(fs []*FileSpec, drop map[int]bool, k *int) []*FileSpec {
	var out []*FileSpec
	for _, f := range fs {
		if !drop[*k] {
			out = append(out, f)
		}
		*k++
	}
	return out
}

func eachFiles(p *Plan, f func([]*FileSpec) []*FileSpec) {
	for _, r := range p.Remotes {
		var bs []string
		for b := range r.Branches {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			r.Branches[b] = f(r.Branches[b])
		}
	}
	for _, l := range p.Locals {
		l.Files = f(l.Files)
	}
	for _, s := range p.Steps {
		s.Set = f(s.Set)
	}
}

func (m *minimiser) run() {
	m.ddmin(len(m.rp.Plan.Steps), func(p *Plan, d map[int]bool) { p.Steps = keepSteps(p.Steps, d) })
	// entries
	for ci := range m.rp.Plan.Confs {
		ci := ci
		m.ddmin(len(m.rp.Plan.Confs[ci].Repos), func(p *Plan, d map[int]bool) {
			var out []*RepoConf
			for i, r := range p.Confs[ci].Repos {
				if !d[i] {
					out = append(out, r)
				}
			}
			p.Confs[ci].Repos = out
		})
	}
	// a calmer schedule
	for _, s := range []zsim.Sched{{Policy: "fifo"}, {Policy: "random"}, {Policy: "random", PreemptMean: m.rp.Plan.Sched.PreemptMean}} {
		if m.over() {
			break
		}
		p := m.rp.Plan.Clone()
		p.Sched = s
		if m.try(p, nil, 3) {
			break
		}
	}
	// the client's configuration
	for i := 0; i < len(m.rp.Plan.Steps) && !m.over(); i++ {
		if m.rp.Plan.Steps[i].Cli == nil {
			continue
		}
		for _, f := range []func(c *CliConf){func(c *CliConf) { *c = CliConf{} }, func(c *CliConf) { c.Etc = "" }, func(c *CliConf) { c.Home = "" }, func(c *CliConf) { c.Flag = "" }, func(c *CliConf) { c.Err, c.ErrAt, c.ErrOp = "", "", "" }, func(c *CliConf) { c.Dir = "" }} {
			p := m.rp.Plan.Clone()
			was := *p.Steps[i].Cli
			f(p.Steps[i].Cli)
			if *p.Steps[i].Cli != was {
				m.try(p, nil, 2)
			}
		}
	}
	// sub-steps and repetitions
	for i := 0; i < len(m.rp.Plan.Steps) && !m.over(); i++ {
		i := i
		if s := m.rp.Plan.Steps[i]; len(s.Sub) > 0 {
			m.ddmin(len(s.Sub), func(p *Plan, d map[int]bool) { p.Steps[i].Sub = keepSteps(p.Steps[i].Sub, d) })
		}
		if s := m.rp.Plan.Steps[i]; s.Op == "actor" && s.N > 1 {
			for _, n := range []int{1, 2, s.N / 2} {
				p := m.rp.Plan.Clone()
				p.Steps[i].N = n
				if n < s.N && m.try(p, nil, 2) {
					break
				}
			}
		}
	}
	n := 0
	eachFiles(m.rp.Plan, func(f []*FileSpec) []*FileSpec { n += len(f); return f })
	m.ddmin(n, func(p *Plan, d map[int]bool) {
		k := 0
		eachFiles(p, func(f []*FileSpec) []*FileSpec { return keepFiles(f, d, &k) })
	})
	m.ddmin(len(m.rp.Plan.Steps), func(p *Plan, d map[int]bool) { p.Steps = keepSteps(p.Steps, d) })
	// unused upstreams and folders
	{
		p := m.rp.Plan.Clone()
		used := map[string]bool{}
		for _, c := range p.Confs {
			for _, r := range c.Repos {
				used[r.URL] = true
			}
		}
		var out []*RemoteSpec
		for _, r := range p.Remotes {
			if used[r.URL] {
				out = append(out, r)
			}
		}
		p.Remotes = out
		m.try(p, nil, 2)
	}
	// decisions
	m.decisions()
}

type decAt struct {
	stream string
	i      int
}

func (m *minimiser) decisions() {
	var all []decAt
	base := m.rp.Decisions
	for _, s := range sortedKeys(base) {
		for i := range base[s] {
			all = append(all, decAt{s, i})
		}
	}
	without := func(drop map[int]bool) zsim.Decisions {
		d := zsim.Decisions{}
		for _, s := range sortedKeys(base) {
			d[s] = [][2]int64{}
		}
		for k, a := range all {
			if !drop[k] {
				d[a.stream] = append(d[a.stream], base[a.stream][a.i])
			}
		}
		return d
	}
	dropped := map[int]bool{}
	plan := m.rp.Plan
	for size := len(all); size >= 1 && !m.over(); size /= 2 {
		for at := 0; at < len(all) && !m.over(); at += size {
			d := map[int]bool{}
			any := false
			for k := range dropped {
				d[k] = true
			}
			for i := at; i < at+size && i < len(all); i++ {
				if !d[i] {
					d[i] = true
					any = true
				}
			}
			if any && m.try(plan, without(d), 1) {
				dropped = d
			}
		}
	}
}

func minimiseCmd(file string, until time.Time) {
	rp, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	m := &minimiser{want: rp.Violation, rp: rp, file: file, until: until.Add(time.Hour)}
	if rp.Violation == nil || !m.try(rp.Plan, rp.Decisions, 1) {
		fmt.Fprintln(os.Stderr, "the violation does not show again")
		return
	}
	m.until = until
	m.want = rp.Violation
	writeReplay(file, rp)
	steps := len(rp.Plan.Steps)
	done := make(chan struct{})
	go func() { // a candidate that never ends must not keep the result
		select {
		case <-done:
		case <-time.After(time.Until(until) + 40*time.Second):
			os.Exit(0)
		}
	}()
	if rp.Plan.Stream == nil {
		m.run()
	} else {
		m.stream()
	}
	close(done)
	r := RunPlan(rp.Plan, rp.Decisions, 1)
	rp.Trace = r.trace
	if len(rp.Trace) > 400 {
		rp.Trace = rp.Trace[len(rp.Trace)-400:]
	}
	writeReplay(file, rp)
	nd := 0
	for _, d := range rp.Decisions {
		nd += len(d)
	}
	fmt.Printf("minimised: %d of %d steps, %d decisions, %d trials\n", len(rp.Plan.Steps), steps, nd, m.tries)
}

// stream shrinks a run of stream cases.
func (m *minimiser) stream() {
	m.ddmin(len(m.rp.Plan.Stream.Cases), func(p *Plan, d map[int]bool) {
		var out []*StreamCase
		for i, c := range p.Stream.Cases {
			if !d[i] {
				out = append(out, c)
			}
		}
		p.Stream.Cases = out
	})
	for i := range m.rp.Plan.Stream.Cases {
		i := i
		one := func(f func(c *StreamCase) bool) {
			p := m.rp.Plan.Clone()
			if f(p.Stream.Cases[i]) && !m.over() {
				m.try(p, nil, 1)
			}
		}
		c := m.rp.Plan.Stream.Cases[i]
		m.ddmin(len(c.Files), func(p *Plan, d map[int]bool) { p.Stream.Cases[i].Files = keepTri(c.Files, d) })
		m.ddmin(len(c.Two), func(p *Plan, d map[int]bool) { p.Stream.Cases[i].Two = keepTri(c.Two, d) })
		one(func(c *StreamCase) bool { x := c.Cut; c.Cut = ""; return x != "" })
		one(func(c *StreamCase) bool { x := c.Cut; c.Cut = "one"; return x != "" && x != "one" })
		one(func(c *StreamCase) bool { x := c.Flags; c.Flags = ""; return x != "" })
		one(func(c *StreamCase) bool { x := c.I; c.I = false; return x })
		one(func(c *StreamCase) bool { x := c.With; c.With = false; return x })
		one(func(c *StreamCase) bool { x := c.ErrAt; c.ErrAt = 0; return x > 0 })
		one(func(c *StreamCase) bool { x := c.Stop; c.Stop = 0; return x > 0 })
		one(func(c *StreamCase) bool { x := c.Fault; c.Fault = ""; return x != "" })
		if c.Text != "" {
			ls := splitAfter(c.Text)
			m.ddmin(len(ls), func(p *Plan, d map[int]bool) {
				t := ""
				for j, l := range ls {
					if !d[j] {
						t += l
					}
				}
				p.Stream.Cases[i].Text = t
			})
		}
		for _, side := range []func(c *StreamCase) []*TriFile{func(c *StreamCase) []*TriFile { return c.Files }, func(c *StreamCase) []*TriFile { return c.Two }} {
			for j := range side(m.rp.Plan.Stream.Cases[i]) {
				one(func(c *StreamCase) bool { f := side(c)[j]; f.Text, f.Gen = "abc", ""; return true })
			}
		}
	}
}

func splitAfter(s string) []string {
	var out []string
	for s != "" {
		k := len(s)
		for i := 0; i < len(s); i++ {
			if s[i] == '\n' {
				k = i + 1
				break
			}
		}
		out = append(out, s[:k])
		s = s[k:]
	}
	return out
}

func keepTri(fs []*TriFile, drop map[int]bool) []*TriFile {
	var out []*TriFile
	for i, f := range fs {
		if !drop[i] {
			out = append(out, f)
		}
	}
	return out
}
