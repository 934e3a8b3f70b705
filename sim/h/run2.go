//go:build go1.22

package h

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/hound-search/hound/zsim"
)

// encodings are the forms in which a secret is looked for.
func encodings(s string) []string {
	out := []string{s}
	if len(s) >= 12 {
		for k := 0; k < 3; k++ {
			e := base64.StdEncoding.EncodeToString([]byte(strings.Repeat("x", k) + s))
			// the middle part does not depend on what is around it
			if len(e) > 10 {
				out = append(out, e[4:len(e)-4])
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- settling

// calm stops everything that disturbs.
func (r *Run) calm() {
	r.rules = nil
	r.kill = nil
	r.W.SetStalls(false)
	r.R.Calms++
	for _, u := range sortedKeys(r.R.ByURL) {
		m := r.R.ByURL[u]
		m.Down, m.Slow, m.HangNext, m.FailNext, m.NoRev, m.BadRev, m.Blip = false, 0, 0, 0, 0, 0, 0
	}
}

func (r *Run) servedConfs(sv *Srv) []*RepoConf {
	var out []*RepoConf
	served := r.served()
	for _, rc := range sv.Conf.Repos {
		if served[rc.Name] {
			out = append(out, rc)
		}
	}
	return out
}

// settle waits until everything has to be up to date, and checks that it is.
// Mode "lazy" leaves convergence out, "damaged" everything that needs every index to work.
func (r *Run) settle(s *Step) {
	r.joinActors(0)
	r.calm()
	defer r.W.SetStalls(true)
	if !r.up() {
		return
	}
	r.waitReady(0)
	if !r.up() || !r.srv.Ready {
		return
	}
	sv := r.srv
	r.repos()
	confs := r.servedConfs(sv)
	poll := int64(1000)
	for _, rc := range confs {
		if rc.Push && rc.NoPoll && s.Mode != "nopush" {
			r.update(&Step{Op: "update", Repos: []string{rc.Name}})
		}
		p := int64(rc.PollMs)
		if p == 0 {
			p = 30000
		}
		if !rc.NoPoll && p > poll {
			poll = p
		}
	}
	t0 := r.W.Now()
	limit := t0 + (60000+20*poll+s.D)*ms
	stale := ""
	first := true
	for r.up() && sv == r.srv {
		stale = r.unsettled(sv, confs)
		if stale == "" {
			break
		}
		if r.W.Now() > limit {
			break
		}
		if first {
			first = false
			r.W.Sleep(300 * ms)
		} else {
			r.W.Sleep(poll / 2 * ms)
		}
	}
	if !r.up() || sv != r.srv {
		return
	}
	if stale != "" {
		r.violate("not-converged", staleSig(stale), "%d s after everything came to rest: %s\nlog: %s", (60000+20*poll)/1000, stale, tail(string(sv.Proc.Err), 800))
		return
	}
	r.stat("settled")
	// pushes
	for _, p := range sv.pushes {
		r.checkPush(sv, p, limit, t0+300e9)
	}
	// leftovers
	left := ""
	for {
		left = r.leftovers(sv, confs)
		if left == "" || r.W.Now() > limit || !r.up() {
			break
		}
		r.W.Sleep(500 * ms)
	}
	if !r.up() || sv != r.srv {
		return
	}
	if left != "" {
		i := strings.Index(left, ": ")
		r.violate(left[:i], sigOfDiff(left[i+2:]), "at rest: %s", left[i+2:])
	}
	r.checkReuse(sv)
	r.checkOutside()
	// everything once more, in full
	r.search(&Query{Pat: "", Repos: []string{"*"}, Ctx: "0", Limit: "-1"}, 0)
	for _, rc := range confs {
		if r.up() {
			r.excludes(rc.Name)
			r.exactExcl(sv, rc)
		}
	}
	r.health(&Step{})
	// repositories that may not be pulled
	for _, rc := range confs {
		if rc.NoPoll && !rc.Push && kindOf(rc) != "local" {
			for _, o := range r.R.Ops {
				if o.URL == rc.URL && o.Net && o.StartSeq > sv.ReadyTick && r.onlyEntry(sv, rc) {
					r.violate("push-pulled", "push-pulled", "%q was pulled although polling and push updates are off", rc.Name)
				}
			}
		}
	}
	var st []string
	for _, rc := range confs {
		n := 0
		for _, m := range r.R.ByURL {
			if m.URL == rc.URL {
				n = len(m.Log)
			}
		}
		st = append(st, fmt.Sprintf("%s:%d", kindOf(rc), n))
	}
	r.W.NoteState("settled " + strings.Join(st, ","))
}

// title looks at the page's title.
func (r *Run) title() {
	res, sv, st := r.do("GET", "/", nil, "", 0)
	if r.lost("page", res, sv, st) || !r.gate("page", res, sv, st) {
		return
	}
	want := "<title>" + or(sv.Conf.Title, "Hound") + "</title>"
	if res.Status != 200 || !strings.Contains(string(res.Body), want) {
		r.violate("page-title", "page-title", "the page (status %d) has no %s: %s", res.Status, want, clip(string(res.Body)))
	}
}

// polls checks the times at which the upstreams were asked: never earlier than
// configured, and, with nothing in the way, no later.
func (r *Run) polls() {
	sv := r.srv
	if !r.up() || !sv.Ready {
		return
	}
	now := r.W.Now()
	for _, rc := range sv.Conf.Repos {
		if kindOf(rc) == "local" || !r.onlyEntry(sv, rc) || !r.served()[rc.Name] || sv.updates > 0 {
			continue
		}
		every := int64(orI(rc.PollMs, 30000)) * ms
		last := sv.readyAt
		n := 0
		for _, o := range r.R.Ops {
			if o.URL != rc.URL || o.StartSeq < sv.StartTick || !(o.Sub == "fetch" || o.Sub == "pull" || o.Sub == "update") {
				continue
			}
			if rc.NoPoll {
				if o.StartSeq > sv.ReadyTick {
					r.violate("polls", "off", "%q was pulled %d ms after the start although polling is off", rc.Name, (o.Start-sv.readyAt)/ms)
				}
				continue
			}
			if n > 0 && o.Start-last < every {
				r.violate("polls", "early", "%q was pulled again after %d ms, %d ms are configured", rc.Name, (o.Start-last)/ms, every/ms)
			}
			if r.P.Prompt && o.StartSeq > sv.ReadyTick && o.Start-max(last, sv.readyAt) > every+1500*ms {
				r.violate("polls", "late", "%q was pulled again only after %d ms, %d ms are configured", rc.Name, (o.Start-last)/ms, every/ms)
			}
			last = o.Start
			n++
		}
		r.stat("poll-times-checked")
		if !rc.NoPoll && r.P.Prompt && now-max(last, sv.readyAt) > every+1500*ms {
			r.violate("polls", "late", "%q has not been pulled for %d ms, %d ms are configured", rc.Name, (now-last)/ms, every/ms)
		}
	}
}

func (r *Run) onlyEntry(sv *Srv, rc *RepoConf) bool {
	n := 0
	for _, x := range sv.Conf.Repos {
		if x.URL == rc.URL {
			n++
		}
	}
	return n == 1
}

func staleSig(s string) string {
	return sigOfDiff(regexp.MustCompile(`[0-9a-f]{8,}`).ReplaceAllString(s, "N"))
}

// unsettled says what is not up to date yet.
func (r *Run) unsettled(sv *Srv, confs []*RepoConf) string {
	locals := false
	for _, rc := range confs {
		if kindOf(rc) == "local" && rc.Watch {
			locals = true
		}
	}
	q := &Query{Pat: "", Repos: []string{"*"}, Ctx: "0", Limit: "1"}
	if locals {
		q.Limit = "-1"
	}
	res, s2, st, en, ok := r.ask(q, 0)
	if !ok || s2 != sv {
		return "searching fails"
	}
	r.judge(q, res, sv, st, en, false)
	m, _ := r.matcherOf(q)
	for _, rc := range confs {
		if rc.NoPoll && !rc.Push {
			continue
		}
		got := res[rc.Name]
		if kindOf(rc) == "local" {
			lo := r.localOf(rc)
			if !rc.Watch || lo == nil {
				continue
			}
			ri := r.snapIndex(rc, lo, len(lo.Snaps)-1)
			if got == nil {
				if len(ri.search(m)) > 0 {
					return fmt.Sprintf("folder %q has no answer", rc.Name)
				}
				if d := r.staleExcl(sv, rc); d != "" {
					return fmt.Sprintf("the excluded files of folder %q are not up to date: %s", rc.Name, d)
				}
				continue
			}
			if d := ri.checkRepo(m, 0, got); d != "" {
				return fmt.Sprintf("folder %q is not up to date: %s", rc.Name, d)
			}
			if d := r.staleExcl(sv, rc); d != "" {
				return fmt.Sprintf("the excluded files of folder %q are not up to date: %s", rc.Name, d)
			}
			continue
		}
		rem := r.R.ByURL[rc.URL]
		if rem == nil {
			continue
		}
		want := rem.tip(r.targetOf(rc, rem))
		if want == "" {
			continue
		}
		if got == nil {
			if ri := r.commitIndex(rc, rem, want); ri != nil && len(ri.search(m)) > 0 {
				return fmt.Sprintf("%q has no answer, upstream is at %s", rc.Name, want)
			}
			if d := r.staleExcl(sv, rc); d != "" {
				return fmt.Sprintf("the excluded files of %q are not up to date: %s", rc.Name, d)
			}
			continue
		}
		if got.Revision != want {
			// the same content under another revision is not enough: links would be wrong
			return fmt.Sprintf("%q is at %s, upstream at %s", rc.Name, got.Revision, want)
		}
	}
	return ""
}

// checkPush waits for a pull begun after the update was asked for; once nothing
// is in the way it has to begin by the time soon, however rare the polls are.
func (r *Run) checkPush(sv *Srv, p *pushRec, limit, soon int64) {
	if p.done {
		return
	}
	rc := sv.Conf.repo(p.repo)
	if rc == nil || kindOf(rc) == "local" {
		return
	}
	for {
		var first *VcsOp
		for i := len(r.R.Ops) - 1; i >= 0; i-- {
			o := r.R.Ops[i]
			if o.StartSeq <= p.tick {
				break
			}
			if o.URL == rc.URL && o.Net {
				first = o
			}
		}
		if first != nil {
			p.done = true
			if first.Start > soon {
				r.violate("push-lost", "push-late", "the update of %q accepted at %d ms was carried out only at %d ms, although nothing was in the way", p.repo, p.at/ms, first.Start/ms)
			}
			return
		}
		if r.W.Now() > limit || !r.up() || sv != r.srv {
			break
		}
		r.W.Sleep(500 * ms)
	}
	if r.up() && sv == r.srv {
		r.violate("push-lost", "push-lost", "the update of %q accepted at %d ms was never carried out: no pull began after it", p.repo, p.at/ms)
	}
}

// leftovers says what should not be (or be missing) in the data and temporary
// directories, as "class: text".
func (r *Run) leftovers(sv *Srv, confs []*RepoConf) string {
	if len(r.busy()) > 0 {
		return "still-busy: " + strings.Join(r.busy(), "; ")
	}
	dirs := r.idxDirs()
	var names []string
	for _, d := range dirs {
		names = append(names, path.Base(d.Dir)+"="+d.Rev)
	}
	if len(dirs) > len(confs) && !r.rmFaults() {
		return fmt.Sprintf("idx-leftover: %d index directories for %d repositories: %v", len(dirs), len(confs), names)
	}
	if len(dirs) < len(confs) && r.distinctURLs(confs) == len(confs) {
		return fmt.Sprintf("idx-missing: %d index directories for %d repositories: %v", len(dirs), len(confs), names)
	}
	if t := r.W.FS.Tree("/tmp"); len(t) > 0 && !r.rmFaults() {
		// what a killed run left in the temporary directory is not this run's
		var own []string
		for _, n := range sortedKeys(t) {
			if !sv.tmpPre[n] {
				own = append(own, n)
			}
		}
		if len(own) > 0 {
			return fmt.Sprintf("tmp-left: %d temporary files are left: %v", len(own), own)
		}
	}
	if maps := sv.Proc.Maps(); len(maps) > len(confs) {
		return fmt.Sprintf("map-left: %d files are mapped for %d repositories", len(maps), len(confs))
	}
	if fs := sv.Proc.OpenFiles(); len(fs) > 2*len(confs)+4 {
		sort.Strings(fs)
		return fmt.Sprintf("fd-left: %d files are open at rest: %v", len(fs), fs[:min2(len(fs), 20)])
	}
	return ""
}

func (r *Run) distinctURLs(confs []*RepoConf) int {
	m := map[string]bool{}
	for _, c := range confs {
		m[c.URL] = true
	}
	return len(m)
}

// rmFaults reports whether removals may have failed through injected faults.
func (r *Run) rmFaults() bool { return r.Stats["rm-faults"] > 0 }

// checkReuse compares the index directories after a start with those before it.
func (r *Run) checkReuse(sv *Srv) {
	if sv.diskBad || sv.mayFail || r.damaged || r.faultTick > sv.StartTick {
		return
	}
	for _, rc := range sv.Conf.Repos {
		rem := r.R.ByURL[rc.URL]
		if rem == nil || !sv.Served[rc.Name] || rem.Faulty || !r.onlyEntry(sv, rc) {
			continue
		}
		tip := sv.preTip[rc.Name]
		if tip == "" || tip != rem.tip(r.targetOf(rc, rem)) || len(rem.history(r.targetOf(rc, rem))) == 0 {
			continue
		}
		if rem.changedSince(sv.Start) {
			continue
		}
		var have *idxInfo
		for _, i := range sv.pre {
			if i.Complete && i.URL == rc.URL && i.Rev == tip {
				have = i
			}
		}
		if have == nil || r.confChanged(rc) || r.powered {
			continue
		}
		ok := false
		for _, i := range r.idxDirs() {
			for _, p := range sv.pre {
				if p.Complete && p.URL == rc.URL && p.Rev == tip && p.Dir == i.Dir && p.tri == i.tri && p.man == i.man {
					ok = true
				}
			}
		}
		if !ok {
			r.violate("not-reused", "not-reused", "%q: %s held a complete index of its current revision %s, but it was not reused", rc.Name, have.Dir, tip)
		} else {
			r.stat("reused")
		}
	}
}

func (m *Remote) changedSince(t int64) bool {
	return len(m.Log) > 0 && m.Log[len(m.Log)-1].At >= t
}

// confChanged: the entry's settings differ between configurations of the plan.
func (r *Run) confChanged(rc *RepoConf) bool {
	for _, c := range r.P.Confs {
		for _, x := range c.Repos {
			if x.URL == rc.URL && (x.Name != rc.Name || fmt.Sprintf("%+v", *x) != fmt.Sprintf("%+v", *rc)) {
				return true
			}
		}
	}
	return false
}

func (r *Run) checkOutside() {
	for _, d := range sortedKeys(r.srvTree) {
		now := r.W.FS.Tree(d)
		was := r.srvTree[d]
		for _, p := range sortedKeys(was) {
			if inside(d+"/"+p, r.db) || inside(r.db, d+"/"+p) {
				continue
			}
			if now[p] != was[p] {
				r.violate("src-modified", "changed", "%s/%s was %q and is %q", d, p, was[p], now[p])
				return
			}
		}
		for _, p := range sortedKeys(now) {
			if _, ok := was[p]; !ok && !inside(d+"/"+p, r.db) && !inside(r.db, d+"/"+p) {
				r.violate("src-modified", "added", "%s/%s has appeared", d, p)
				return
			}
		}
	}
	// what the operator put in the data directory
	for _, p := range sortedKeys(r.planted) {
		if n := r.W.FS.Node(p); n == nil || string(n.Data()) != r.planted[p] {
			r.violate("src-modified", "foreign file in the data directory", "%s, which is none of the server's business, is gone or changed", p)
		}
	}
}

// exactExcl: at rest the list is that of the latest revision.
func (r *Run) exactExcl(sv *Srv, rc *RepoConf) {
	if d := r.staleExcl(sv, rc); d != "" {
		r.violate("excl-wrong", "rest "+sigOfDiff(d), "at rest the excluded files of %q are not those of the current revision: %s", rc.Name, d)
	}
}

// staleExcl says how the list of excluded files differs from that of the latest revision.
func (r *Run) staleExcl(sv *Srv, rc *RepoConf) string {
	if rc.NoPoll && !rc.Push {
		return ""
	}
	list, s2, _, _, ok := r.getExcludes(rc.Name)
	if !ok || s2 != sv || r.damaged {
		return ""
	}
	var ri *RefIndex
	if kindOf(rc) == "local" {
		lo := r.localOf(rc)
		if lo == nil || !rc.Watch {
			return ""
		}
		ri = r.snapIndex(rc, lo, len(lo.Snaps)-1)
	} else if rem := r.R.ByURL[rc.URL]; rem != nil {
		ri = r.commitIndex(rc, rem, rem.tip(r.targetOf(rc, rem)))
	}
	if ri == nil {
		return ""
	}
	return exclDiff(ri, list)
}

// concur checks that as many updates as allowed do run at once.
func (r *Run) concur(s *Step) {
	if !r.up() || !r.srv.Ready {
		return
	}
	r.calm()
	n := 0
	sv := r.srv
	for _, rc := range r.servedConfs(sv) {
		if m := r.R.ByURL[rc.URL]; m != nil && !rc.NoPoll {
			m.Slow = 5000 * ms
			n++
		}
	}
	lim := sv.Conf.MaxIdx
	if lim == 0 {
		lim = 2
	}
	if n < lim {
		lim = n
	}
	r.busyWatch = 0
	end := r.W.Now() + 300e9
	for r.W.Now() < end && r.busyWatch < lim && r.up() {
		r.W.Sleep(1000 * ms)
	}
	if r.up() && sv == r.srv && r.busyWatch < lim {
		r.violate("allowance-lost", "allowance-lost", "%d repositories poll all the time, but no more than %d updates ran at once in 300 s (max-concurrent-indexers %d)", n, r.busyWatch, sv.Conf.MaxIdx)
	}
	for _, m := range r.R.ByURL {
		m.Slow = 0
	}
	r.stat("concurrency-checks")
}

// idleTasks is the number of tasks of the server when nothing goes on.
func (r *Run) idleTasks() int {
	best := -1
	for i := 0; i < 40 && r.up(); i++ {
		if r.srv.inflight == 0 && len(r.busy()) == 0 {
			n := r.srv.Proc.NTasks()
			if best < 0 || n < best {
				best = n
			}
		}
		r.W.Sleep(250 * ms)
	}
	return best
}

func (r *Run) noLeak() {
	if !r.up() || r.baseTasks <= 0 {
		return
	}
	n := r.idleTasks()
	for i := 0; i < 25 && r.up() && n > r.baseTasks; i++ {
		n = r.idleTasks()
	}
	if r.up() && n > r.baseTasks {
		r.violate("task-leak", "task-leak", "%d goroutines at rest, %d before the requests: %v", n, r.baseTasks, r.srv.Proc.TaskStates())
	}
}

// ---------------------------------------------------------------- damage

// damage spoils stored index files.
func (r *Run) damage(s *Step) {
	re := r.re(s.Path)
	n := 0
	for _, d := range r.idxDirs() {
		t := r.W.FS.Tree(d.Dir)
		for _, p := range sortedKeys(t) {
			f := d.Dir + "/" + p
			nd := r.W.FS.Node(f)
			if nd == nil || !nd.Mode().IsRegular() || !re.MatchString(f) {
				continue
			}
			b := append([]byte(nil), nd.Data()...)
			cut := 0
			if len(b) > 0 {
				cut = int(uint64(s.D) * 2654435761 % uint64(len(b)))
			}
			switch s.Mode {
			case "truncate":
				b = b[:cut]
			case "empty":
				b = nil
			case "zerotail":
				for i := cut; i < len(b); i++ {
					b[i] = 0
				}
			case "flip":
				if len(b) > 0 {
					b[cut] ^= 1 << uint(s.D%8)
				}
			case "garbage":
				g := zsim.NewRng(uint64(s.D))
				for i := range b {
					b[i] = byte(g.U64())
				}
			case "unreadable":
				nd.SetUnreadable(true)
			case "delete":
				r.W.FS.Del(f)
			}
			if s.Mode != "unreadable" && s.Mode != "delete" {
				nd.SetData(b)
			}
			r.damaged = true
			n++
			r.W.CountFault("damage-" + s.Mode)
			r.W.Log("damaged %s (%s at %d of %d)", f, s.Mode, cut, len(nd.Data()))
			if s.N > 0 && n >= s.N {
				return
			}
		}
	}
}

// plant puts things in the data directory before a start.
func (r *Run) plant(s *Step) {
	c := r.P.Confs[s.Conf%len(r.P.Confs)]
	db := c.db()
	w := r.W
	w.FS.PutDir(db)
	if r.planted == nil {
		r.planted = map[string]string{}
	}
	switch s.Mode {
	case "junk":
		for _, n := range []string{"notes.txt", "other/dir/x.txt", "vcs-0123/keep.txt", "xidx-1/metadata.gob", "my-idx-2"} {
			w.FS.Put(db+"/"+n, []byte("keep "+n), 0o644)
			r.planted[db+"/"+n] = "keep " + n
		}
	case "staleidx":
		w.FS.Put(db+"/idx-00000000deadbeef/raw/a.txt", []byte("junk"), 0o644)
		w.FS.Put(db+"/idx-00000000deadbeef/tri", []byte("csearch index 1\n"), 0o644)
		w.FS.PutDir(db + "/idx-1")
	}
}

// ---------------------------------------------------------------- paging

type flatLine struct {
	file string
	line int
}

func flatten(j *JRepo) []flatLine {
	var out []flatLine
	if j == nil {
		return nil
	}
	for _, f := range j.Matches {
		for _, m := range f.Matches {
			out = append(out, flatLine{f.Filename, m.LineNumber})
		}
	}
	return out
}

func isPrefix(a, b []flatLine) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// pages walks through the pages of a query and tries limits.
func (r *Run) pages(s *Step) {
	q := *s.Q
	q.Rng, q.Limit = "", "-1"
	if q.Bad {
		return
	}
	full, sv, st, en, ok := r.ask(&q, 0)
	if !ok {
		return
	}
	r.judge(&q, full, sv, st, en, true)
	size := max2(1, s.N)
	most := 0
	for _, j := range full {
		most = max2(most, len(j.Matches))
	}
	got := map[string]*JRepo{}
	moved := map[string]bool{}
	for n, j := range full {
		got[n] = &JRepo{Revision: j.Revision}
	}
	for off := 0; off < most+size && off/size < 40; off += size {
		p := q
		p.Rng = fmt.Sprintf("%d:%d", off, size)
		res, s2, st, en, ok := r.ask(&p, 0)
		if !ok || s2 != sv {
			return
		}
		r.judge(&p, res, sv, st, en, false)
		for _, n := range sortedKeys(full) {
			j := res[n]
			if j == nil {
				continue
			}
			if j.Revision != full[n].Revision {
				moved[n] = true
				continue
			}
			if len(j.Matches) > size {
				r.violate("page", "page-size", "%+v: %d files in a page of %d", p, len(j.Matches), size)
			}
			if j.FilesWithMatch != full[n].FilesWithMatch {
				r.violate("page", "page-count", "%+v: page %s reports %d files with matches, the whole answer %d", p, p.Rng, j.FilesWithMatch, full[n].FilesWithMatch)
			}
			got[n].Matches = append(got[n].Matches, j.Matches...)
		}
		r.stat("pages")
	}
	now, s2, _, _, ok := r.ask(&q, 0)
	if !ok || s2 != sv {
		return
	}
	for _, n := range sortedKeys(full) {
		if now[n] == nil || now[n].Revision != full[n].Revision || moved[n] || r.localChanging(n) {
			continue
		}
		a, b := flatten(full[n]), flatten(got[n])
		if most/size < 39 && (len(a) != len(b) || !isPrefix(a, b)) {
			r.violate("page", "page-union", "%+v by pages of %d: %q: pages give %v, the whole answer %v", q, size, n, clip(fmt.Sprint(b)), clip(fmt.Sprint(a)))
		}
		if x := flatten(now[n]); len(x) != len(a) || !isPrefix(a, x) {
			r.violate("page", "page-order", "%+v: %q: asking twice gives %v and %v", q, n, clip(fmt.Sprint(a)), clip(fmt.Sprint(x)))
		}
	}
	// limits
	total := 0
	for _, n := range sortedKeys(full) {
		total = max2(total, len(flatten(full[n])))
	}
	for _, l := range []int{1, 2, 3, total / 2, total - 1, total, total + 1} {
		if l < 1 {
			continue
		}
		for k := 0; k < 2; k++ {
			p := q
			p.Limit = strconv.Itoa(l)
			if k == 1 {
				p.Rng = "1:2"
			}
			res, s2, _, _, ok := r.ask(&p, 0)
			if !ok || s2 != sv {
				return
			}
			r.stat("limits")
			for _, n := range sortedKeys(full) {
				if res[n] == nil && k == 1 {
					continue
				}
				if res[n] == nil {
					if !r.localChanging(n) && kindOf(sv.Conf.repo(n)) == "local" {
						r.violate("limit", "limit-empty", "%+v: nothing for %q", p, n)
					}
					continue
				}
				if res[n].Revision != full[n].Revision || r.localChanging(n) {
					continue
				}
				want := flatten(full[n])
				if k == 1 {
					w := &JRepo{}
					if len(full[n].Matches) > 1 {
						w.Matches = full[n].Matches[1:min2(3, len(full[n].Matches))]
					}
					want = flatten(w)
				}
				have := flatten(res[n])
				if len(have) > l {
					r.violate("limit", "limit-exceeded", "%+v: %d lines for %q", p, len(have), n)
				} else if len(have) < l && len(have) < len(want) {
					r.violate("limit", "limit-short", "%+v: %d of %d lines for %q", p, len(have), len(want), n)
				} else if !isPrefix(have, want) {
					r.violate("limit", "limit-other-lines", "%+v: %q: %v is not the beginning of %v", p, n, clip(fmt.Sprint(have)), clip(fmt.Sprint(want)))
				}
			}
		}
	}
}

func (r *Run) localChanging(n string) bool {
	rc := r.srv.Conf.repo(n)
	if rc == nil || kindOf(rc) != "local" {
		return false
	}
	lo := r.localOf(rc)
	return lo != nil && len(lo.Snaps) > 1
}

// ---------------------------------------------------------------- command line

var ackLine = regexp.MustCompile(`^(\d+)([:-])( *)(.*)$`)

type ackFile struct {
	name  string
	lines map[int]string
	match map[int]bool
	dup   bool
}
type ackRepo struct {
	name  string
	files []*ackFile
}

func parseAck(out string, repos map[string]bool) ([]*ackRepo, string) {
	var rs []*ackRepo
	var f *ackFile
	ls := strings.Split(out, "\n")
	if len(ls) > 0 && ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	} else if out != "" {
		return nil, "the output does not end with a newline"
	}
	for _, l := range ls {
		if f != nil {
			if l == "" {
				f = nil
				continue
			}
			if l == "--" {
				continue
			}
			m := ackLine.FindStringSubmatch(l)
			if m == nil {
				return nil, fmt.Sprintf("unexpected line %q", clip(l))
			}
			n, _ := strconv.Atoi(m[1])
			pad := 6 - len(m[1])
			text := l[len(m[1])+1:]
			if pad > 0 {
				if len(text) < pad {
					return nil, fmt.Sprintf("short line %q", l)
				}
				text = text[pad:]
			}
			if _, ok := f.lines[n]; ok {
				f.dup = true
			}
			f.lines[n] = text
			f.match[n] = m[2] == ":"
			continue
		}
		if repos[l] && (len(rs) == 0 || len(rs[len(rs)-1].files) > 0) {
			rs = append(rs, &ackRepo{name: l})
			continue
		}
		if len(rs) == 0 {
			return nil, fmt.Sprintf("output starts with %q", clip(l))
		}
		f = &ackFile{name: l, lines: map[int]string{}, match: map[int]bool{}}
		rs[len(rs)-1].files = append(rs[len(rs)-1].files, f)
	}
	return rs, ""
}

func (r *Run) displayName(rc *RepoConf) string {
	if rc.Display != "" {
		return rc.Display
	}
	// the last two parts of the URL
	u := strings.TrimSuffix(rc.URL, ".git")
	ax := strings.LastIndex(u, "/")
	if ax < 0 {
		return rc.Name
	}
	if ax == len(u)-1 {
		return rc.Name
	}
	if bx := strings.LastIndex(u[:ax], "/"); bx >= 0 {
		return u[bx+1:]
	}
	return u[ax+1:]
}

// cli runs the command-line client.
func (r *Run) cli(s *Step) {
	if !r.up() || !r.srv.Ready {
		if s.Mode != "unready" {
			return
		}
	}
	w := r.W
	sv := r.srv
	q := *s.Q
	q.Lit, q.Limit, q.Rng, q.Exclude = false, "", "", ""
	args := []string{"hound"}
	if len(q.Repos) > 0 && q.Repos[0] != "*" {
		args = append(args, "-repos", strings.Join(q.Repos, ","))
	}
	if q.Files != "" {
		args = append(args, "-files", q.Files)
	}
	ctx := q.Ctx
	if ctx == "" || ctx[0] < '0' || ctx[0] > '9' {
		ctx = "2"
	}
	q.Ctx = ctx
	if ctx != "2" {
		args = append(args, "-context", ctx)
	}
	if q.I {
		args = append(args, "-ignore-case")
	}
	if q.Stats {
		args = append(args, "-show-stats")
	}
	cc := s.Cli
	if cc != nil && cc.Flag != "" {
		args = append(args, "-host", cc.Flag)
	}
	args = append(args, "--", q.Pat)
	var truth map[string]*JRepo
	ok := true
	if s.Mode != "unready" {
		q2 := q
		q2.Bad = true // an error is an answer here
		rs, s2, st := r.do("GET", "/api/v1/search", q.form(), "", 0)
		if r.lost("search", rs, s2, st) || s2 != sv {
			return
		}
		truth, ok = parseTruth(rs.Body)
	}
	moved := func() bool { return false }
	p := w.NewProc("hound", "prog")
	p.Args = args
	p.Env = map[string]string{"HOME": cliHome, "PATH": "/usr/bin"}
	zsim.ResetPackages(cliPkg)
	p.Tty = s.Tty
	want := r.cliSetup(cc, p)
	defer r.cliTeardown()
	var asked []*cliReq
	if s.OutErr != "" {
		p.OutErr, p.OutRoom = errOf(s.OutErr).(syscall.Errno), s.N
	}
	faulted := 0
	delay := int64(0)
	w.Net.RoundTripF = func(req *http.Request) *zsim.NetFault {
		asked = append(asked, &cliReq{addr: req.URL.Host, host: req.Host, path: req.URL.Path, hdr: req.Header.Clone()})
		n := s.Net
		if n == nil {
			return nil
		}
		isSearch := strings.Contains(req.URL.Path, "/search")
		if n.Which == "search" && !isSearch || n.Which == "repos" && isSearch {
			return nil
		}
		faulted++
		delay += n.D * ms
		switch n.Kind {
		case "delay":
			faulted--
			return &zsim.NetFault{Kind: "delay", Delay: n.D * ms}
		case "delay2":
			faulted--
			return &zsim.NetFault{Kind: "delay", Delay2: n.D * ms}
		case "refuse":
			return &zsim.NetFault{Kind: "refuse", Refuse: true}
		case "drop":
			return &zsim.NetFault{Kind: "drop", Drop: true}
		case "cut":
			return &zsim.NetFault{Kind: "cut", CutAt: n.At + 1}
		case "cutclean":
			return &zsim.NetFault{Kind: "cut-unnoticed", CutAt: n.At + 1, CutClean: true}
		case "garble":
			return &zsim.NetFault{Kind: "garble", Garble: n.At + 1}
		case "status":
			return &zsim.NetFault{Kind: "status", Status: n.Status, Body: n.Body}
		}
		return nil
	}
	p.Spawn("main", HoundMain)
	r.stat("cli-runs")
	if s.Net != nil && s.Net.Restart {
		w.Sleep(int64(s.Net.At) * 1000)
		r.killNow()
		faulted++
	}
	if !p.WaitExit(600e9 + 4*delay) {
		r.violate("cli-hang", "cli-hang", "hound %q has not ended; tasks %v", args[1:], p.TaskStates())
		p.Kill()
		return
	}
	w.Net.RoundTripF = nil
	if d := want.judge(asked, p.Code == 0); d != "" {
		r.violate("cli-asks", sigOfDiff(d), "hound %q with /etc/hound.conf %q, ~/.hound %q: %s", args[1:], cc.etc(), cc.home(), d)
		return
	}
	if p.Code != 0 {
		r.stat("cli-failures")
		if faulted == 0 && !want.bad && !want.none && p.OutHit == 0 && ok && s.Mode != "unready" && !moved() && !q.Bad && r.up() && sv == r.srv {
			r.violate("cli-failed", firstLine(p.Stack), "hound %q failed (%s %d) with nothing wrong: %s %s", args[1:], p.Reason, p.Code, p.Err, p.Stack)
		}
		return
	}
	// success: the output must be the server's answer
	if p.OutHit > 0 {
		r.violate("cli-false", "output", "hound %q ended with success although its output could not be written (%s after %d bytes)", args[1:], s.OutErr, s.N)
		return
	}
	if s.Mode == "unready" {
		r.violate("cli-false", "unready", "hound %q ended with success although the server was not serving; output %q", args[1:], clip(string(p.Out)))
		return
	}
	if !ok {
		r.violate("cli-false", "server error", "hound %q ended with success although the server answered with an error; output %q", args[1:], clip(string(p.Out)))
		return
	}
	names := map[string]bool{}
	byName := map[string][]*JRepo{}
	for n, j := range truth {
		rc := sv.Conf.repo(n)
		if rc == nil {
			continue
		}
		d := r.displayName(rc)
		names[d] = true
		byName[d] = append(byName[d], j)
	}
	out := string(p.Out)
	if s.Tty {
		plain, bad := decolour(out, &q, truth)
		if bad != "" {
			r.violate("colour", sigOfDiff(bad), "hound %q on a terminal: %s; output %q", args[1:], bad, clip(out))
			return
		}
		r.stat("cli-coloured")
		out = plain
		if s.Net == nil && s.OutErr == "" && s.Mode == "" && sv == r.srv {
			// and once more off the terminal
			p2 := w.NewProc("hound", "prog")
			p2.Args, p2.Env = args, p.Env
			zsim.ResetPackages(cliPkg)
			p2.Spawn("main", HoundMain)
			if !p2.WaitExit(600e9) {
				p2.Kill()
			} else if p2.Code == 0 && sv == r.srv {
				// repositories come in any order
				a, b := strings.Split(out, "\n"), strings.Split(string(p2.Out), "\n")
				sort.Strings(a)
				sort.Strings(b)
				r.stat("cli-compared")
				if len(a) != len(b) {
					r.violate("colour", "lines", "hound %q prints %d lines on a terminal, %d elsewhere", args[1:], len(a)-1, len(b)-1)
					return
				}
				for i := range a {
					if a[i] != b[i] {
						r.violate("colour", "text", "hound %q: %q on a terminal, %q elsewhere", args[1:], clip(a[i]), clip(b[i]))
						return
					}
				}
			}
		}
	}
	rs, bad := parseAck(out, names)
	what := fmt.Sprintf("hound %q", args[1:])
	if s.Net != nil {
		what += fmt.Sprintf(" (%s on %s)", s.Net.Kind, s.Net.Which)
	}
	if bad != "" {
		r.violate("cli-wrong", sigOfDiff(bad), "%s: %s; output %q", what, bad, clip(string(p.Out)))
		return
	}
	if d := ackDiff(rs, byName); d != "" {
		r.violate("cli-wrong", sigOfDiff(d), "%s ended with success but %s", what, d)
	}
	r.stat("cli-answers")
}

var sgr = regexp.MustCompile("\x1b\\[([0-9;]*)m")

// decolour takes the escape sequences out of the output, and judges them: each
// colour ends in the line it begins in, they are not nested, and in the lines
// that match precisely what matches is coloured.
func decolour(out string, q *Query, truth map[string]*JRepo) (string, string) {
	for _, j := range truth {
		for _, f := range j.Matches {
			for _, m := range f.Matches {
				if strings.Contains(m.Line+strings.Join(m.Before, "")+strings.Join(m.After, ""), "\x1b") {
					return out, ""
				}
			}
		}
	}
	re, err := regexp.Compile(cliPattern(q.Pat, q.I))
	if err != nil {
		return out, ""
	}
	coloured := 0
	ls := strings.Split(out, "\n")
	for i, l := range ls {
		var plain strings.Builder
		var spans [][2]int
		on, from, at := false, 0, 0
		for _, x := range sgr.FindAllStringSubmatchIndex(l, -1) {
			plain.WriteString(l[at:x[0]])
			at = x[1]
			code := l[x[2]:x[3]]
			off := code == "" || code == "0"
			if off != on {
				return out, fmt.Sprintf("colours begin or end twice in %q", l)
			}
			on = !off
			if on {
				from = plain.Len()
				coloured++
			} else if plain.Len() > from {
				spans = append(spans, [2]int{from, plain.Len()})
			}
		}
		plain.WriteString(l[at:])
		if on {
			return out, fmt.Sprintf("a colour does not end in %q", l)
		}
		ls[i] = plain.String()
		if strings.Contains(ls[i], "\x1b") {
			return out, fmt.Sprintf("a broken escape sequence in %q", l)
		}
		m := ackLine.FindStringSubmatch(ls[i])
		if m == nil || len(spans) == 0 || spans[0] != [2]int{0, len(m[1])} {
			continue // not a line of a file, or it just looks like one
		}
		spans = spans[1:]
		p := len(m[1])
		if p < 6 {
			p = 6
		}
		var want [][2]int
		if m[2] == ":" && len(ls[i]) > p {
			for _, x := range re.FindAllStringIndex(ls[i][p+1:], -1) {
				if x[1] > x[0] {
					want = append(want, [2]int{x[0] + p + 1, x[1] + p + 1})
				}
			}
		}
		if fmt.Sprint(spans) != fmt.Sprint(want) {
			return out, fmt.Sprintf("in the line %q the parts %v are coloured, %v match", ls[i], spans, want)
		}
	}
	if coloured == 0 && out != "" {
		return out, "nothing is coloured"
	}
	return strings.Join(ls, "\n"), ""
}

func cliPattern(pat string, i bool) string {
	if i {
		return "(?i)(?m)" + pat
	}
	return "(?m)" + pat
}

// ackDiff compares what is printed with the answer. Repositories may be shown
// under the same name.
func ackDiff(rs []*ackRepo, want map[string][]*JRepo) string {
	left := map[string][]*JRepo{}
	for n, js := range want {
		left[n] = append([]*JRepo(nil), js...)
	}
	for _, a := range rs {
		js := left[a.name]
		if len(js) == 0 {
			if len(want[a.name]) > 0 {
				return fmt.Sprintf("repository %q is printed twice", a.name)
			}
			return fmt.Sprintf("repository %q is not in the answer", a.name)
		}
		first, at := "", -1
		for k, j := range js {
			d := ackRepoDiff(a, j)
			if d == "" {
				at = k
				break
			}
			if first == "" {
				first = d
			}
		}
		if at < 0 {
			return first
		}
		left[a.name] = append(js[:at:at], js[at+1:]...)
	}
	for n, js := range left {
		if len(js) > 0 {
			return fmt.Sprintf("repository %q is not printed", n)
		}
	}
	return ""
}

func ackRepoDiff(a *ackRepo, j *JRepo) string {
	if len(a.files) != len(j.Matches) {
		return fmt.Sprintf("repository %q: %d files printed, %d in the answer", a.name, len(a.files), len(j.Matches))
	}
	for i, f := range a.files {
		jf := j.Matches[i]
		if f.name != jf.Filename {
			return fmt.Sprintf("file %q printed for %q", f.name, jf.Filename)
		}
		if f.dup {
			return fmt.Sprintf("file %q: a line is printed twice", f.name)
		}
		lines := map[int]string{}
		match := map[int]bool{}
		for _, m := range jf.Matches {
			for k, l := range m.Before {
				lines[m.LineNumber-len(m.Before)+k] = l
			}
			lines[m.LineNumber] = m.Line
			match[m.LineNumber] = true
			for k, l := range m.After {
				lines[m.LineNumber+1+k] = l
			}
		}
		var nos []int
		for n := range lines {
			nos = append(nos, n)
		}
		sort.Ints(nos)
		for _, n := range nos {
			t, ok := f.lines[n]
			if !ok {
				return fmt.Sprintf("file %q: line %d (match: %v) is not printed", f.name, n, match[n])
			}
			if t != lines[n] {
				return fmt.Sprintf("file %q: line %d is printed as %q, it is %q", f.name, n, clip(t), clip(lines[n]))
			}
			if f.match[n] != match[n] {
				return fmt.Sprintf("file %q: line %d is printed as match=%v", f.name, n, f.match[n])
			}
		}
		if len(f.lines) != len(lines) {
			return fmt.Sprintf("file %q: %d lines printed, %d in the answer", f.name, len(f.lines), len(lines))
		}
	}
	return ""
}
