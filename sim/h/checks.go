//go:build go1.22

package h

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/hound-search/hound/zsim"
)

// G makes plans.
type G struct {
	*zsim.Rng
	P    *Plan
	C    *Conf
	Big  bool
	Deep bool
	Many int // one in so many repositories has very many files
	nRem int
}

func (g *G) pick(s ...string) string { return s[g.Intn(len(s))] }
func (g *G) pickI(n ...int) int      { return n[g.Intn(len(n))] }
func (g *G) add(s ...*Step)          { g.P.Steps = append(g.P.Steps, s...) }

var remoteKinds = []string{"git", "git", "git", "hg", "svn", "bzr"}

// sched draws how tasks are interleaved. busy: many preemptions.
func (g *G) sched(busy bool) {
	s := zsim.Sched{Policy: g.pick("random", "random", "random", "pct", "fifo", "lifo")}
	if busy {
		s.PreemptMean = int64(g.pickI(20, 100, 400, 2000, 10000))
	} else {
		s.PreemptMean = int64(g.pickI(0, 1000, 5000, 40000))
	}
	if s.PreemptMean > 0 && g.Intn(2) == 0 {
		s.StallP = []float64{0.01, 0.05, 0.3}[g.Intn(3)]
		s.StallMax = []int64{1, 20, 300, 3000}[g.Intn(4)] * ms
	}
	if g.Intn(2) == 0 {
		s.SlowOpP = []float64{0.002, 0.02, 0.2}[g.Intn(3)]
		s.SlowOpMax = []int64{1, 10, 100, 1000}[g.Intn(4)] * ms
	}
	if g.Intn(3) == 0 {
		s.RareP = []float64{0.003, 0.02, 0.1}[g.Intn(3)]
		s.RareK = g.pickI(1, 3, 10, 30)
	}
	g.P.Sched = s
}

// remote adds an upstream and an entry for it.
func (g *G) remote(kind string, nfiles int) (*RemoteSpec, *RepoConf) {
	g.nRem++
	var u string
	switch kind {
	case "git":
		u = g.pick("https://git.example.com/org/repo%d.git", "git@git.example.com:org/repo%d.git", "ssh://git@host/r/repo%d", "https://git.example.com/o/repo%d")
		if g.Intn(8) == 0 {
			u = g.pick("/repo%d", "host:repo%d.git", "/srv/git/repo%d.git", "file:///git/repo%d", "git://h/repo%d")
		}
	case "hg":
		u = "https://hg.example.com/hg/repo%d"
	case "svn":
		u = "svn://svn.example.com/p/repo%d/trunk"
	case "bzr":
		u = "https://bzr.example.com/b/repo%d"
	}
	u = fmt.Sprintf(u, g.nRem)
	if g.Intn(5) == 0 {
		u = g.similarURL(kind, u)
	}
	s := &RemoteSpec{URL: u, Kind: kind, Branches: map[string][]*FileSpec{}}
	s.Branches["master"] = g.files(nfiles)
	g.P.Remotes = append(g.P.Remotes, s)
	rc := &RepoConf{Name: g.name(), URL: u, Vcs: kind}
	if kind == "git" && g.Intn(3) == 0 {
		rc.Vcs = ""
	}
	if kind == "hg" && g.Intn(3) == 0 {
		rc.Vcs = "mercurial"
	}
	if kind == "svn" && g.Intn(3) == 0 {
		rc.Vcs = "subversion"
	}
	g.C.Repos = append(g.C.Repos, rc)
	return s, rc
}

// similarURL is the address of another repository that differs little from one
// that is in use.
func (g *G) similarURL(kind, u string) string {
	for _, o := range g.P.Remotes {
		if o.Kind != kind || g.Intn(2) == 0 {
			continue
		}
		v := o.URL
		i := strings.LastIndex(v, "/")
		if i < 1 {
			continue
		}
		switch g.Intn(5) {
		case 0:
			v = v[:i] + strings.ToUpper(v[i:i+2]) + v[i+2:]
		case 1:
			if strings.HasSuffix(v, ".git") {
				v = strings.TrimSuffix(v, ".git")
			} else if kind == "git" {
				v += ".git"
			}
		case 2:
			v = strings.Replace(v, "example.com", "example.com:8443", 1)
		case 3:
			v = v[:i] + "/more" + v[i:]
		case 4:
			v = strings.Replace(v, "example.com", "example.org", 1)
		}
		for _, x := range g.P.Remotes {
			if x.URL == v {
				return u
			}
		}
		return v
	}
	return u
}

// autoList makes a list of auto-generated files, in any order.
func (g *G) autoList() []string {
	l := []string{"v.txt"}
	for i := g.pickI(0, 1, 1, 3, 8, 20); i > 0; i-- {
		l = append(l, pathPool[g.Intn(len(pathPool))])
	}
	for i := range l {
		j := g.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// otherList is a list as long as l with other members.
func (g *G) otherList(l []string) []string {
	m := append([]string(nil), l...)
	m[g.Intn(len(m))] = pathPool[g.Intn(len(pathPool))]
	if g.Intn(2) == 0 {
		m[g.Intn(len(m))] = g.pick("zz.txt", "v.txt", "gen/model.pb.go")
	}
	return m
}

func (g *G) name() string {
	n := len(g.C.Repos) + 1
	return fmt.Sprintf(g.pick("repo%d", "Repo-%d", "org/r%d", "répo%d", "a b%d", "r.%d"), n)
}

// manyFiles makes so many small files that the distances between those with the
// same contents take more than one byte in the index.
func (g *G) manyFiles() []*FileSpec {
	n := g.pickI(129, 140, 200, 300, 420)
	words := []string{"foo", "handler", "mark7", "quick fox", "日本", "ho"}
	text := make([]string, n)
	for _, w := range words {
		at := g.Intn(60)
		for i := g.Range(1, 4); i > 0 && at < n; i-- {
			text[at] += w + "\n"
			at += g.pickI(1, 5, 63, 64, 127, 128, 128, 129, 130, 200, 255, 256, 257)
		}
	}
	var fs []*FileSpec
	for i, t := range text {
		if t == "" {
			t = g.pick("x\n", "", "}\n", "and\n")
		}
		fs = append(fs, &FileSpec{Path: fmt.Sprintf("many/f%03d", i), Text: t})
	}
	return fs
}

func (g *G) files(n int) []*FileSpec {
	fs := genFiles(g.Rng, n, &GenCtx{Big: g.Big})
	if g.Many > 0 && g.Intn(g.Many) == 0 {
		fs = append(fs, g.manyFiles()...)
	}
	if len(fs) == 0 || g.Intn(10) > 0 {
		has := false
		for _, f := range fs {
			if f.Path == "v.txt" {
				has = true
			}
		}
		if !has {
			fs = append(fs, &FileSpec{Path: "v.txt", Text: "version 0 foo\n" + genLine(g.Rng) + "\n"})
		}
	}
	return fs
}

// local adds a folder and an entry for it.
func (g *G) local(nfiles int) (*LocalSpec, *RepoConf) {
	g.nRem++
	l := &LocalSpec{Path: fmt.Sprintf("/srv/dir%d", g.nRem)}
	l.Files = g.localFiles(nfiles)
	g.P.Locals = append(g.P.Locals, l)
	p := l.Path
	if g.Intn(4) == 0 { // by way of links
		for i := g.Range(1, 2); i > 0; i-- {
			to := p
			if g.Intn(2) == 0 {
				to = path.Base(p)
			}
			p = fmt.Sprintf("/srv/to%d.%d", g.nRem, i)
			g.P.Locals = append(g.P.Locals, &LocalSpec{Path: p, Link: to})
		}
	}
	rc := &RepoConf{Name: g.name(), URL: "file://" + p, Vcs: "local"}
	g.C.Repos = append(g.C.Repos, rc)
	return l, rc
}

func (g *G) localFiles(n int) []*FileSpec {
	fs := g.files(n)
	if g.Intn(4) == 0 {
		fs = append(fs, &FileSpec{Path: "pipe", Kind: "fifo"})
	}
	if g.Intn(6) == 0 {
		fs = append(fs, &FileSpec{Path: "emptydir/sub", Kind: "dir"})
	}
	return fs
}

func (g *G) anyRepo(nfiles int) *RepoConf {
	if g.Intn(6) == 0 {
		_, rc := g.local(nfiles)
		rc.Watch = g.Intn(2) == 0
		if g.Intn(2) == 0 {
			rc.Ignored = []string{g.pick("README.md", "lib", "src", "deep", ".hidden", "b")}
		}
		return rc
	}
	_, rc := g.remote(remoteKinds[g.Intn(len(remoteKinds))], nfiles)
	return rc
}

// quickPoll gives all entries short polling intervals.
func (g *G) quickPoll(choices ...int) {
	for _, rc := range g.C.Repos {
		rc.PollMs = choices[g.Intn(len(choices))]
	}
}

func (g *G) spec(url string) *RemoteSpec {
	for _, s := range g.P.Remotes {
		if s.URL == url {
			return s
		}
	}
	return nil
}

// branchOf is the branch an entry follows at the start.
func (g *G) branchOf(rc *RepoConf) string {
	s := g.spec(rc.URL)
	if s == nil {
		return ""
	}
	if s.Kind == "git" && rc.Ref != "" {
		return rc.Ref
	}
	if s.Kind == "git" && !rc.Detect {
		return "master"
	}
	if s.Head != "" && (s.Kind != "git" || s.Branches[s.Head] != nil) {
		return s.Head
	}
	return "master"
}

var commitN int

// change makes a step that changes what an entry follows.
func (g *G) change(rc *RepoConf) *Step {
	commitN++
	set := []*FileSpec{{Path: "v.txt", Text: fmt.Sprintf("version %d foo\nline %d\n%s\n", g.Intn(1000000), g.Intn(100), genLine(g.Rng))}}
	var del []string
	for i := g.Intn(4); i > 0; i-- {
		p := pathPool[g.Intn(len(pathPool))]
		if g.Intn(4) == 0 {
			del = append(del, p)
		} else {
			set = append(set, genSpec(g.Rng, p, &GenCtx{Big: g.Big}))
		}
	}
	if kindOf(rc) == "local" {
		return &Step{Op: "local", Path: strings.TrimPrefix(rc.URL, "file://"), Set: set, Del: del}
	}
	op := "commit"
	if g.Intn(5) == 0 {
		op = "rewrite"
		set = append(set, genFiles(g.Rng, g.Intn(6), &GenCtx{Big: g.Big})...)
	}
	return &Step{Op: op, URL: rc.URL, Branch: g.branchOf(rc), Set: set, Del: del}
}

// flap changes a watched folder and changes it back soon after.
func (g *G) flap(rc *RepoConf) {
	c := g.change(rc)
	if c.Op != "local" {
		return
	}
	n := g.Range(1, 2)
	for i := 0; i < n; i++ {
		g.add(g.change(rc), sleep(g.pickI(1, 3, 20, 100, 500)))
	}
	g.add(&Step{Op: "local", Path: c.Path, Mode: "revert", N: n})
}

func (g *G) anyConf() *RepoConf { return g.C.Repos[g.Intn(len(g.C.Repos))] }

func (g *G) q() *Query {
	q := genQuery(g.Rng, g.C.names())
	if q.Bad {
		q.Pat, q.Files, q.Exclude, q.Bad = "foo", "", "", false
	}
	return q
}

// dump asks for everything.
func dumpQ(repos ...string) *Query {
	if len(repos) == 0 {
		repos = []string{"*"}
	}
	return &Query{Pat: "", Repos: repos, Ctx: "0", Limit: "-1"}
}

func (g *G) search() *Step {
	q := genQuery(g.Rng, g.C.names())
	if g.Intn(5) == 0 {
		q = dumpQ()
	}
	if g.Intn(6) == 0 {
		genPaged(g.Rng, q)
	}
	return &Step{Op: "search", Q: q}
}

func (g *G) reader(n int, d int64) *Step {
	a := &Step{Op: "actor", N: n, D: d}
	for i := g.Range(1, 3); i > 0; i-- {
		a.Sub = append(a.Sub, g.search())
	}
	if g.Intn(3) == 0 {
		a.Sub = append(a.Sub, &Step{Op: "excludes", Repo: g.anyConf().Name})
	}
	return a
}

func sleep(d int) *Step { return &Step{Op: "sleep", D: int64(d)} }

func (g *G) settings(rc *RepoConf) {
	if g.Intn(3) == 0 {
		rc.DotEx = true
	}
	if g.Intn(5) == 0 {
		rc.AutoGen = g.autoList()
	}
	if g.Intn(6) == 0 {
		rc.Display = "Shown " + rc.Name
	}
	if s := g.spec(rc.URL); s != nil && s.Kind == "git" {
		switch g.Intn(6) {
		case 0:
			b := g.pick("dev", "release/1.0", "main")
			s.Branches[b] = g.files(g.Range(1, 6))
			rc.Ref = b
		case 1:
			b := g.pick("main", "trunk", "master")
			if b != "master" {
				s.Branches[b] = g.files(g.Range(1, 6))
			}
			s.Head = b
			rc.Detect = true
			if g.Intn(8) == 0 && s.Branches["master"] != nil { // the default branch is one that is not there
				s.Head = "gone"
			}
		}
	}
}

func (g *G) conf() {
	g.C = &Conf{DbPath: g.pick("/var/hound/data", "data", "/data"), MaxIdx: g.pickI(0, 1, 1, 2, 3)}
	if g.Chance(0.1) {
		// Directories whose names mean something to patterns, shells or addresses.
		g.C.DbPath = g.pick("/var/hound/data[1]", "/opt/my data", "/var/h*und", "data-\\1", "/data/büro", "/var/h?und", "./data", "../data", "/data/", "/var/hound/a]b[c", "/var/100%/data", "/var/index/x", "/var/new-data")
	}
	g.P.Confs = []*Conf{g.C}
}

// world adds n entries with some settings.
func (g *G) world(n, nfiles int) {
	for i := 0; i < n; i++ {
		rc := g.anyRepo(g.Range(1, nfiles))
		g.settings(rc)
	}
}

// trouble is a short disturbance of an upstream.
func (g *G) trouble(rc *RepoConf) *Step {
	s := &Step{Op: "remote", URL: rc.URL, Mode: g.pick("down", "up", "slow", "hang", "fail", "blip", "norev", "badrev"), N: g.Range(1, 3)}
	switch s.Mode {
	case "slow":
		s.D = int64(g.pickI(0, 20, 500, 5000))
	case "hang":
		s.D = int64(g.pickI(1000, 20000, 120000))
	}
	return s
}

const idxPath = `/idx-[0-9a-f]+`

// buildFault makes an index build fail.
func (g *G) buildFault() *FaultRule {
	f := &FaultRule{Who: "srv", Err: g.pick("EIO", "ENOSPC", "EIO", "EACCES", "EMFILE")}
	switch g.Intn(9) {
	case 0:
		f.Kinds, f.Path = "create mkdir", idxPath
	case 1:
		f.Kinds, f.Path, f.Err = "write", idxPath, g.pick("EIO", "ENOSPC")
		f.Short = g.Intn(2) == 0
	case 2: // the temporary files
		f.Kinds, f.Path, f.Err = "create write read seek", `^/tmp/`, g.pick("EIO", "ENOSPC")
		f.Short = g.Intn(3) == 0
	case 3: // reading the source
		f.Kinds, f.Path, f.Err = "open read readdir lstat stat", `/(vcs-|srv/)`, g.pick("EIO", "EACCES", "EMFILE")
	case 4:
		f.Kinds, f.Path, f.Err = "close", `^/tmp/|`+idxPath, g.pick("EIO", "ENOSPC")
	case 5:
		f.Kinds, f.Path = "write create", `/(tri|metadata.gob|excluded_files.json)$`
		f.Short = g.Intn(3) == 0
	case 6:
		f.Kinds, f.Path = "mmap open", `/tri$`
		f.Err = g.pick("ENOMEM", "EIO", "EMFILE")
	case 7:
		f.Kinds, f.Path = "write", `/raw/`
		f.Err = g.pick("EIO", "ENOSPC")
		f.Short = g.Intn(3) == 0
	case 8: // a short read
		f.Kinds, f.Path, f.Err, f.Short = "read", `/(vcs-|srv/)|^/tmp/|`+idxPath, "", true
		f.P = []float64{0.1, 0.5, 1}[g.Intn(3)]
		return f
	}
	switch g.Intn(4) {
	case 0:
		f.P = []float64{0.01, 0.05, 0.3}[g.Intn(3)]
	case 1:
		// all of them
	default:
		f.Nth = 1 + int(g.Log(1, 60))
		f.Count = g.pickI(1, 1, 1, 2, 1000000)
	}
	return f
}

func (g *G) rmFault() *FaultRule {
	f := &FaultRule{Kinds: g.pick("remove", "removeall remove", "remove rmdir unlink removeall"), Path: idxPath, Who: "srv", Err: g.pick("EACCES", "EIO", "ENOTEMPTY")}
	if g.Intn(2) == 0 {
		f.Nth = g.Range(1, 12)
		f.Count = g.pickI(1, 2, 1000000)
	} else {
		f.P = 0.2
	}
	return f
}

func (g *G) killRule() *KillRule {
	k := &KillRule{Part: g.pickI(0, 0, 1, 2)}
	switch g.Intn(6) {
	case 0:
		k.Ops = g.Log(1, 2000)
	case 1:
		k.Stmts = g.Log(1, 200000)
	case 2:
		k.Kinds, k.Path, k.Nth = "any", idxPath, int(g.Log(1, 100))
	case 3:
		k.Kinds, k.Path, k.Nth = "remove rmdir unlink removeall", "", g.Range(1, 20)
	case 4:
		k.Kinds, k.Path, k.Nth = "any", `/(tri|metadata.gob|excluded_files.json)$`, g.Range(1, 10)
	case 5:
		k.Kinds, k.Path, k.Nth = "exec mkdir create rename", "", g.Range(1, 12)
	}
	return k
}

// gen makes the plan of a run.
func Gen(prop string, seed uint64, deep bool) *Plan {
	r := zsim.NewRng(zsim.Hash64(prop, seed*0x9e3779b97f4a7c15+1))
	g := &G{Rng: r, P: &Plan{Prop: prop, Seed: r.U64() >> 1}, Deep: deep}
	if f := profiles[prop]; f != nil {
		g.conf()
		f(g)
	} else {
		panic("no such property: " + prop)
	}
	return g.P
}

var profiles = map[string]func(g *G){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07, "C08": genC08,
	"C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16,
	"C17": genC17, "C18": genC18, "C19": genC19, "C20": genC20, "C21": genC21, "C22": genC22, "C23": genC23,
	"C30": genC30,
	"C32": genC32, "C33": genC33, "C36": genC36,
}

func genC01(g *G) {
	g.Many = 15
	g.Big = g.Intn(3) == 0
	g.sched(false)
	g.world(g.Range(1, 2), 14)
	g.quickPoll(200, 1000, 5000)
	g.add(&Step{Op: "start"})
	n := g.Range(8, 30)
	for i := 0; i < n; i++ {
		g.add(g.search())
		if g.Intn(8) == 0 {
			g.add(g.change(g.anyConf()))
			if g.Intn(2) == 0 {
				g.add(sleep(g.Range(0, 2000)))
			}
		}
		if g.Intn(25) == 0 {
			g.add(&Step{Op: "restart"})
		}
		if g.Intn(20) == 0 {
			g.add(g.reader(3, 10))
		}
	}
	g.add(&Step{Op: "settle"})
	for i := 0; i < 4; i++ {
		g.add(g.search())
	}
}

func genC02(g *G) {
	g.sched(true)
	g.world(g.Range(1, 2), 7)
	g.quickPoll(20, 60, 200)
	if g.P.Sched.StallMax > 300*ms {
		g.P.Sched.StallMax = 300 * ms
	}
	g.add(&Step{Op: "start"})
	for round := g.Range(1, 2); round > 0; round-- {
		for i := g.Range(2, 5); i > 0; i-- {
			a := &Step{Op: "actor", N: g.Range(4, 12), D: int64(g.pickI(0, 1, 7, 30))}
			for k := g.Range(1, 2); k > 0; k-- {
				switch g.Intn(5) {
				case 0:
					a.Sub = append(a.Sub, &Step{Op: "excludes", Repo: g.anyConf().Name})
				case 1:
					a.Sub = append(a.Sub, &Step{Op: "search", Q: dumpQ(), Slow: int64(g.pickI(0, 0, 5, 100))})
				case 2:
					a.Sub = append(a.Sub, &Step{Op: "search", Q: &Query{Pat: "foo|version", Repos: []string{"*"}, Ctx: "2"}})
				default:
					a.Sub = append(a.Sub, &Step{Op: "search", Q: g.q(), Slow: int64(g.pickI(0, 0, 0, 20))})
				}
			}
			g.add(a)
		}
		for i := g.Range(2, 6); i > 0; i-- {
			g.add(g.change(g.anyConf()), sleep(g.pickI(1, 10, 50, 200)))
		}
	}
	if g.Intn(4) == 0 {
		g.add(&Step{Op: "fault", Fault: g.rmFault()})
		g.add(g.change(g.anyConf()), sleep(300), &Step{Op: "nofault"})
	}
	g.add(&Step{Op: "join"}, &Step{Op: "settle"})
}

func genC03(g *G) {
	g.sched(g.Intn(2) == 0)
	g.world(g.Range(1, 3), 6)
	if g.Intn(6) == 0 {
		g.local(6)
	}
	for _, rc := range g.C.Repos {
		if kindOf(rc) == "local" {
			rc.Watch = true
		}
	}
	g.quickPoll(50, 300, 1000, 5000)
	if g.Intn(3) == 0 {
		g.quickPoll(1000, 5000, 10000)
	}
	if g.Intn(6) == 0 {
		g.anyConf().PollMs = 0
	}
	if g.Intn(6) == 0 { // it starts while an upstream has trouble
		g.add(&Step{Op: "start", NoWait: true}, sleep(g.Range(0, 50)))
	} else {
		g.add(&Step{Op: "start"})
	}
	for round := g.Range(1, 3); round > 0; round-- {
		for i := g.Range(2, 9); i > 0; i-- {
			rc := g.anyConf()
			sp := g.spec(rc.URL)
			switch k := g.Intn(14); {
			case k < 5:
				g.add(g.change(rc))
			case k < 7 && sp != nil:
				g.add(g.trouble(rc))
			case k == 7 && sp != nil:
				g.add(&Step{Op: "force", URL: rc.URL, Branch: g.branchOf(rc), N: g.Intn(5)})
			case k == 8 && sp != nil:
				var bs []string
				for b := range sp.Branches {
					bs = append(bs, b)
				}
				sort.Strings(bs)
				if sp.Kind == "git" && rc.Detect && g.Intn(2) == 0 {
					g.add(&Step{Op: "rename", URL: rc.URL, Path: g.pick("", "", "/", "trunk", "main", "master")})
				} else if sp.Kind == "git" {
					g.add(&Step{Op: "head", URL: rc.URL, Branch: bs[g.Intn(len(bs))]})
				}
			case k == 9:
				g.add(&Step{Op: "fault", Fault: g.buildFault()})
			case k == 10:
				g.add(&Step{Op: "nofault"})
			case k == 11 && sp != nil && sp.Kind == "git":
				// a commit somewhere else
				c := g.change(rc)
				c.Branch = g.pick("other", "dev", "main", "master")
				g.add(c)
			case k < 7 && sp == nil:
				for i := g.Range(1, 3); i > 0; i-- {
					g.flap(rc)
					g.add(sleep(g.pickI(1, 10, 100)))
				}
			case k == 12:
				g.add(&Step{Op: "clock", D: int64(g.pickI(-3600000, -5000, 10000, 86400000))})
			case k == 13:
				g.add(&Step{Op: "fault", Fault: &FaultRule{Kinds: "exec", Who: "srv", Err: g.pick("EMFILE", "ENOMEM"), Nth: g.Range(1, 6), Count: g.Range(1, 4)}})
			}
			g.add(sleep(g.pickI(0, 30, 200, 1500, 8000)))
			if g.Intn(4) == 0 {
				g.add(g.search())
			}
		}
		if rc := g.anyConf(); rc.Detect && g.spec(rc.URL) != nil { // one question goes unanswered, the rest is well
			for i := g.Range(2, 6); i > 0; i-- {
				g.add(&Step{Op: "remote", URL: rc.URL, Mode: "blip", N: 1}, sleep(g.pickI(400, 2000, 6000)), &Step{Op: "search", Q: dumpQ(rc.Name)})
			}
		}
		if rc := g.anyConf(); g.Intn(4) == 0 && g.spec(rc.URL) != nil { // many at once
			for i := g.Range(5, 14); i > 0; i-- {
				g.add(g.change(rc))
			}
			g.add(sleep(g.pickI(0, 200, 1500)), g.search())
		}
		if g.Intn(3) == 0 {
			slow := true
			for _, rc := range g.C.Repos {
				slow = slow && (rc.PollMs == 0 || rc.PollMs >= 1000)
			}
			if slow { // nothing happens for long, then something does
				g.add(&Step{Op: "nofault"}, sleep(g.pickI(300000, 900000)), g.change(g.anyConf()))
			}
		}
		g.add(&Step{Op: "settle"})
	}
}

func genC04(g *G) {
	g.sched(g.Intn(2) == 0)
	g.world(g.Range(1, 3), 4)
	g.quickPoll(200, 2000, 10000, 60000)
	if g.Intn(4) == 0 { // only requests bring anything in time
		g.quickPoll(3600000)
	}
	for _, rc := range g.C.Repos {
		switch g.Intn(5) {
		case 0:
		case 1, 2:
			rc.Push = true
		default:
			rc.Push, rc.NoPoll = true, true
		}
	}
	if g.Intn(5) == 0 {
		g.anyConf().NoPoll = true
		g.anyConf().Push = false
	}
	g.add(&Step{Op: "start"})
	upd := func() *Step {
		rc := g.anyConf()
		switch g.Intn(9) {
		case 0:
			return &Step{Op: "webhook", Repo: rc.Name}
		case 1:
			return &Step{Op: "webhook", Repo: "nosuch/repo"}
		case 2:
			return &Step{Op: "webhook", Repo: rc.Name, Mode: "bad", Body: g.pick("{", "", "[]x", "not json", `{"repository": 5}`)}
		case 3:
			return &Step{Op: "update", Repos: []string{"*"}}
		case 4:
			return &Step{Op: "update", Repos: []string{rc.Name, g.anyConf().Name, "nosuch"}}
		case 5:
			return &Step{Op: g.pick("update", "webhook"), Repo: rc.Name, Repos: []string{rc.Name}, Method: "GET"}
		}
		return &Step{Op: "update", Repos: []string{rc.Name}}
	}
	for round := g.Range(1, 3); round > 0; round-- {
		for i := g.Range(1, 4); i > 0; i-- {
			a := &Step{Op: "actor", N: g.Range(1, 8), D: int64(g.pickI(0, 1, 40, 300, 3000))}
			a.Sub = append(a.Sub, upd())
			if g.Intn(3) == 0 {
				a.Sub = append(a.Sub, upd())
			}
			g.add(a)
		}
		for i := g.Range(1, 5); i > 0; i-- {
			rc := g.anyConf()
			switch g.Intn(6) {
			case 0, 1, 2:
				g.add(g.change(rc))
				if rc.Push && g.Intn(2) == 0 {
					g.add(&Step{Op: "update", Repos: []string{rc.Name}})
				}
			case 3:
				if g.spec(rc.URL) != nil {
					g.add(g.trouble(rc))
				}
			case 4:
				if g.spec(rc.URL) != nil {
					g.add(&Step{Op: "remote", URL: rc.URL, Mode: "slow", D: int64(g.pickI(0, 500, 5000, 30000))})
				}
			case 5:
				g.add(&Step{Op: "health"}, g.search())
			}
			g.add(sleep(g.pickI(0, 1, 20, 400, 3000)))
		}
		// the last word: a change and a request after it
		mode := ""
		if g.Intn(2) == 0 {
			g.add(&Step{Op: "join"})
			rc := g.anyConf()
			g.add(g.change(rc))
			if rc.Push {
				g.add(&Step{Op: "update", Repos: []string{rc.Name}})
			}
		}
		g.add(&Step{Op: "settle", Mode: mode})
	}
}

func genC05(g *G) {
	g.sched(g.Intn(3) == 0)
	g.world(g.Range(1, 3), 6)
	for _, rc := range g.C.Repos {
		if kindOf(rc) == "local" {
			rc.Watch = true
		}
	}
	g.quickPoll(50, 300, 1000)
	g.add(&Step{Op: "start"})
	for round := g.Range(1, 4); round > 0; round-- {
		if g.Intn(2) == 0 {
			g.add(g.reader(g.Range(3, 20), int64(g.pickI(1, 50, 300))))
		}
		rc := g.anyConf()
		for i := g.Range(1, 2); i > 0; i-- {
			switch g.Intn(6) {
			case 0, 1, 2:
				g.add(&Step{Op: "fault", Fault: g.buildFault()})
			case 3:
				g.add(&Step{Op: "fault", Fault: g.rmFault()})
			case 4:
				if g.spec(rc.URL) != nil {
					g.add(g.trouble(rc))
				}
			case 5:
				g.add(&Step{Op: "fault", Fault: &FaultRule{Kinds: "write create mkdir rename", Path: `/vcs-`, Who: "vcs", Err: g.pick("EIO", "ENOSPC"), Nth: g.Range(1, 20), Count: g.pickI(1, 2, 1000)}})
			}
		}
		g.add(g.change(rc), sleep(g.pickI(100, 800, 3000)))
		for i := g.Intn(3); i > 0; i-- {
			g.add(g.search(), &Step{Op: "search", Q: dumpQ()})
			g.add(g.change(g.anyConf()), sleep(g.pickI(100, 800, 3000)))
		}
		if g.Intn(2) == 0 {
			g.add(&Step{Op: "nofault"}, sleep(g.pickI(0, 100, 2000)), g.search())
		}
		g.add(&Step{Op: "settle"})
	}
}

func genC06(g *G) {
	g.sched(g.Intn(3) == 0)
	g.world(g.Range(1, 3), 6)
	g.quickPoll(50, 300, 1000)
	for k := g.Range(1, 5); k > 0; k-- {
		if g.Intn(2) == 0 {
			// killed somewhere during the start
			g.add(&Step{Op: "start", NoWait: true}, &Step{Op: "kill", Kill: g.killRule()})
			g.add(sleep(g.pickI(1, 20, 200, 2000)))
			if g.Intn(3) == 0 {
				g.add(g.change(g.anyConf()))
			}
			g.add(&Step{Op: "awaitdeath", D: int64(g.pickI(10, 1000, 10000))})
			g.add(&Step{Op: "kill"})
		} else {
			g.add(&Step{Op: "start"})
			for i := g.Range(0, 2); i > 0; i-- {
				g.add(g.change(g.anyConf()), sleep(g.pickI(0, 100, 700)))
			}
			if rc := g.anyConf(); g.Intn(3) == 0 && g.spec(rc.URL) != nil {
				// killed while an index is removed, which is wanted again
				g.add(&Step{Op: "kill", Kill: &KillRule{Kinds: "remove", Path: idxPath, Nth: g.Range(1, 8), Part: g.pickI(0, 1)}}, g.change(rc))
				g.add(&Step{Op: "awaitdeath", D: int64(g.pickI(1000, 10000))}, &Step{Op: "kill"})
				g.add(&Step{Op: "force", URL: rc.URL, Branch: g.branchOf(rc), N: -1})
				g.add(&Step{Op: "start"}, &Step{Op: "search", Q: dumpQ()}, &Step{Op: "excludes", Repo: rc.Name}, g.search())
				if g.Intn(2) == 0 {
					g.add(&Step{Op: "settle"})
				}
				continue
			}
			g.add(&Step{Op: "kill", Kill: g.killRule()}, g.change(g.anyConf()))
			if g.Intn(2) == 0 {
				g.add(g.search())
			}
			g.add(g.change(g.anyConf()))
			g.add(&Step{Op: "awaitdeath", D: int64(g.pickI(10, 1000, 10000))}, &Step{Op: "kill"})
		}
		if g.Intn(3) == 0 {
			g.add(g.change(g.anyConf()))
		}
	}
	g.add(&Step{Op: "start"}, &Step{Op: "search", Q: dumpQ()}, g.search(), &Step{Op: "settle"})
}

func genC07(g *G) {
	g.sched(false)
	g.world(g.Range(1, 3), 5)
	g.quickPoll(100, 500, 2000)
	// a second configuration without some of the entries
	if len(g.C.Repos) > 1 && g.Intn(2) == 0 {
		c2 := *g.C
		c2.Repos = g.C.Repos[1:]
		g.P.Confs = append(g.P.Confs, &c2)
	}
	if g.Intn(2) == 0 {
		g.add(&Step{Op: "plant", Mode: g.pick("junk", "staleidx")})
	}
	for k := g.Range(2, 5); k > 0; k-- {
		if g.Intn(4) == 0 {
			g.add(&Step{Op: "plant", Mode: g.pick("junk", "staleidx")})
		}
		g.add(&Step{Op: "start", Conf: g.Intn(len(g.P.Confs))})
		if g.Intn(3) > 0 {
			g.add(&Step{Op: "search", Q: dumpQ()})
		}
		if g.Intn(2) == 0 {
			for i := g.Range(1, 4); i > 0; i-- {
				g.add(g.change(g.anyConf()), sleep(g.pickI(0, 200, 3000)))
			}
			if g.Intn(3) == 0 {
				g.add(&Step{Op: "fault", Fault: g.buildFault()}, g.change(g.anyConf()), sleep(2000), &Step{Op: "nofault"})
			}
		}
		if g.Intn(3) > 0 {
			g.add(&Step{Op: "settle"})
		}
		switch g.Intn(4) {
		case 0:
			g.add(&Step{Op: "kill"})
		case 1:
			g.add(&Step{Op: "kill", Kill: g.killRule()}, sleep(2000), &Step{Op: "kill"})
		default:
			g.add(&Step{Op: "term"})
		}
		if g.Intn(5) == 0 {
			g.add(&Step{Op: "damage", Path: idxPath + g.pick("", "/tri$", "/metadata"), Mode: g.pick(damageModes...), N: g.Range(1, 3), D: int64(g.Intn(100000))})
		}
		if g.Intn(4) == 0 {
			g.add(g.change(g.anyConf()))
		}
	}
	g.add(&Step{Op: "start"}, &Step{Op: "settle"})
}

var damageModes = []string{"truncate", "empty", "garbage", "unreadable", "delete"}

func genC08(g *G) {
	g.sched(false)
	g.world(g.Range(1, 2), 9)
	for _, rc := range g.C.Repos {
		if kindOf(rc) == "local" {
			rc.Watch = true
		}
	}
	g.quickPoll(100, 500)
	switch g.Intn(4) {
	case 0: // faults while starting
		g.add(&Step{Op: "fault", Fault: g.buildFault()})
		if g.Intn(3) == 0 {
			g.add(&Step{Op: "fault", Fault: g.buildFault()})
		}
		g.add(&Step{Op: "start"}, &Step{Op: "search", Q: dumpQ()}, g.search())
		g.add(&Step{Op: "nofault"}, &Step{Op: "search", Q: dumpQ()})
		for _, rc := range g.C.Repos {
			g.add(&Step{Op: "excludes", Repo: rc.Name})
		}
		g.add(&Step{Op: "restart"}, &Step{Op: "search", Q: dumpQ()}, &Step{Op: "settle"})
	case 1: // faults while updating
		g.add(&Step{Op: "start"})
		for k := g.Range(1, 3); k > 0; k-- {
			g.add(&Step{Op: "fault", Fault: g.buildFault()})
			for i := g.Range(1, 3); i > 0; i-- {
				g.add(g.change(g.anyConf()), sleep(g.pickI(200, 1000, 3000)), &Step{Op: "search", Q: dumpQ()}, g.search())
			}
			g.add(&Step{Op: "nofault"}, &Step{Op: "search", Q: dumpQ()})
			for _, rc := range g.C.Repos {
				g.add(&Step{Op: "excludes", Repo: rc.Name})
			}
		}
		g.add(&Step{Op: "settle"})
		if g.Intn(2) == 0 {
			g.add(&Step{Op: "restart"}, &Step{Op: "settle"})
		}
	case 2: // faults while searching
		g.add(&Step{Op: "start"}, &Step{Op: "settle"})
		f := &FaultRule{Kinds: g.pick("read", "open read", "read seek", "open"), Path: g.pick(`/raw/`, idxPath), Who: "srv", Err: g.pick("EIO", "EMFILE", "EACCES")}
		switch g.Intn(3) {
		case 0:
			f.P = 0.2
		case 1:
			f.Nth, f.Count = g.Range(1, 20), g.Range(1, 3)
		case 2:
			f.Short, f.Err, f.P = true, "", 0.5
			f.Kinds = "read"
		}
		g.add(&Step{Op: "fault", Fault: f})
		for i := g.Range(3, 8); i > 0; i-- {
			g.add(g.search())
			if g.Intn(3) == 0 {
				g.add(&Step{Op: "excludes", Repo: g.anyConf().Name})
			}
		}
		g.add(&Step{Op: "nofault"}, &Step{Op: "search", Q: dumpQ()}, &Step{Op: "settle"})
	case 3: // damaged files, found at the next start or at once
		g.add(&Step{Op: "start"}, &Step{Op: "settle"})
		hot := g.Intn(2) == 0
		if !hot {
			g.add(&Step{Op: "kill"})
		}
		// a mapped file that shrinks is beyond what a process can survive
		p := g.pick(`/raw/`, `/raw/`, `excluded_files.json`)
		if !hot {
			p = g.pick(`/raw/`, `excluded_files.json`, `/metadata.gob`, `/tri$`)
		}
		mode := damageModes[g.Intn(len(damageModes))]
		if p == `/tri$` && mode == "garbage" {
			mode = "truncate"
		}
		g.add(&Step{Op: "damage", Path: p, Mode: mode, N: g.Range(1, 3), D: int64(g.Intn(1 << 20))})
		if !hot {
			g.add(&Step{Op: "start", Mode: "damaged"})
		}
		for i := 0; i < 4; i++ {
			g.add(g.search())
		}
		g.add(&Step{Op: "search", Q: dumpQ()})
		for _, rc := range g.C.Repos {
			g.add(&Step{Op: "excludes", Repo: rc.Name})
		}
	}
}

func genC09(g *G) {
	g.sched(g.Intn(3) == 0)
	g.world(g.Range(2, 4), 4)
	g.quickPoll(100, 500, 2000)
	for _, rc := range g.C.Repos {
		if kindOf(rc) == "local" {
			rc.Watch = true
		}
	}
	bad := map[*RepoConf]bool{}
	early := g.Intn(2) == 0
	for i := g.Range(1, 2); i > 0; i-- {
		switch g.Intn(6) {
		case 0: // never there
			rc := &RepoConf{Name: g.name(), URL: fmt.Sprintf("https://git.example.com/gone%d", i), Vcs: "git", Broken: true, PollMs: 200}
			g.C.Repos = append(g.C.Repos, rc)
			bad[rc] = true
		case 1:
			rc := &RepoConf{Name: g.name(), URL: fmt.Sprintf("https://git.example.com/odd%d", i), Vcs: g.pick("cvs", "perforce", "GIT"), Broken: true}
			g.C.Repos = append(g.C.Repos, rc)
			bad[rc] = true
		case 2:
			rc := &RepoConf{Name: g.name(), URL: fmt.Sprintf("https://svn.example.com/bad%d", i), Null: g.Intn(5) == 0, Vcs: g.pick("svn", "git", "local"), RawConf: g.pick(`{"username": 5, "ref": {}, "ignored-files": 3}`, `{"username": [], "ref": 5, "watch-changes": "x"}`), Broken: true}
			g.C.Repos = append(g.C.Repos, rc)
			bad[rc] = true
		case 3:
			rc := &RepoConf{Name: g.name(), URL: fmt.Sprintf("file:///srv/nothere%d", i), Vcs: "local", Broken: true}
			g.C.Repos = append(g.C.Repos, rc)
			bad[rc] = true
		default:
			rc := g.anyConf()
			if g.spec(rc.URL) != nil && !rc.Broken {
				bad[rc] = true
				if early {
					g.add(&Step{Op: "remote", URL: rc.URL, Mode: g.pick("down", "fail", "badrev", "norev", "hang"), N: g.Range(1, 6), D: int64(g.pickI(2000, 60000))})
				}
			}
		}
	}
	// shuffle, so that the troubled one may be anywhere
	for i := len(g.C.Repos) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		g.C.Repos[i], g.C.Repos[j] = g.C.Repos[j], g.C.Repos[i]
	}
	if g.Intn(6) == 0 {
		g.C.Global = map[string]string{g.pick("git", "svn", "local", "hg", "cvs"): g.pick("null", "{}")}
	}
	g.add(&Step{Op: "start"})
	g.add(&Step{Op: "repos"}, &Step{Op: "search", Q: dumpQ()})
	for i := g.Range(2, 8); i > 0; i-- {
		rc := g.anyConf()
		if bad[rc] && g.spec(rc.URL) != nil {
			g.add(g.trouble(rc))
			continue
		}
		if rc.Broken {
			g.add(&Step{Op: "excludes", Repo: rc.Name})
			g.add(&Step{Op: "search", Q: dumpQ(rc.Name, g.anyConf().Name)})
			g.add(&Step{Op: "update", Repos: []string{rc.Name}})
			continue
		}
		g.add(g.change(rc), sleep(g.pickI(0, 300, 2500)), g.search())
		if g.Intn(4) == 0 {
			g.add(&Step{Op: "excludes", Repo: rc.Name})
		}
	}
	g.add(&Step{Op: "settle"})
	if g.Intn(2) == 0 {
		g.add(&Step{Op: "restart"}, &Step{Op: "settle"})
	}
}

// health asks as load balancers and monitors do.
func (g *G) health() *Step {
	s := &Step{Op: "health", Method: g.pick("", "", "", "GET", "HEAD", "HEAD")}
	if g.Intn(3) == 0 {
		s.Body = g.pick("?x=1", "?from=lb&n=2", "?")
	}
	return s
}

func genC10(g *G) {
	g.sched(g.Intn(2) == 0)
	g.world(g.Range(1, 4), 4)
	g.quickPoll(100, 1000)
	if g.Intn(3) == 0 {
		g.C.Health = g.pick("/health", "/status/up", "/api/v1/healthz", "/healthz/")
	}
	for _, rc := range g.C.Repos {
		if g.spec(rc.URL) != nil && g.Intn(2) == 0 {
			g.add(&Step{Op: "remote", URL: rc.URL, Mode: "slow", D: int64(g.pickI(5, 100, 2000, 20000))})
		}
		rc.Push = g.Intn(3) == 0
	}
	for run := g.Range(1, 2); run > 0; run-- {
		g.add(&Step{Op: "start", NoWait: true})
		for i := g.Range(2, 5); i > 0; i-- {
			a := &Step{Op: "actor", N: g.Range(10, 40), D: int64(g.pickI(0, 1, 10, 150, 1000))}
			for k := g.Range(1, 3); k > 0; k-- {
				rc := g.anyConf()
				switch g.Intn(10) {
				case 0:
					a.Sub = append(a.Sub, g.health())
				case 1:
					a.Sub = append(a.Sub, &Step{Op: "repos"})
				case 2:
					a.Sub = append(a.Sub, &Step{Op: "excludes", Repo: rc.Name})
				case 3, 4:
					a.Sub = append(a.Sub, &Step{Op: "search", Q: g.q(), Slow: int64(g.pickI(0, 0, 0, 3, 300))})
				case 5:
					a.Sub = append(a.Sub, &Step{Op: "update", Repos: []string{rc.Name}})
				case 6:
					a.Sub = append(a.Sub, &Step{Op: "get", Path: "/", N: 200})
				case 7:
					a.Sub = append(a.Sub, &Step{Op: "get", Path: g.pick("/open_search.xml", "/js/hound.js", "/css/hound.css", "/excluded_files.html"), N: 200})
				case 8:
					a.Sub = append(a.Sub, &Step{Op: "webhook", Repo: rc.Name})
				case 9:
					a.Sub = append(a.Sub, &Step{Op: "get", Path: "/no/such/page", N: 404})
				}
			}
			g.add(a)
		}
		g.add(g.health(), sleep(g.pickI(1, 50, 1000)), g.health(), &Step{Op: "ready"}, g.health(), &Step{Op: "search", Q: dumpQ()})
		g.add(&Step{Op: "join"})
	}
	g.add(&Step{Op: "settle"})
}

func genC11(g *G) {
	g.sched(g.Intn(2) == 0)
	g.world(g.Range(1, 4), 5)
	g.quickPoll(20, 100, 1000, 10000)
	for _, rc := range g.C.Repos {
		switch g.Intn(5) {
		case 0:
			rc.NoPoll = true
		case 1:
			rc.Push = true
		case 2:
			rc.NoPoll, rc.Push = true, true
		}
	}
	for k := g.Range(1, 3); k > 0; k-- {
		if g.Intn(4) == 0 {
			g.add(&Step{Op: "start", NoWait: true}, sleep(g.pickI(0, 1, 20, 300, 3000)))
			if g.Intn(3) == 0 {
				g.add(&Step{Op: "term", NoWait: true}, sleep(g.pickI(0, 10)))
			}
			g.add(&Step{Op: "term"})
		} else {
			g.add(&Step{Op: "start"})
			for i := g.Range(0, 4); i > 0; i-- {
				rc := g.anyConf()
				switch g.Intn(6) {
				case 0, 1:
					g.add(g.change(rc))
				case 2:
					if g.spec(rc.URL) != nil {
						g.add(&Step{Op: "remote", URL: rc.URL, Mode: g.pick("slow", "hang"), D: int64(g.pickI(100, 2000, 20000))})
					}
				case 3:
					g.add(&Step{Op: "update", Repos: []string{g.pick("*", rc.Name)}})
				case 4:
					g.add(g.reader(g.Range(2, 10), 20))
				case 5:
					g.add(&Step{Op: "actor", N: g.Range(2, 10), D: 30, Sub: []*Step{{Op: "update", Repos: []string{rc.Name}}}})
				}
				g.add(sleep(g.pickI(0, 1, 15, 100, 900)))
			}
			if g.Intn(4) == 0 {
				g.add(&Step{Op: "settle"})
			}
			g.add(&Step{Op: "term", Mode: g.pick("ready", "ready", "")})
		}
		if g.Intn(4) == 0 {
			g.add(g.change(g.anyConf()))
		}
	}
	g.add(&Step{Op: "start"}, &Step{Op: "settle"}, &Step{Op: "term", Mode: "ready"})
}

func genC12(g *G) {
	g.sched(g.Intn(3) == 0)
	g.world(g.Range(3, 7), 3)
	g.C.MaxIdx = g.pickI(0, 1, 1, 2, 2, 3, 4)
	g.quickPoll(20, 100, 500)
	for _, rc := range g.C.Repos {
		if kindOf(rc) == "local" {
			rc.Watch = true
		}
		if g.spec(rc.URL) != nil && g.Intn(2) == 0 {
			g.add(&Step{Op: "remote", URL: rc.URL, Mode: "slow", D: int64(g.pickI(10, 100, 1000))})
		}
		rc.Push = g.Intn(3) == 0
	}
	if g.Intn(4) == 0 {
		g.add(&Step{Op: "remote", URL: g.anyConf().URL, Mode: "down"})
	}
	g.add(&Step{Op: "start"})
	for round := g.Range(1, 2); round > 0; round-- {
		for i := g.Range(4, 12); i > 0; i-- {
			rc := g.anyConf()
			switch g.Intn(8) {
			case 0, 1, 2:
				g.add(g.change(rc))
			case 3, 4:
				if g.spec(rc.URL) != nil {
					g.add(g.trouble(rc))
				}
			case 5:
				g.add(&Step{Op: "update", Repos: []string{"*"}}, &Step{Op: "update", Repos: []string{rc.Name}})
			case 6:
				g.add(&Step{Op: "fault", Fault: g.buildFault()})
			case 7:
				g.add(&Step{Op: "nofault"})
			}
			g.add(sleep(g.pickI(0, 10, 100, 1000)))
		}
		g.add(&Step{Op: "nofault"}, &Step{Op: "settle"}, &Step{Op: "concur"}, &Step{Op: "settle"})
	}
}

func genC13(g *G) {
	g.sched(false)
	g.world(g.Range(1, 3), 4)
	g.quickPoll(100, 500)
	sec := func() string {
		s := fmt.Sprintf(g.pick("S3cr3t-%08x", "pässwörd%08x", "tok_%012x", "user%08x@corp", "pa:ss/%08x", "p&%08x<x>"), g.U64()>>24)
		g.C.Secrets = append(g.C.Secrets, s)
		return s
	}
	for _, rc := range g.C.Repos {
		if g.Intn(3) > 0 {
			user, pass := "username", "password"
			if g.Intn(3) == 0 { // names are matched without regard to case
				user, pass = g.pick("Username", "userName", "USERNAME"), g.pick("Password", "passWord", "PASSWORD")
			}
			rc.VcsConf = map[string]string{user: sec(), pass: sec()}
			if g.Intn(2) == 0 {
				rc.VcsConf[g.pick("token", "api-key", "auth", "x", "ref-token", "Token", "")] = sec()
			}
		}
		rc.Push = g.Intn(2) == 0
		rc.Ref = ""
		rc.Ignored = nil
	}
	if g.Intn(2) == 0 {
		g.C.Global = map[string]string{}
		for _, k := range []string{"git", "svn", "hg"} {
			if g.Intn(2) == 0 {
				g.C.Global[k] = fmt.Sprintf(g.pick(`{"username":%q,"password":%q}`, `{"Username":%q,"PassWord":%q}`, `{"user":%q,"credentials":{"pw":%q}}`, `{"keys":[%q,%q]}`), sec(), sec())
			}
		}
	}
	for _, rc := range g.C.Repos {
		if rc.VcsConf != nil || g.Intn(3) > 0 { // settings of the wrong type
			continue
		}
		f := g.pick(`%q`, `[%q]`, `{"username":[%q]}`, `{"password":{"is":%q}}`, `[{"password":%q}]`)
		if g.C.Global != nil && f[0] != '{' {
			continue
		}
		rc.RawConf = fmt.Sprintf(f, sec())
		k := kindOf(rc)
		rc.Watch, rc.Detect = false, false
		rc.Broken = k == "svn" || f[0] != '{' && (k == "git" || k == "local")
	}
	if g.Intn(3) == 0 {
		rc := &RepoConf{Name: "broken", URL: "https://svn.example.com/gone", Vcs: g.pick("svn", "git", "hg", "cvs"), Broken: true, VcsConf: map[string]string{"username": sec(), "password": sec()}}
		g.C.Repos = append(g.C.Repos, rc)
	}
	for _, rc := range g.C.Repos {
		// the branch a detected one follows stays
		_ = rc
	}
	visit := func() {
		for _, p := range []string{"/", "/open_search.xml", "/api/v1/repos", "/excluded_files.html", "/api/v1/search?q=(&repos=*", "/api/v1/search?q=%5B&repos=*", "/api/v1/excludes?repo=nosuch", "/api/v1/excludes", "/api/v1/update", "/api/v1/github-webhook", "/nosuch", "/api/v1/search?repos=nosuch&q=x", "/config.json", "/../config.json", "/js/../../config.json", "/?q=x&repos=*", "/index.html", "/api/v1/repos?x=1", "/api/v1/"} {
			if g.Intn(2) == 0 {
				g.add(&Step{Op: "get", Path: p})
			}
		}
		for _, rc := range g.C.Repos {
			g.add(&Step{Op: "excludes", Repo: rc.Name})
		}
		g.add(&Step{Op: "search", Q: dumpQ()}, g.search(), &Step{Op: "update", Repos: []string{"*"}}, &Step{Op: "webhook", Repo: g.anyConf().Name}, &Step{Op: "webhook", Repo: g.anyConf().Name, Mode: "bad", Body: "{"}, &Step{Op: "repos"}, &Step{Op: "health"})
	}
	if g.Intn(2) == 0 {
		g.add(&Step{Op: "start", NoWait: true})
		visit()
		g.add(&Step{Op: "ready"})
	} else {
		g.add(&Step{Op: "start"})
	}
	visit()
	for _, rc := range g.C.Repos {
		if g.spec(rc.URL) != nil {
			g.add(g.trouble(rc))
			g.add(g.change(rc))
		}
	}
	g.add(sleep(2000))
	visit()
	if g.Intn(2) == 0 {
		g.add(&Step{Op: "fault", Fault: &FaultRule{Kinds: "open read", Path: idxPath, Who: "srv", Err: "EIO", P: 0.5}})
		visit()
		g.add(&Step{Op: "nofault"})
	}
	g.add(&Step{Op: "settle"})
	visit()
}

func genC14(g *G) {
	g.Big = g.Intn(2) == 0
	g.sched(false)
	g.world(g.Range(1, 2), 22)
	g.quickPoll(100, 1000)
	for _, rc := range g.C.Repos {
		rc.DotEx = g.Intn(2) == 0
		if kindOf(rc) == "local" {
			rc.Watch = true
		}
	}
	if g.Intn(3) == 0 { // what is special to other systems is nothing special here
		rc := g.anyConf()
		var fs []*FileSpec
		k := kindOf(rc)
		for _, p := range []string{".git/config", ".hg/hgrc", ".svn/entries", ".bzr/branch", "sub/.git/HEAD", "d/.hg/x", "e/.svn/x", "f/.bzr/x", ".gitmodules", ".hgignore", "CVS/Root", "a.git/x", "x.hg", ".svn2/y"} {
			if g.Intn(2) == 0 && (!strings.Contains("/"+p, "/."+k+"/") || k == "local") {
				fs = append(fs, specOf(p, genLine(g.Rng)+"\nfoo\n"))
			}
		}
		if s := g.spec(rc.URL); s != nil {
			b := g.branchOf(rc)
			s.Branches[b] = dedupe(append(s.Branches[b], fs...))
		} else {
			for _, l := range g.P.Locals {
				if "file://"+l.Path == rc.URL {
					l.Files = dedupe(append(l.Files, fs...))
				}
			}
		}
	}
	ex := func() {
		for _, rc := range g.C.Repos {
			g.add(&Step{Op: "excludes", Repo: rc.Name})
		}
	}
	g.add(&Step{Op: "start"}, &Step{Op: "search", Q: dumpQ()})
	ex()
	for i := g.Range(1, 4); i > 0; i-- {
		g.add(g.change(g.anyConf()))
		if g.Intn(3) == 0 {
			g.add(&Step{Op: "actor", N: g.Range(2, 8), D: int64(g.pickI(1, 30)), Sub: []*Step{{Op: "excludes", Repo: g.anyConf().Name}, {Op: "search", Q: dumpQ()}}})
		}
		g.add(sleep(g.pickI(0, 200, 1500)), &Step{Op: "search", Q: dumpQ()})
		ex()
		if g.Intn(5) == 0 {
			g.add(&Step{Op: "restart"})
			ex()
		}
	}
	g.add(&Step{Op: "settle"})
}

func genC15(g *G) {
	g.Many = 20
	g.sched(false)
	g.world(g.Range(1, 2), 14)
	g.quickPoll(2000, 10000)
	if g.Intn(2) == 0 {
		g.C.Limit = g.pickI(1, 2, 5, 20, 1000, -1)
	}
	g.add(&Step{Op: "start"})
	page := func() *Step {
		q := g.q()
		q.Rng, q.Limit = "", ""
		if g.Intn(3) == 0 {
			q.Pat, q.Lit, q.Files, q.Exclude = g.pick("foo", "", "o", "."), false, "", ""
		}
		return &Step{Op: "pages", Q: q, N: g.pickI(1, 1, 2, 3, 5, 50)}
	}
	for i := g.Range(2, 5); i > 0; i-- {
		g.add(page())
		if g.Intn(3) == 0 {
			g.add(g.change(g.anyConf()))
			g.add(sleep(g.pickI(0, 1000)))
		}
		if g.Intn(3) == 0 {
			g.add(&Step{Op: "actor", N: 3, D: 20, Sub: []*Step{g.search()}})
		}
		q := g.q()
		genPaged(g.Rng, q)
		g.add(&Step{Op: "search", Q: q})
	}
	g.add(&Step{Op: "join"})
}

// genC33 runs the client on a terminal.
func genC33(g *G) {
	genC16(g)
	for _, s := range g.P.Steps {
		if s.Op == "cli" {
			s.Tty = g.Intn(8) > 0
			if s.Net != nil && g.Intn(2) == 0 {
				s.Net = nil
			}
		}
	}
}

func genC16(g *G) {
	g.sched(g.Intn(3) == 0)
	g.world(g.Range(1, 3), 6)
	for _, rc := range g.C.Repos {
		rc.NoPoll = true
		rc.Display = ""
		if g.Intn(2) == 0 {
			rc.Display = "Shown " + rc.Name
		}
	}
	if g.Intn(4) == 0 {
		g.C.Limit = g.pickI(1, 3, 10)
	}
	net := func() *NetRule {
		n := &NetRule{Which: g.pick("search", "repos", "both"), Kind: g.pick("delay", "delay2", "refuse", "drop", "cut", "cutclean", "garble", "status", "status"), At: int(g.Log(1, 3000)) - 1, D: int64(g.pickI(1, 100, 5000, 60000))}
		if n.Kind == "status" {
			n.Status = g.pickI(500, 502, 503, 404, 403, 400, 301, 204, 200)
			n.Body = g.pick("", "<html>bad gateway</html>", "{}", `{"Error":"boom"}`, "null", "Hound is not ready.\n", `{"Results":{}}`, "[]")
			if n.Status == 200 {
				n.Body = g.pick("", "<html>", `{"Error":"boom"}`, `{"Results":`, "[]", `"x"`)
				if g.Intn(3) == 0 {
					n.Which, n.Body = "search", g.pick("{}", "null", `{"Results":null}`)
				}
			}
		}
		if g.Intn(12) == 0 {
			n.Kind, n.Restart = "delay", true
			n.At = g.Intn(2000)
			n.D = 1
		}
		return n
	}
	one := func() *Step {
		q := genQuery(g.Rng, g.C.names())
		q.Lit = false
		s := &Step{Op: "cli", Q: q}
		if g.Intn(2) == 0 {
			s.Net = net()
		}
		if g.Intn(6) == 0 { // a full disk or a closed pipe behind the output
			s.OutErr, s.N = g.pick("ENOSPC", "EIO", "EPIPE"), int(g.Log(1, 3000))-1
		}
		return s
	}
	if g.Intn(5) == 0 {
		u := g.anyConf().URL
		g.add(&Step{Op: "remote", URL: u, Mode: "slow", D: 5000})
		g.add(&Step{Op: "start", NoWait: true}, sleep(g.pickI(1, 100)))
		if g.spec(u) != nil {
			g.add(&Step{Op: "cli", Q: g.q(), Mode: "unready"})
		}
		g.add(&Step{Op: "ready"})
	} else {
		g.add(&Step{Op: "start"})
	}
	for i := g.Range(3, 8); i > 0; i-- {
		g.add(one())
		if g.Intn(10) == 0 {
			g.add(&Step{Op: "damage", Path: `/raw/`, Mode: g.pick("unreadable", "truncate"), N: 1, D: int64(g.Intn(100000))})
		}
	}
}

func genC17(g *G) {
	g.sched(g.Intn(3) == 0)
	for i := g.Range(1, 2); i > 0; i-- {
		_, rc := g.local(8)
		rc.Watch = g.Intn(4) > 0
		rc.Ignored = []string{g.pick("README.md", "lib", "src", "v.txt")}
		if g.Intn(3) == 0 {
			l := &LocalSpec{Path: fmt.Sprintf("/srv/link%d", i), Link: strings.TrimPrefix(rc.URL, "file://")}
			_ = l
		}
	}
	if g.Intn(2) == 0 {
		_, rc := g.remote(remoteKinds[g.Intn(len(remoteKinds))], 5)
		g.settings(rc)
	}
	g.quickPoll(50, 200, 1000)
	g.add(&Step{Op: "start"})
	for i := g.Range(2, 6); i > 0; i-- {
		rc := g.anyConf()
		g.add(g.change(rc))
		switch g.Intn(6) {
		case 0, 1:
			g.add(&Step{Op: "fault", Fault: g.buildFault()})
		case 2:
			if g.spec(rc.URL) != nil {
				g.add(g.trouble(rc))
			}
		case 3:
			g.add(g.reader(4, 50))
		}
		g.add(sleep(g.pickI(50, 500, 3000)), &Step{Op: "nofault"})
		if g.Intn(4) == 0 {
			g.add(&Step{Op: g.pick("restart", "settle")})
		}
	}
	g.add(&Step{Op: "settle"})
	if g.Intn(3) == 0 {
		g.add(&Step{Op: "term"}, &Step{Op: "start"}, &Step{Op: "settle"})
	}
}

func genC18(g *G) {
	g.sched(true)
	g.world(g.Range(3, 6), 4)
	g.quickPoll(100, 1000)
	if g.Intn(2) == 0 { // the same files everywhere, so that a mix-up is not seen by its words alone
		f := g.files(5)
		for _, s := range g.P.Remotes {
			s.Branches["master"] = append(append([]*FileSpec{}, f...), &FileSpec{Path: "own-" + strconv.Itoa(g.Intn(100)), Text: "foo of " + s.URL + "\n"})
		}
	}
	g.add(&Step{Op: "start"}, &Step{Op: "baseline"})
	for round := g.Range(1, 3); round > 0; round-- {
		for i := g.Range(1, 4); i > 0; i-- {
			a := &Step{Op: "actor", N: g.Range(2, 6), D: int64(g.pickI(0, 3, 40))}
			q := g.q()
			switch g.Intn(3) {
			case 0:
				q.Repos = []string{"*"}
			case 1:
				q.Repos = g.C.names()[g.Intn(2):]
				if g.Intn(2) == 0 {
					q.Repos = append(q.Repos, q.Repos[0])
				}
			}
			a.Sub = append(a.Sub, &Step{Op: "search", Q: q, Slow: int64(g.pickI(0, 0, 50))})
			if g.Intn(2) == 0 {
				a.Sub = append(a.Sub, g.search())
			}
			g.add(a)
		}
		switch g.Intn(4) {
		case 0, 1:
			g.add(&Step{Op: "fault", Fault: &FaultRule{Kinds: g.pick("open", "read", "open read"), Path: `/raw/`, Who: "srv", Err: g.pick("EIO", "EMFILE"), P: []float64{0.05, 0.3, 0.9}[g.Intn(3)]}})
		case 2:
			g.add(g.change(g.anyConf()))
		}
		g.add(&Step{Op: "join"}, &Step{Op: "nofault"}, &Step{Op: "noleak"})
	}
	g.add(&Step{Op: "search", Q: dumpQ()}, &Step{Op: "noleak"})
}

func attrText(g *G) string {
	var b strings.Builder
	for i := g.Range(1, 4); i > 0; i-- {
		p := g.pick("*.go", "v.txt", "gen/*", "*.pb.go", "src/main.go", "lib/*.js", "foo.txt", "README.md", "*.txt", "/a", "b")
		a := g.pick("linguist-generated=true", "linguist-generated=true", "linguist-generated=true", "-linguist-generated", "linguist-generated=false", "text", "-diff linguist-generated=true")
		b.WriteString(p + " " + a + "\n")
		if g.Intn(5) == 0 {
			b.WriteString("# comment\n\n")
		}
	}
	return b.String()
}

func genC19(g *G) {
	g.sched(g.Intn(3) == 0)
	for i := g.Range(1, 3); i > 0; i-- {
		kind := g.pick("git", "git", "git", "hg")
		s, rc := g.remote(kind, 6)
		s.Branches["master"] = append(s.Branches["master"], specOf("gen/model.pb.go", "foo\n"), specOf("lib/z.js", "foo\n"), specOf("zz.txt", "foo\n"))
		s.Branches["master"] = dedupe(s.Branches["master"])
		if g.Intn(4) > 0 {
			s.Branches["master"] = append(s.Branches["master"], specOf(".gitattributes", attrText(g)))
		}
		g.settings(rc)
		if rc.Ref != "" {
			s.Branches[rc.Ref] = append(s.Branches[rc.Ref], specOf(".gitattributes", attrText(g)))
		}
		if g.Intn(3) > 0 {
			rc.AutoGen = nil
		} else if g.Intn(2) == 0 {
			rc.AutoGen = g.autoList()
		}
	}
	if g.Intn(3) == 0 {
		_, rc := g.local(4)
		rc.AutoGen = g.autoList()
	}
	g.quickPoll(50, 300, 1000)
	if g.Intn(2) == 0 { // another list at the next start
		c2 := g.C.clone()
		for _, rc := range c2.Repos {
			if rc.AutoGen != nil {
				rc.AutoGen = g.otherList(rc.AutoGen)
			} else if g.Intn(3) == 0 {
				rc.AutoGen = g.autoList()
			}
		}
		g.P.Confs = append(g.P.Confs, c2)
	}
	g.add(&Step{Op: "start"})
	for i := g.Range(1, 5); i > 0; i-- {
		rc := g.anyConf()
		c := g.change(rc)
		if c.Op != "local" && g.Intn(2) == 0 {
			if g.Intn(4) == 0 {
				c.Del = append(c.Del, ".gitattributes")
			} else {
				c.Set = append(c.Set, specOf(".gitattributes", attrText(g)))
			}
		}
		g.add(c, &Step{Op: "search", Q: dumpQ()}, sleep(g.pickI(0, 100, 1500)), &Step{Op: "search", Q: dumpQ()})
		if g.Intn(5) == 0 {
			g.add(&Step{Op: "restart", Conf: g.Intn(len(g.P.Confs))}, &Step{Op: "search", Q: dumpQ()})
		}
		if g.Intn(4) == 0 {
			g.add(&Step{Op: "actor", N: 6, D: 20, Sub: []*Step{{Op: "search", Q: dumpQ()}}})
		}
	}
	g.add(&Step{Op: "settle"})
}

func specOf(p, text string) *FileSpec { return &FileSpec{Path: p, Text: text} }

func dedupe(fs []*FileSpec) []*FileSpec {
	have := map[string]bool{}
	var out []*FileSpec
	for _, f := range fs {
		if !conflict(have, f.Path) {
			have[f.Path] = true
			out = append(out, f)
		}
	}
	return out
}

func genC20(g *G) {
	g.sched(false)
	g.world(g.Range(1, 3), 10)
	g.quickPoll(200, 1000)
	if g.Intn(2) == 0 {
		_, rc := g.local(8)
		rc.Watch = true
	}
	if g.Intn(3) == 0 {
		g.anyConf().AutoGen = g.autoList()
	}
	base := g.C
	var ren []*Step // upstream renames that come with a changed ref
	for k := g.Range(1, 3); k > 0; k-- {
		c := base.clone()
		for i := g.Range(1, 3); i > 0; i-- {
			rc := c.Repos[g.Intn(len(c.Repos))]
			s := g.spec(rc.URL)
			switch g.Intn(9) {
			case 0, 1:
				rc.DotEx = !rc.DotEx
			case 2:
				if kindOf(rc) == "local" {
					rc.Ignored = []string{g.pick("README.md", "lib", "src", "v.txt", "deep", "a")}
				} else {
					rc.DotEx = !rc.DotEx
				}
			case 3:
				if rc.AutoGen == nil {
					rc.AutoGen = g.autoList()
				} else if g.Intn(2) == 0 {
					rc.AutoGen = g.otherList(rc.AutoGen)
				} else {
					rc.AutoGen = nil
				}
			case 4, 5:
				if s != nil && s.Kind == "git" {
					if rc.Ref == "" {
						b := g.pick("dev", "v2")
						if s.Branches[b] == nil {
							s.Branches[b] = g.files(5)
						}
						rc.Ref, rc.Detect = b, false
					} else if g.Intn(2) == 0 && base.follows(rc.URL, rc.Ref) {
						ren = append(ren, &Step{Op: "rename", URL: rc.URL, Branch: rc.Ref, Path: rc.Ref + "/1"})
						rc.Ref += "/1"
					} else {
						rc.Ref = ""
					}
				}
			case 6:
				if len(c.Repos) > 1 {
					j := g.Intn(len(c.Repos))
					c.Repos = append(c.Repos[:j], c.Repos[j+1:]...)
				}
			case 7: // renamed, or under another entry's former URL
				if len(c.Repos) > 1 {
					a, b := c.Repos[0], c.Repos[len(c.Repos)-1]
					a.Name, b.Name = b.Name, a.Name
				} else {
					rc.Name += "x"
				}
			case 8:
				rc.PollMs = g.pickI(100, 700)
				c.MaxIdx = g.pickI(1, 2)
			}
		}
		g.P.Confs = append(g.P.Confs, c)
	}
	if g.Intn(3) == 0 {
		// one repository more
		sv := g.C
		g.C = g.P.Confs[len(g.P.Confs)-1]
		rc := g.anyRepo(4)
		rc.PollMs = 300
		g.C = sv
	}
	for _, c := range g.P.Confs {
		seen := map[string]bool{}
		for _, x := range c.Repos {
			for seen[x.Name] {
				x.Name += "~"
			}
			seen[x.Name] = true
		}
	}
	if ren != nil {
		g.add(&Step{Op: "start"})
		g.add(ren...)
	}
	last := -1
	for k := g.Range(2, 5); k > 0; k-- {
		ci := g.Intn(len(g.P.Confs))
		if ci == last {
			ci = (ci + 1) % len(g.P.Confs)
		}
		last = ci
		g.add(&Step{Op: g.pick("restart", "restart", "term")})
		if g.P.Steps[len(g.P.Steps)-1].Op == "restart" {
			g.P.Steps[len(g.P.Steps)-1].Conf = ci
		} else {
			g.add(&Step{Op: "start", Conf: ci})
		}
		g.add(&Step{Op: "search", Q: dumpQ()})
		for _, rc := range g.P.Confs[ci].Repos {
			g.add(&Step{Op: "excludes", Repo: rc.Name})
		}
		if g.Intn(2) == 0 {
			g.add(g.search())
		}
		if g.Intn(3) == 0 {
			g.add(g.change(g.anyConf()))
			if g.Intn(2) == 0 {
				g.add(sleep(1500))
			}
		}
		if g.Intn(2) == 0 {
			g.add(&Step{Op: "settle"})
		}
	}
	g.add(&Step{Op: "settle"})
}

// follows reports whether an entry follows that branch explicitly.
func (c *Conf) follows(url, ref string) bool {
	for _, r := range c.Repos {
		if r.URL == url && r.Ref == ref {
			return true
		}
	}
	return false
}

func (c *Conf) clone() *Conf {
	p := (&Plan{Confs: []*Conf{c}}).Clone()
	return p.Confs[0]
}

func genC21(g *G) {
	g.sched(g.Intn(3) == 0)
	kind := g.pick("git", "git", "git", "hg", "svn", "bzr", "local")
	var rc *RepoConf
	if kind == "local" {
		_, rc = g.local(8)
		rc.Watch = true
	} else {
		_, rc = g.remote(kind, 8)
	}
	for i := g.Range(1, 2); i > 0; i-- {
		r2 := *rc
		r2.Name = g.name()
		switch {
		case kind == "git" && g.Intn(2) == 0:
			s := g.spec(rc.URL)
			s.Branches["dev"] = g.files(6)
			r2.Ref = "dev"
		case kind == "local":
			r2.Ignored = []string{g.pick("README.md", "v.txt", "src")}
		default:
			r2.DotEx = !rc.DotEx
			r2.AutoGen = []string{"v.txt"}
		}
		g.C.Repos = append(g.C.Repos, &r2)
	}
	if g.Intn(2) == 0 {
		g.anyRepo(3)
	}
	g.quickPoll(50, 300, 1000)
	g.add(&Step{Op: "start"}, &Step{Op: "search", Q: dumpQ()})
	for i := g.Range(1, 4); i > 0; i-- {
		g.add(g.change(g.anyConf()), sleep(g.pickI(0, 200, 1500)), &Step{Op: "search", Q: dumpQ()}, &Step{Op: "excludes", Repo: g.anyConf().Name})
		if g.Intn(3) == 0 {
			g.add(&Step{Op: "settle"})
		}
		if g.Intn(2) == 0 {
			g.add(&Step{Op: g.pick("restart", "restart", "term")})
			if g.P.Steps[len(g.P.Steps)-1].Op == "term" {
				g.add(&Step{Op: "start"})
			}
			g.add(&Step{Op: "search", Q: dumpQ()})
		}
	}
	g.add(&Step{Op: "settle"})
}

func genC22(g *G) {
	g.P.Power = true
	g.sched(g.Intn(3) == 0)
	g.world(g.Range(1, 2), 6)
	g.quickPoll(50, 300)
	for k := g.Range(1, 3); k > 0; k-- {
		g.add(&Step{Op: "start", NoWait: g.Intn(3) == 0})
		for i := g.Intn(3); i > 0; i-- {
			g.add(g.change(g.anyConf()), sleep(g.pickI(0, 50, 500, 4000)))
		}
		switch g.Intn(3) {
		case 0:
			g.add(sleep(g.pickI(1, 100, 2000, 40000)))
		case 1:
			g.add(&Step{Op: "kill", Kill: g.killRule()}, g.change(g.anyConf()), &Step{Op: "awaitdeath", D: int64(g.pickI(100, 3000))})
		case 2:
			g.add(&Step{Op: "settle"})
		}
		g.add(&Step{Op: "power"})
		if g.Intn(4) == 0 {
			g.add(g.change(g.anyConf()))
		}
	}
	g.add(&Step{Op: "start"}, &Step{Op: "search", Q: dumpQ()}, g.search(), &Step{Op: "settle"})
}

func genC23(g *G) {
	g.P.Confs = nil
	g.P.Sched = zsim.Sched{Policy: "fifo"}
	g.P.Stream = genStream(g.U64(), g.Deep, false)
}

// genC30: settings of one repository, of its kind and of nobody else.
func genC30(g *G) {
	g.P.Sched = zsim.Sched{Policy: g.pick("random", "pct", "fifo", "lifo"), PreemptMean: int64(g.pickI(0, 100, 1000, 10000))}
	g.P.Prompt = true
	if g.Intn(3) == 0 {
		g.sched(g.Intn(2) == 0)
		g.P.Prompt = false
	}
	// what the kinds of repositories share
	global := map[string]map[string]interface{}{}
	for _, k := range []string{"git", "svn", "local", "hg", "cvs"} {
		if g.Intn(3) == 0 {
			continue
		}
		v := map[string]interface{}{}
		switch k {
		case "git":
			if g.Intn(2) == 0 {
				v["ref"] = g.pick("dev", "release", "master", "")
			}
			if g.Intn(2) == 0 {
				v["detect-ref"] = g.Intn(3) > 0
			}
		case "svn", "hg", "cvs":
			if g.Intn(4) > 0 {
				v["username"] = g.pick("everyone", "common", "")
			}
			if g.Intn(4) > 0 {
				v["password"] = g.pick("gl0bal", "x y", "ü")
			}
		case "local":
			if g.Intn(3) > 0 {
				v["watch-changes"] = g.Intn(4) > 0
			}
			if g.Intn(2) == 0 {
				v["ignored-files"] = []string{g.pick("README.md", "lib", "src", "v.txt"), g.pick("a", "deep", "docs")}
			}
		}
		global[k] = v
	}
	g.C.Global = map[string]string{}
	for _, k := range sortedKeys(global) {
		b, _ := json.Marshal(global[k])
		g.C.Global[k] = string(b)
	}
	if g.Intn(3) == 0 {
		g.C.Title = g.pick("Code search", "x", "Nad eň")
	}
	if g.Intn(4) == 0 {
		g.C.Limit = g.pickI(1, 3, 50, 10000)
	}
	if g.Intn(4) == 0 {
		g.C.Health = g.pick("/up", "/health/check")
	}
	for i := g.Range(2, 6); i > 0; i-- {
		own := map[string]interface{}{}
		var rc *RepoConf
		kind := g.pick("git", "git", "svn", "svn", "local", "hg", "bzr")
		eff := func(k string) interface{} {
			if v, ok := own[k]; ok {
				return v
			}
			return global[kind][k]
		}
		if kind == "local" {
			_, rc = g.local(g.Range(2, 8))
			if g.Intn(3) == 0 {
				own["watch-changes"] = g.Intn(2) == 0
			}
			if g.Intn(3) == 0 {
				own["ignored-files"] = []string{g.pick("src", "lib", "main.go", "v.txt")}
			}
			rc.Watch, _ = eff("watch-changes").(bool)
			rc.Ignored, _ = eff("ignored-files").([]string)
		} else {
			s, c := g.remote(kind, g.Range(1, 6))
			rc = c
			switch kind {
			case "git":
				for _, b := range []string{"dev", "release", "own", "main"} {
					s.Branches[b] = g.files(g.Range(1, 5))
				}
				s.Head = g.pick("master", "main", "dev")
				if g.Intn(3) == 0 {
					own["ref"] = g.pick("own", "own", "dev", "master", "")
				}
				if g.Intn(3) == 0 {
					own["detect-ref"] = g.Intn(2) == 0
				}
				rc.Ref, _ = eff("ref").(string)
				rc.Detect, _ = eff("detect-ref").(bool)
				if rc.Ref != "" {
					rc.Detect = false
				}
			case "svn":
				rc.Vcs = "svn" // another name of it has settings of its own
				if g.Intn(3) == 0 {
					own["username"] = fmt.Sprintf(g.pick("user%d", "%d", "ü %d"), i)
				}
				if g.Intn(3) == 0 {
					own["password"] = fmt.Sprintf(g.pick("pass%d", "-%d", "'%d"), i)
				}
				s.User, _ = eff("username").(string)
				s.Pass, _ = eff("password").(string)
			case "hg":
				rc.Vcs = "hg"
			}
		}
		if len(own) > 0 || g.Intn(3) == 0 {
			if g.Intn(5) == 0 { // names count without regard to case
				o2 := map[string]interface{}{}
				for k, v := range own {
					o2[strings.ToUpper(k[:1])+k[1:]] = v
				}
				own = o2
			}
			b, _ := json.Marshal(own)
			rc.RawConf = string(b)
		} else {
			rc.RawConf = "-"
		}
		rc.PollMs = g.pickI(0, 0, 0, 30, 60, 300, 2000, 45000)
		rc.NoPoll = g.Intn(6) == 0
		rc.Push = g.Intn(3) == 0
		rc.DotEx = g.Intn(3) == 0
		if g.Intn(3) == 0 {
			rc.Display = "Shown " + rc.Name
		}
		if g.Intn(4) == 0 {
			rc.BaseURL = g.pick("https://x/{path}", "{url}/raw/{path}{anchor}")
		}
		if g.Intn(4) == 0 {
			rc.Anchor = g.pick("#l{line}", "#{filename}")
		}
		if g.Intn(4) == 0 {
			rc.AutoGen = []string{"v.txt", g.pick("main.go", "a")}
		}
		if s := g.spec(rc.URL); s != nil && g.Intn(25) == 0 {
			for _, b := range sortedKeys(s.Branches) {
				s.Branches[b] = append(s.Branches[b], &FileSpec{Path: "many.txt", Gen: fmt.Sprintf("lines:%d:%d", g.Intn(1000), g.Range(4900, 6000))})
			}
		}
	}
	look := func() {
		g.add(&Step{Op: "repos"}, &Step{Op: "search", Q: dumpQ()}, g.search(), &Step{Op: "title"}, &Step{Op: "health"})
		for _, rc := range g.C.Repos {
			if g.Intn(3) == 0 {
				g.add(&Step{Op: "excludes", Repo: rc.Name})
			}
		}
		if g.Intn(6) == 0 {
			g.add(&Step{Op: "update", Repos: []string{g.anyConf().Name, g.anyConf().Name}})
		}
		if g.Intn(3) == 0 { // the usual number of results
			q := dumpQ()
			q.Limit = ""
			g.add(&Step{Op: "search", Q: q})
		}
	}
	g.add(&Step{Op: "start"})
	look()
	for i := g.Range(1, 3); i > 0; i-- {
		for k := g.Range(1, 4); k > 0; k-- {
			g.add(g.change(g.anyConf()))
			if g.Intn(3) == 0 {
				rc := g.anyConf()
				if s := g.spec(rc.URL); s != nil && s.Kind == "git" {
					g.add(&Step{Op: "commit", URL: rc.URL, Branch: g.pick("master", "dev", "own", "release"), Set: []*FileSpec{{Path: "other.txt", Text: "other " + genLine(g.Rng) + "\n"}}})
				}
			}
		}
		g.add(sleep(g.pickI(1000, 20000, 40000, 70000)), &Step{Op: "polls"})
		look()
		if g.Intn(3) == 0 {
			g.add(&Step{Op: "restart"})
			look()
		}
	}
	if g.Intn(3) == 0 {
		g.add(&Step{Op: "update", Repos: []string{g.anyConf().Name}})
	}
	g.add(&Step{Op: "settle"}, &Step{Op: "polls"})
}

func genC32(g *G) {
	g.P.Confs = nil
	g.P.Sched = zsim.Sched{Policy: "fifo"}
	g.P.Stream = genStream(g.U64(), g.Deep, true)
}
