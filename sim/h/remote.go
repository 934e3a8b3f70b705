//go:build go1.22

// Package h is the harness: simulated upstreams and VCS programs, the reference
// model, scenarios, oracles and the search over runs.
package h

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/hound-search/hound/zsim"
)

// FileSpec is one file of a revision.
type FileSpec struct {
	Path string `json:"path"`
	Text string `json:"text,omitempty"`
	Gen  string `json:"gen,omitempty"`  // generated content "kind:seed:size"
	Link string `json:"link,omitempty"` // symbolic link
	Kind string `json:"kind,omitempty"` // "", fifo, dir, noread
}

func (f *FileSpec) Content() []byte {
	if f.Gen != "" {
		return genContent(f.Gen)
	}
	return []byte(f.Text)
}

// Commit is one revision of an upstream.
type Commit struct {
	Rev   string
	Files map[string]*FileSpec
	At    int64
}

func (c *Commit) Paths() []string {
	var ps []string
	for p := range c.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// Remote is an upstream repository.
type Remote struct {
	URL      string
	Kind     string
	Branches map[string]*Commit
	Head     string
	Commits  map[string]*Commit
	Down     bool
	Slow     int64 // time a network operation takes
	HangNext int64 // the next network operation takes this long
	Blip     int   // the next n network operations find no connection
	FailNext int   // the next n network operations fail half-way
	NoRev    int   // the next n revision queries print nothing
	BadRev   int   // the next n revision queries fail
	n        int
	Log      []*RemEvent // everything that moved a branch or the default branch
	Faulty   bool        // exchanges with it have failed
	User     string      // svn: who may read it
	Pass     string
	w        *zsim.World
}

// RemEvent moves a branch (Rev "" removes it) or, with Head set, the default branch.
type RemEvent struct {
	At     int64
	Branch string
	Rev    string
	Head   string
}

// Remotes is the set of upstreams of a run.
type Remotes struct {
	ByURL map[string]*Remote
	W     *zsim.World
	// observations
	Ops   []*VcsOp
	On    func(o *VcsOp)
	Calms int // how often everything was calmed down
}

// VcsOp is one observed VCS command.
type VcsOp struct {
	Prog, Sub, Dir, URL string
	Start, End          int64
	StartSeq            int64
	Untold              bool // the default branch was asked for, and is not known
	Code                int
	Net                 bool
	Proc                *zsim.Proc
}

// Live reports whether the command is still running.
func (o *VcsOp) Live() bool { return o.End < 0 && !o.Proc.Dead }

func NewRemotes(w *zsim.World) *Remotes {
	r := &Remotes{ByURL: map[string]*Remote{}, W: w}
	w.Progs["git"] = r.git
	w.Progs["hg"] = r.hg
	w.Progs["svn"] = r.svn
	w.Progs["svnversion"] = r.svnversion
	w.Progs["bzr"] = r.bzr
	return r
}

func (r *Remotes) Add(url, kind string) *Remote {
	m := &Remote{URL: url, Kind: kind, Branches: map[string]*Commit{}, Commits: map[string]*Commit{}, Head: "master", w: r.W}
	r.ByURL[url] = m
	return m
}

func (m *Remote) newRev() string {
	m.n++
	switch m.Kind {
	case "svn", "bzr":
		return strconv.Itoa(m.n)
	}
	s := sha1.Sum([]byte(fmt.Sprintf("%s#%d", m.URL, m.n)))
	return hex.EncodeToString(s[:])
}

// Commit makes a new revision on a branch from the given full file set.
func (m *Remote) Commit(branch string, files map[string]*FileSpec) *Commit {
	c := &Commit{Rev: m.newRev(), Files: files, At: m.w.Now()}
	m.Commits[c.Rev] = c
	m.SetTip(branch, c)
	return c
}

// SetTip moves a branch (nil deletes it).
func (m *Remote) SetTip(branch string, c *Commit) {
	rev := ""
	if c == nil {
		delete(m.Branches, branch)
	} else {
		m.Branches[branch] = c
		rev = c.Rev
	}
	m.Log = append(m.Log, &RemEvent{At: m.w.Now(), Branch: branch, Rev: rev})
}

// MayExist reports whether a branch can be there beside the others.
func (m *Remote) MayExist(b string) bool {
	for o := range m.Branches {
		if strings.HasPrefix(o, b+"/") || strings.HasPrefix(b, o+"/") {
			return false
		}
	}
	return true
}

// Rename gives a branch another name; the default branch stays the default.
func (m *Remote) Rename(from, to string) bool {
	c := m.Branches[from]
	if c == nil || m.Branches[to] != nil {
		return false
	}
	delete(m.Branches, from)
	ok := m.MayExist(to)
	m.Branches[from] = c
	if !ok {
		return false
	}
	m.SetTip(from, nil)
	m.SetTip(to, c)
	if m.Head == from {
		m.SetHead(to)
	}
	return true
}

func (m *Remote) SetHead(b string) {
	m.Head = b
	m.Log = append(m.Log, &RemEvent{At: m.w.Now(), Head: b})
}

// ---------------------------------------------------------------- common parts

// net is a network exchange with the upstream of url.
func (r *Remotes) net(c *zsim.Child, url string) (*Remote, error) {
	m := r.ByURL[url]
	if m == nil {
		return nil, fmt.Errorf("fatal: repository '%s' not found", url)
	}
	d := m.Slow
	if m.HangNext > 0 {
		d = m.HangNext
		m.HangNext = 0
		c.W.CountFault("vcs-hang")
	}
	if d <= 0 {
		c.W.Yield()
	}
	for calm := r.Calms; d > 0 && calm == r.Calms; d -= 1000 * ms { // a hang ends when calm sets in
		if d < 1000*ms {
			c.W.Sleep(d)
		} else {
			c.W.Sleep(1000 * ms)
		}
	}
	if m.Blip > 0 {
		m.Blip--
		c.W.CountFault("vcs-blip")
		return nil, fmt.Errorf("fatal: unable to access '%s': Connection reset by peer", url)
	}
	if m.Down {
		c.W.CountFault("vcs-outage")
		return nil, fmt.Errorf("fatal: unable to access '%s': Could not resolve host", url)
	}
	return m, nil
}

func (m *Remote) failHalf() bool {
	if m.FailNext > 0 {
		m.FailNext--
		m.w.CountFault("vcs-fails-midway")
		return true
	}
	return false
}

func readFile(f *zsim.FS, p string) ([]byte, error) {
	h, err := f.Open(p, syscall.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var b []byte
	buf := make([]byte, 4096)
	for {
		n, err := h.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

func writeFile(f *zsim.FS, p string, b []byte) error {
	if err := f.MkdirAll(path.Dir(p), 0o755); err != nil {
		return err
	}
	h, err := f.Open(p, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, 0o644)
	if err != nil {
		return err
	}
	for off := 0; off < len(b); {
		n := len(b) - off
		if n > 8192 {
			n = 8192
		}
		if _, err := h.Write(b[off : off+n]); err != nil {
			h.Close()
			return err
		}
		off += n
	}
	f.Settled(p) // these tools look after their files
	return h.Close()
}

// replaceFile writes a file the safe way.
func replaceFile(f *zsim.FS, p string, b []byte) error {
	if err := writeFile(f, p+".lock", b); err != nil {
		f.Remove(p + ".lock")
		return err
	}
	return f.Rename(p+".lock", p)
}

// A gitLock is a lock file of git's: it is there while git is at work on what it
// locks, it becomes the new content, and it stays when git is killed.
type gitLock struct {
	c    *zsim.Child
	path string
}

func lockGit(c *zsim.Child, name string) (*gitLock, error) {
	p := c.Dir + "/.git/" + name
	if c.FS.Node(p+".lock") != nil {
		return nil, fmt.Errorf("Unable to create '%s.lock': File exists.", p)
	}
	if err := writeFile(c.FS, p+".lock", nil); err != nil {
		c.FS.Remove(p + ".lock")
		return nil, fmt.Errorf("Unable to create '%s.lock': %v", p, err)
	}
	return &gitLock{c, p}, nil
}

func (l *gitLock) drop() { l.c.FS.Remove(l.path + ".lock") }

func (l *gitLock) commit(b []byte) error {
	err := writeFile(l.c.FS, l.path+".lock", b)
	if err == nil {
		err = l.c.FS.Rename(l.path+".lock", l.path)
	}
	if err != nil {
		l.drop()
	}
	return err
}

func gitPut(c *zsim.Child, name string, b []byte) error {
	l, err := lockGit(c, name)
	if err != nil {
		return err
	}
	return l.commit(b)
}

func rmFile(f *zsim.FS, root, p string) {
	full := root + "/" + p
	f.Remove(full)
	for d := path.Dir(p); d != "." && d != "/"; d = path.Dir(d) {
		if f.Remove(root+"/"+d) != nil {
			break
		}
	}
}

// checkout makes the working tree that of the commit; old lists the paths that
// were checked out before.
func checkout(c *zsim.Child, root string, old []string, cm *Commit, mayFail func() bool) error {
	f := c.FS
	have := map[string]bool{}
	for _, p := range cm.Paths() {
		have[p] = true
	}
	for _, p := range old {
		if !have[p] {
			rmFile(f, root, p)
		}
	}
	ps := cm.Paths()
	for i, p := range ps {
		if i == len(ps)/2 && mayFail != nil && mayFail() {
			return fmt.Errorf("error: unable to write file %s", p)
		}
		s := cm.Files[p]
		full := root + "/" + p
		n := f.Node(full)
		if s.Link != "" {
			if n != nil && n.Mode()&fs.ModeSymlink != 0 && n.Target() == s.Link {
				continue
			}
			if n != nil {
				f.RemoveAll(full)
			}
			if err := f.MkdirAll(path.Dir(full), 0o755); err != nil {
				return err
			}
			if err := f.Symlink(s.Link, full); err != nil {
				return err
			}
			continue
		}
		data := s.Content()
		if n != nil && n.Mode().IsRegular() && string(n.Data()) == string(data) {
			continue
		}
		if n != nil {
			f.RemoveAll(full)
		}
		// a parent that used to be a file
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if x := f.Node(root + "/" + d); x != nil && !x.IsDir() {
				f.Remove(root + "/" + d)
			}
		}
		if err := writeFile(f, full, data); err != nil {
			return err
		}
	}
	return nil
}

func lines(b []byte) []string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

func (r *Remotes) observe(c *zsim.Child, prog string) *VcsOp {
	o := &VcsOp{Prog: prog, Dir: c.Dir, Start: c.W.Now(), StartSeq: c.W.Seq(), End: -1, Code: -1, Proc: c.Proc}
	if len(c.Args) > 1 {
		o.Sub = c.Args[1]
	}
	r.Ops = append(r.Ops, o)
	if r.On != nil {
		r.On(o)
	}
	return o
}

func (o *VcsOp) done(c *zsim.Child, code int) int {
	o.End = c.W.Now()
	o.Code = code
	return code
}

// ---------------------------------------------------------------- git

// state kept in .git: config (url), HEAD (branch name), refs/heads/X,
// refs/remotes/origin/X, index (checked-out paths)

func gitRead(c *zsim.Child, dir, name string) string {
	b, err := readFile(c.FS, dir+"/.git/"+name)
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(b))
}

func (r *Remotes) gitURL(c *zsim.Child) (string, bool) {
	u := gitRead(c, c.Dir, "config")
	return u, u != ""
}

func (r *Remotes) git(c *zsim.Child) int {
	o := r.observe(c, "git")
	return o.done(c, r.git1(c, o))
}

func (r *Remotes) git1(c *zsim.Child, o *VcsOp) int {
	a := c.Args[1:]
	if len(a) == 0 {
		return 1
	}
	switch a[0] {
	case "clone":
		o.Net = true
		var pos []string
		for i := 1; i < len(a); i++ {
			if a[i] == "--depth" || a[i] == "-b" || a[i] == "--branch" {
				i++
				continue
			}
			if strings.HasPrefix(a[i], "-") {
				continue
			}
			pos = append(pos, a[i])
		}
		if len(pos) != 2 {
			c.Errf("usage: git clone\n")
			return 129
		}
		url, dir := pos[0], c.Path(pos[1])
		o.URL, o.Dir = url, dir
		if n := c.FS.Node(dir); n != nil && (!n.IsDir() || len(n.Names()) > 0) {
			c.Errf("fatal: destination path '%s' already exists and is not an empty directory.\n", pos[1])
			return 128
		}
		made := c.FS.Node(dir) == nil
		c.Errf("Cloning into '%s'...\n", pos[1])
		if err := c.FS.MkdirAll(dir+"/.git", 0o755); err != nil {
			c.Errf("fatal: %v\n", err)
			return 128
		}
		fail := func(err error) int {
			c.Errf("%v\n", err)
			if made {
				c.FS.RemoveAll(dir)
			} else {
				c.FS.RemoveAll(dir + "/.git")
			}
			return 128
		}
		if err := writeFile(c.FS, dir+"/.git/HEAD", []byte("master")); err != nil {
			return fail(err)
		}
		m, err := r.net(c, url)
		if err != nil {
			return fail(err)
		}
		tip := m.Branches[m.Head]
		head := m.Head
		if m.failHalf() {
			return fail(fmt.Errorf("fatal: early EOF"))
		}
		if err := writeFile(c.FS, dir+"/.git/config", []byte(url)); err != nil {
			return fail(err)
		}
		if err := writeFile(c.FS, dir+"/.git/HEAD", []byte(head)); err != nil {
			return fail(err)
		}
		if tip == nil {
			c.Errf("warning: You appear to have cloned an empty repository.\n")
			return 0
		}
		for _, n := range []string{"refs/remotes/origin/" + head, "refs/heads/" + head} {
			if err := writeFile(c.FS, dir+"/.git/"+n, []byte(tip.Rev)); err != nil {
				return fail(err)
			}
		}
		if err := checkout(c, dir, nil, tip, nil); err != nil {
			c.Errf("fatal: %v\nwarning: Clone succeeded, but checkout failed.\n", err)
			return 128
		}
		if err := replaceFile(c.FS, dir+"/.git/index", []byte(strings.Join(tip.Paths(), "\n"))); err != nil {
			return fail(err)
		}
		return 0
	case "fetch":
		o.Net = true
		url, ok := r.gitURL(c)
		o.URL = url
		if !ok {
			c.Errf("fatal: 'origin' does not appear to be a git repository\n")
			return 128
		}
		spec := a[len(a)-1]
		i := strings.Index(spec, ":")
		if i < 0 || !strings.HasPrefix(spec, "+") {
			c.Errf("fatal: bad refspec %s\n", spec)
			return 128
		}
		ref, dst := spec[1:i], spec[i+1:]
		if err := writeFile(c.FS, c.Dir+"/.git/FETCH_HEAD", nil); err != nil {
			c.Errf("error: cannot open '.git/FETCH_HEAD': %v\n", err)
			return 255
		}
		m, err := r.net(c, url)
		if err != nil {
			c.Errf("%v\n", err)
			return 128
		}
		shallow, err := lockGit(c, "shallow")
		if err != nil {
			c.Errf("fatal: %v\n", err)
			return 128
		}
		defer shallow.drop()
		tip := m.Branches[strings.TrimPrefix(ref, "refs/heads/")]
		if tip == nil {
			c.Errf("fatal: couldn't find remote ref %s\n", ref)
			return 128
		}
		if m.failHalf() {
			c.Errf("fatal: the remote end hung up unexpectedly\n")
			return 128
		}
		if err := writeFile(c.FS, c.Dir+"/.git/FETCH_HEAD", []byte(tip.Rev)); err != nil {
			c.Errf("error: cannot open '.git/FETCH_HEAD': %v\n", err)
			return 255
		}
		switch {
		case strings.HasPrefix(dst, "refs/"):
			if hasArg(a, "--prune") && !strings.HasPrefix(ref, "refs/") && gitRead(c, c.Dir, dst) != "" {
				// git takes the ref for one whose origin is gone, and then stumbles over it
				c.FS.Remove(c.Dir + "/.git/" + dst)
				c.Errf("error: cannot lock ref '%s': unable to resolve reference '%s'\n", dst, dst)
				return 1
			}
		case strings.HasPrefix(dst, "heads/"), strings.HasPrefix(dst, "tags/"), strings.HasPrefix(dst, "remotes/"):
			dst = "refs/" + dst
		default:
			dst = "refs/heads/" + dst
		}
		if gitRead(c, c.Dir, dst) == tip.Rev {
			return 0
		}
		if err := gitPut(c, dst, []byte(tip.Rev)); err != nil {
			c.Errf("error: cannot lock ref '%s': %v\n", dst, err)
			return 1
		}
		return 0
	case "reset":
		url, ok := r.gitURL(c)
		o.URL = url
		if !ok || len(a) < 2 || a[1] != "--hard" {
			c.Errf("fatal: not a git repository\n")
			return 128
		}
		rev := ""
		if len(a) < 3 || a[2] == "HEAD" {
			rev = gitRead(c, c.Dir, "refs/heads/"+gitRead(c, c.Dir, "HEAD"))
		} else {
			for _, d := range []string{"", "refs/", "refs/tags/", "refs/heads/", "refs/remotes/"} {
				if d == "" && a[2] != "FETCH_HEAD" && !strings.HasPrefix(a[2], "refs/") {
					continue
				}
				if rev = gitRead(c, c.Dir, d+a[2]); rev != "" {
					break
				}
			}
		}
		m := r.ByURL[url]
		if rev == "" || m == nil || m.Commits[rev] == nil {
			c.Errf("fatal: ambiguous argument '%s': unknown revision or path not in the working tree.\n", a[len(a)-1])
			return 128
		}
		ix, err := lockGit(c, "index")
		if err != nil {
			c.Errf("fatal: %v\n", err)
			return 128
		}
		// what an interrupted reset has left behind, and is not of this
		// revision, stays: git does not know of it
		old := lines([]byte(gitRead(c, c.Dir, "index")))
		cm := m.Commits[rev]
		if err := checkout(c, c.Dir, old, cm, m.failHalf); err != nil {
			ix.drop()
			c.Errf("error: %v\nfatal: Could not reset index file to revision '%s'.\n", err, a[len(a)-1])
			return 128
		}
		if err := ix.commit([]byte(strings.Join(cm.Paths(), "\n"))); err != nil {
			c.Errf("fatal: unable to write new index file\n")
			return 128
		}
		if br := gitRead(c, c.Dir, "HEAD"); gitRead(c, c.Dir, "refs/heads/"+br) != rev {
			if err := gitPut(c, "refs/heads/"+br, []byte(rev)); err != nil {
				c.Errf("error: update_ref failed for ref 'HEAD': cannot lock ref 'HEAD': %v\n", err)
				return 1
			}
		}
		c.Printf("HEAD is now at %s\n", rev[:7])
		return 0
	case "clean":
		force, dirs, all := false, false, false
		for _, x := range a[1:] {
			if strings.HasPrefix(x, "--") {
				force = force || x == "--force"
				continue
			}
			if strings.HasPrefix(x, "-") {
				force = force || strings.Contains(x, "f")
				dirs = dirs || strings.Contains(x, "d")
				all = all || strings.ContainsAny(x, "xX")
			}
		}
		if !force {
			c.Errf("fatal: clean.requireForce defaults to true and neither -i, -n, nor -f given; refusing to clean\n")
			return 128
		}
		known := map[string]bool{}
		for _, p := range lines([]byte(gitRead(c, c.Dir, "index"))) {
			for d := p; d != "." && d != "/"; d = path.Dir(d) {
				known[d] = true
			}
		}
		return gitClean(c, c.Dir, "", known, dirs)
	case "rev-parse":
		m := r.ByURL[gitRead(c, c.Dir, "config")]
		if m != nil && m.NoRev > 0 {
			m.NoRev--
			c.W.CountFault("vcs-no-revision")
			return 0
		}
		if m != nil && m.BadRev > 0 {
			m.BadRev--
			c.W.CountFault("vcs-revision-fails")
			c.Errf("fatal: bad object HEAD\n")
			return 128
		}
		br := gitRead(c, c.Dir, "HEAD")
		rev := ""
		if br != "" {
			rev = gitRead(c, c.Dir, "refs/heads/"+br)
		}
		if rev == "" {
			c.Errf("fatal: ambiguous argument 'HEAD': unknown revision or path not in the working tree.\n")
			c.Printf("HEAD\n")
			return 128
		}
		c.Printf("%s\n", rev)
		return 0
	case "remote":
		o.Net = true
		url, ok := r.gitURL(c)
		o.URL = url
		if !ok {
			c.Errf("fatal: not a git repository\n")
			return 128
		}
		m, err := r.net(c, url)
		if err != nil {
			c.Errf("%v\n", err)
			return 128
		}
		head := m.Head
		if m.Branches[head] == nil {
			head = "(unknown)" // the branch is gone
			o.Untold = true
			c.W.CountFault("vcs-no-default-branch")
		}
		c.Printf("* remote origin\n  Fetch URL: %s\n  Push  URL: %s\n  HEAD branch: %s\n  Remote branches:\n", url, url, head)
		var bs []string
		for b := range m.Branches {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			c.Printf("    %s tracked\n", b)
		}
		return 0
	case "ls-files":
		idx, err := readFile(c.FS, c.Dir+"/.git/index")
		if err != nil {
			if c.FS.Node(c.Dir+"/.git") == nil {
				c.Errf("fatal: not a git repository\n")
				return 128
			}
			return 0
		}
		for _, p := range lines(idx) {
			if hasArg(a, "-z") {
				c.Printf("%s\x00", p)
			} else {
				c.Printf("%s\n", gitQuote(p))
			}
		}
		return 0
	case "check-attr":
		attr := a[len(a)-1]
		var in []byte
		buf := make([]byte, 512)
		for {
			n, err := c.Stdin.Read(buf)
			in = append(in, buf[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				c.Errf("fatal: read error\n")
				return 128
			}
		}
		att, _ := readFile(c.FS, c.Dir+"/.gitattributes")
		sep := "\n"
		if hasArg(a, "-z") {
			sep = "\x00"
		}
		for _, p := range strings.Split(string(in), sep) {
			if sep == "\n" && strings.HasPrefix(p, "\"") {
				p = gitUnquote(p)
			}
			if p == "" {
				continue
			}
			if sep == "\n" {
				c.Printf("%s: %s: %s\n", gitQuote(p), attr, attrOf(att, p, attr))
			} else {
				c.Printf("%s\x00%s\x00%s\x00", p, attr, attrOf(att, p, attr))
			}
		}
		return 0
	}
	c.Errf("git: '%s' is not a git command.\n", a[0])
	return 1
}

// gitClean removes what is not in the index.
func gitClean(c *zsim.Child, dir, rel string, known map[string]bool, dirs bool) int {
	n := c.FS.Node(dir)
	if n == nil {
		return 0
	}
	code := 0
	for _, x := range n.Names() {
		p := path.Join(rel, x)
		if rel == "" && x == ".git" {
			continue
		}
		e := c.FS.Node(dir + "/" + x)
		isDir := e != nil && e.IsDir()
		switch {
		case !known[p]:
			if isDir && !dirs {
				continue
			}
			if err := c.FS.RemoveAll(dir + "/" + x); err != nil {
				c.Errf("warning: failed to remove %s: %v\n", p, err)
				code = 1
			}
		case isDir:
			if k := gitClean(c, dir+"/"+x, p, known, dirs); k != 0 {
				code = k
			}
		}
	}
	return code
}

func hasArg(a []string, x string) bool {
	for _, y := range a {
		if y == x {
			return true
		}
	}
	return false
}

// gitQuote quotes a path the way git does where it is not told -z.
func gitQuote(p string) string {
	q := false
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		switch c := p[i]; {
		case c == '"' || c == '\\':
			q = true
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\t':
			q = true
			b.WriteString("\\t")
		case c == '\n':
			q = true
			b.WriteString("\\n")
		case c < ' ' || c >= 0x7f:
			q = true
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	if q {
		return "\"" + b.String() + "\""
	}
	return p
}

func gitUnquote(p string) string {
	p = strings.TrimSuffix(strings.TrimPrefix(p, "\""), "\"")
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] != '\\' || i+1 >= len(p) {
			b.WriteByte(p[i])
			continue
		}
		i++
		switch c := p[i]; {
		case c == 't':
			b.WriteByte('\t')
		case c == 'n':
			b.WriteByte('\n')
		case c >= '0' && c <= '3' && i+2 < len(p):
			b.WriteByte((c-'0')<<6 | (p[i+1]-'0')<<3 | (p[i+2] - '0'))
			i += 2
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// attrOf evaluates a .gitattributes file (patterns: a path, a base name, *.ext, dir/*).
func attrOf(att []byte, p, name string) string {
	v := "unspecified"
	for _, l := range strings.Split(string(att), "\n") {
		fs := strings.Fields(l)
		if len(fs) < 2 || strings.HasPrefix(fs[0], "#") {
			continue
		}
		pat := fs[0]
		ok := false
		if strings.Contains(strings.TrimPrefix(pat, "/"), "/") || strings.HasPrefix(pat, "/") {
			ok, _ = path.Match(strings.TrimPrefix(pat, "/"), p)
		} else {
			ok, _ = path.Match(pat, path.Base(p))
		}
		if !ok {
			continue
		}
		for _, x := range fs[1:] {
			switch {
			case x == name:
				v = "set"
			case x == "-"+name:
				v = "unset"
			case strings.HasPrefix(x, name+"="):
				v = x[len(name)+1:]
			}
		}
	}
	return v
}

// ---------------------------------------------------------------- the others

// state of a working copy: <meta>/state = JSON {URL, Rev, Paths}
type wc struct {
	URL, Rev string
	Paths    []string
}

func loadWC(c *zsim.Child, dir, meta string) *wc {
	b, err := readFile(c.FS, dir+"/"+meta+"/state")
	if err != nil {
		return nil
	}
	var s wc
	if json.Unmarshal(b, &s) != nil || s.URL == "" {
		return nil
	}
	return &s
}

func saveWC(c *zsim.Child, dir, meta string, s *wc) error {
	b, _ := json.Marshal(s)
	return replaceFile(c.FS, dir+"/"+meta+"/state", b)
}

func (r *Remotes) wcClone(c *zsim.Child, o *VcsOp, url, dir, meta string, made bool) int {
	o.Net, o.URL, o.Dir = true, url, dir
	if n := c.FS.Node(dir); n != nil && (!n.IsDir() || len(n.Names()) > 0) {
		c.Errf("abort: destination '%s' is not empty\n", dir)
		return 255
	}
	if err := c.FS.MkdirAll(dir+"/"+meta, 0o755); err != nil {
		c.Errf("abort: %v\n", err)
		return 255
	}
	fail := func(err error) int {
		c.Errf("abort: %v\n", err)
		c.FS.RemoveAll(dir)
		return 255
	}
	m, err := r.net(c, url)
	if err != nil {
		return fail(err)
	}
	tip := m.Branches[m.Head]
	if m.failHalf() {
		return fail(fmt.Errorf("stream ended unexpectedly"))
	}
	s := &wc{URL: url}
	if tip != nil {
		if err := checkout(c, dir, nil, tip, nil); err != nil {
			return fail(err)
		}
		s.Rev, s.Paths = tip.Rev, tip.Paths()
	}
	if err := saveWC(c, dir, meta, s); err != nil {
		return fail(err)
	}
	return 0
}

func (r *Remotes) wcUpdate(c *zsim.Child, o *VcsOp, meta string) int {
	o.Net = true
	s := loadWC(c, c.Dir, meta)
	if s == nil {
		c.Errf("abort: no repository found in '%s'\n", c.Dir)
		return 255
	}
	o.URL = s.URL
	m, err := r.net(c, s.URL)
	if err != nil {
		c.Errf("abort: %v\n", err)
		return 255
	}
	tip := m.Branches[m.Head]
	if tip == nil {
		c.Errf("abort: unknown revision\n")
		return 255
	}
	old := s.Paths
	if cm := m.Commits[s.Rev]; cm != nil {
		old = cm.Paths()
	}
	// what an interrupted update may have left behind
	old = append(append([]string(nil), old...), tip.Paths()...)
	for _, cm := range m.Commits {
		old = append(old, cm.Paths()...)
	}
	sort.Strings(old)
	half := false
	if err := checkout(c, c.Dir, uniq(old), tip, func() bool { half = m.failHalf(); return half }); err != nil {
		c.Errf("abort: %v\n", err)
		if half {
			// The revision it names from now on says nothing about the files: bzr
			// and hg are already at the new one, and svn is at both.
			rev := tip.Rev
			if meta == ".svn" && s.Rev != rev && !strings.Contains(s.Rev, ":") {
				rev = s.Rev + ":" + rev
			}
			s.Rev, s.Paths = rev, uniq(old)
			saveWC(c, c.Dir, meta, s)
		}
		return 255
	}
	s.Rev, s.Paths = tip.Rev, tip.Paths()
	if err := saveWC(c, c.Dir, meta, s); err != nil {
		c.Errf("abort: %v\n", err)
		return 255
	}
	return 0
}

func uniq(a []string) []string {
	var out []string
	for i, x := range a {
		if i == 0 || x != a[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func (r *Remotes) wcRev(c *zsim.Child, meta string) int {
	s := loadWC(c, c.Dir, meta)
	if s == nil {
		c.Errf("abort: no repository found in '%s'\n", c.Dir)
		return 255
	}
	m := r.ByURL[s.URL]
	if m != nil && m.NoRev > 0 {
		m.NoRev--
		c.W.CountFault("vcs-no-revision")
		return 0
	}
	if m != nil && m.BadRev > 0 {
		m.BadRev--
		c.W.CountFault("vcs-revision-fails")
		c.Errf("abort: cannot read\n")
		return 255
	}
	c.Printf("%s", s.Rev)
	if meta != ".hg" {
		c.Printf("\n")
	}
	return 0
}

func (r *Remotes) hg(c *zsim.Child) int {
	o := r.observe(c, "hg")
	a := c.Args[1:]
	code := 255
	switch {
	case len(a) >= 3 && a[0] == "clone":
		code = r.wcClone(c, o, a[len(a)-2], c.Path(a[len(a)-1]), ".hg", true)
	case len(a) >= 1 && a[0] == "pull":
		code = r.wcUpdate(c, o, ".hg")
	case len(a) >= 1 && a[0] == "log":
		code = r.wcRev(c, ".hg")
	}
	return o.done(c, code)
}

func (r *Remotes) bzr(c *zsim.Child) int {
	o := r.observe(c, "bzr")
	a := c.Args[1:]
	code := 3
	switch {
	case len(a) >= 3 && (a[0] == "branch" || a[0] == "checkout"):
		code = r.wcClone(c, o, a[len(a)-2], c.Path(a[len(a)-1]), ".bzr", true)
	case len(a) >= 1 && a[0] == "pull":
		code = r.wcUpdate(c, o, ".bzr")
	case len(a) >= 1 && a[0] == "revno":
		code = r.wcRev(c, ".bzr")
	}
	return o.done(c, code)
}

func (r *Remotes) svn(c *zsim.Child) int {
	o := r.observe(c, "svn")
	a := c.Args[1:]
	code := 1
	url := ""
	if len(a) >= 3 && a[0] == "checkout" {
		url = a[len(a)-2]
	} else if s := loadWC(c, c.Dir, ".svn"); s != nil {
		url = s.URL
	}
	user, pass := "", ""
	for i := 0; i < len(a)-1; i++ {
		switch a[i] {
		case "--username":
			user = a[i+1]
		case "--password":
			pass = a[i+1]
		}
	}
	switch {
	case len(a) == 0:
	case r.ByURL[url] != nil && r.ByURL[url].User != "" && (user != r.ByURL[url].User || pass != r.ByURL[url].Pass):
		o.Net, o.URL = true, url
		c.W.Yield()
	case len(a) >= 3 && a[0] == "checkout":
		code = r.wcClone(c, o, a[len(a)-2], c.Path(a[len(a)-1]), ".svn", true)
	case len(a) >= 1 && a[0] == "update":
		code = r.wcUpdate(c, o, ".svn")
	}
	if code != 0 {
		// like the real one, name the user the access was tried with
		for i := range a {
			if a[i] == "--username" && i+1 < len(a) {
				c.Errf("svn: E170013: authorization failed for user %s\n", a[i+1])
			}
			if a[i] == "--password" && i+1 < len(a) {
				c.Errf("svn: debug: password %s\n", a[i+1])
			}
		}
		code = 1
	}
	return o.done(c, code)
}

func (r *Remotes) svnversion(c *zsim.Child) int {
	o := r.observe(c, "svnversion")
	return o.done(c, r.wcRev(c, ".svn"))
}
