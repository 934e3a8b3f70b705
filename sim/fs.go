//go:build go1.22

package zsim

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- operations

// Op is one I/O operation, the place where faults are injected, time passes and
// processes are killed.
type Op struct {
	Kind string // open create read write close stat lstat readdir readlink mkdir remove rmdir rename symlink sync mmap seek trunc chmod
	Path string
	N    int
	Proc *Proc
	Root *Proc // the program the operation counts for
	ino  *Inode
	kill bool
	part bool
	Mut  bool
}

// Fault is what an operation does instead of succeeding.
type Fault struct {
	Err   error
	Short int // >0: at most this many bytes are transferred (with Err, if set)
	Kind  string
}

func errnoOf(err error) error {
	var e syscall.Errno
	if errors.As(err, &e) {
		return e
	}
	return syscall.EIO
}

func rootProc(p *Proc) *Proc {
	for p.parent != nil {
		p = p.parent
	}
	return p
}

// op is the entry of every operation made by a simulated process.
func (f *FS) op(o *Op) Fault {
	w := f.w
	if cur == nil { // harness outside of tasks
		return Fault{}
	}
	if cur.proc.Kind == "world" {
		o.Proc, o.Root = cur.proc, cur.proc
		return Fault{}
	}
	dieIfDead()
	p := cur.proc
	o.Proc = p
	o.Root = rootProc(p)
	r := o.Root
	r.Ops++
	w.NOps++
	if w.TraceOn && w.TraceOps {
		w.Log("op %d %s %s n=%d", r.Ops, o.Kind, o.Path, o.N)
	}
	if w.Sched.SlowOpP > 0 && w.stallOn && w.slowed < 100e9 {
		d := w.Decide("slowop", func(g *Rng) int64 {
			if !g.Chance(w.Sched.SlowOpP) {
				return 0
			}
			return g.Log(10000, w.Sched.SlowOpMax)
		})
		if d > 0 {
			w.slowed += d
			w.Sleep(d)
		}
	}
	kill, part := false, r.KillPart
	if r.KillOp > 0 && r.Ops >= r.KillOp {
		r.KillOp = 0
		kill = true
	}
	if !kill && w.KillF != nil {
		if k := w.KillF(o); k >= 0 {
			kill, part = true, k
		}
	}
	if kill {
		w.CountFault("kill-at-io")
		w.Log("kill at op %d: %s %s part=%d", r.Ops, o.Kind, o.Path, part)
		switch part {
		case 0:
			r.Kill()
			dieIfDead()
		case 1:
			o.kill = true
		default:
			if o.Kind == "write" && o.N > 1 {
				o.kill = true
				return Fault{Short: 1 + w.Choose("killpart", o.N-1), Kind: "torn"}
			}
			r.Kill()
			dieIfDead()
		}
	}
	if w.FaultsF != nil {
		if ft := w.FaultsF(o); ft.Err != nil || ft.Short > 0 {
			w.CountFault(ft.Kind)
			w.Log("fault %s at %s %s: %v", ft.Kind, o.Kind, o.Path, ft.Err)
			return ft
		}
	}
	return Fault{}
}

// end is called when the operation has taken effect.
func (f *FS) end(o *Op) {
	if o.Root == nil {
		return
	}
	if o.Mut && f.w.OpHook != nil {
		f.w.OpHook(o)
	}
	if o.kill {
		o.Root.Kill()
		dieIfDead()
	}
}

// ---------------------------------------------------------------- inodes

type Inode struct {
	id     int64
	mode   fs.FileMode
	data   []byte
	kids   map[string]*Inode
	target string
	mtime  int64
	born   int64
	nlink  int
	opens  int
	// power loss
	base      []byte
	hasBase   bool
	syncs     int
	dirty     bool
	dirtyAt   int64
	Unread    bool // reads fail (damaged medium)
	shortRead int
}

func (n *Inode) IsDir() bool  { return n.mode.IsDir() }
func (n *Inode) Data() []byte { return n.data }
func (n *Inode) ID() int64    { return n.id }

// Born is when the file was made.
func (n *Inode) Born() int64          { return n.born }
func (n *Inode) SetData(b []byte)     { n.data = b }
func (n *Inode) SetUnreadable(b bool) { n.Unread = b }

type FS struct {
	w      *World
	root   *Inode
	nextID int64
	used   int64
	Cap    int64 // 0: unlimited
	seq    int64

	PowerLoss bool
	log       []nsOp
}

type nsOp struct {
	at   int64
	undo func()
	desc string
}

func newFS(w *World) *FS {
	f := &FS{w: w}
	f.root = f.newInode(fs.ModeDir | 0o755)
	f.root.nlink = 1
	return f
}

func (f *FS) release() {}

func (f *FS) newInode(m fs.FileMode) *Inode {
	f.nextID++
	n := &Inode{id: f.nextID, mode: m, mtime: f.w.now, born: f.w.now}
	if m.IsDir() {
		n.kids = map[string]*Inode{}
	}
	return n
}

func (f *FS) Used() int64 { return f.used }

func (f *FS) note(desc string, undo func()) {
	if f.PowerLoss {
		f.log = append(f.log, nsOp{f.w.now, undo, desc})
	}
}

func clean(p string) string { return path.Clean("/" + p) }

// Abs makes a path absolute for the running process.
func Abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	cwd := "/"
	if cur != nil {
		cwd = cur.proc.Cwd
	}
	return cwd + "/" + p
}

type walkRes struct {
	dir  *Inode // directory holding the last element
	name string
	node *Inode // nil if absent
	full string // canonical path of the last element (symlinks of parents resolved)
}

// lookup resolves a path.
func (f *FS) lookup(p string, follow bool) (walkRes, error) {
	p = Abs(p)
	if strings.Contains(p, "\x00") {
		return walkRes{}, syscall.EINVAL
	}
	depth := 0
	return f.resolve(p, follow, &depth)
}

func (f *FS) resolve(p string, follow bool, depth *int) (walkRes, error) {
	trail := strings.HasSuffix(p, "/") && p != "/"
	parts := strings.Split(p, "/")
	cur := f.root
	stack := []*Inode{f.root}
	names := []string{}
	res := walkRes{dir: f.root, name: "", node: f.root, full: "/"}
	var elems []string
	for _, e := range parts {
		if e == "" || e == "." {
			continue
		}
		elems = append(elems, e)
	}
	if len(elems) == 0 {
		return res, nil
	}
	for i := 0; i < len(elems); i++ {
		e := elems[i]
		last := i == len(elems)-1
		if !cur.IsDir() {
			return walkRes{}, syscall.ENOTDIR
		}
		if e == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			cur = stack[len(stack)-1]
			res = walkRes{dir: cur, name: ".", node: cur, full: "/" + strings.Join(names, "/")}
			continue
		}
		if len(e) > 255 {
			return walkRes{}, syscall.ENAMETOOLONG
		}
		n := cur.kids[e]
		if n == nil {
			if last {
				return walkRes{dir: cur, name: e, node: nil, full: "/" + strings.Join(append(append([]string{}, names...), e), "/")}, nil
			}
			return walkRes{}, syscall.ENOENT
		}
		if n.mode&fs.ModeSymlink != 0 && (!last || follow || trail) {
			*depth++
			if *depth > 40 {
				return walkRes{}, syscall.ELOOP
			}
			t := n.target
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(names, "/") + "/" + t
			}
			rest := strings.Join(elems[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			return f.resolve(t, follow, depth)
		}
		if last {
			if trail && !n.IsDir() {
				return walkRes{}, syscall.ENOTDIR
			}
			return walkRes{dir: cur, name: e, node: n, full: "/" + strings.Join(append(append([]string{}, names...), e), "/")}, nil
		}
		stack = append(stack, n)
		names = append(names, e)
		cur = n
	}
	return res, nil
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

func (f *FS) link(dir *Inode, name string, n *Inode) {
	old := dir.kids[name]
	dir.kids[name] = n
	n.nlink++
	dir.mtime = f.w.now
	if old != nil {
		f.unref(old)
	}
	f.note("link "+name, func() {
		if old != nil {
			dir.kids[name] = old
			old.nlink++
		} else {
			delete(dir.kids, name)
		}
		n.nlink--
	})
}

func (f *FS) unref(n *Inode) {
	n.nlink--
	if n.nlink <= 0 && n.opens == 0 {
		f.used -= int64(len(n.data))
	}
}

func (f *FS) unlink(dir *Inode, name string) {
	n := dir.kids[name]
	delete(dir.kids, name)
	dir.mtime = f.w.now
	f.unref(n)
	f.note("unlink "+name, func() {
		dir.kids[name] = n
		n.nlink++
	})
}

// ---------------------------------------------------------------- file info

type FileInfo struct {
	name string
	n    *Inode
	size int64
	mode fs.FileMode
	mt   int64
}

func (i *FileInfo) Name() string       { return i.name }
func (i *FileInfo) Size() int64        { return i.size }
func (i *FileInfo) Mode() fs.FileMode  { return i.mode }
func (i *FileInfo) ModTime() time.Time { return time.Unix(0, epoch*1e9+i.mt).UTC() }
func (i *FileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *FileInfo) Sys() interface{}   { return nil }
func (i *FileInfo) Inode() *Inode      { return i.n }

// StreamInfo describes a standard stream: a terminal or a pipe.
func StreamInfo(name string, tty bool) *FileInfo {
	m := fs.ModeNamedPipe | 0600
	if tty {
		m = fs.ModeDevice | fs.ModeCharDevice | 0620
	}
	return &FileInfo{name: name, mode: m}
}

func infoOf(name string, n *Inode) *FileInfo {
	sz := int64(len(n.data))
	if n.mode&fs.ModeSymlink != 0 {
		sz = int64(len(n.target))
	}
	return &FileInfo{name, n, sz, n.mode, n.mtime}
}

func (f *FS) Stat(p string, follow bool) (*FileInfo, error) {
	kind := "stat"
	if !follow {
		kind = "lstat"
	}
	o := &Op{Kind: kind, Path: clean(Abs(p))}
	if ft := f.op(o); ft.Err != nil {
		return nil, perr(kind, p, ft.Err)
	}
	if p == "" {
		return nil, perr(kind, p, syscall.ENOENT)
	}
	r, err := f.lookup(p, follow)
	if err != nil {
		return nil, perr(kind, p, err)
	}
	if r.node == nil {
		return nil, perr(kind, p, syscall.ENOENT)
	}
	f.end(o)
	return infoOf(path.Base(clean(p)), r.node), nil
}

// ---------------------------------------------------------------- files

type File struct {
	fs     *FS
	ino    *Inode
	name   string // as given
	path   string // absolute
	off    int64
	flag   int
	fd     int
	proc   *Proc
	closed bool
	wrote  []wrote
	syncs  int // of the inode when it was opened
	dirPos int
	dirEnt []string
}

// wrote is a write that has not been forced to disk: as long as the file was not
// closed, the system may still find that there is no room for it.
type wrote struct{ off, n int64 }

func (h *File) Name() string  { return h.name }
func (h *File) Path() string  { return h.path }
func (h *File) Inode() *Inode { return h.ino }
func (h *File) Fd() int {
	if h.closed {
		return -1
	}
	return h.fd
}

// Open is os.OpenFile.
func (f *FS) Open(p string, flag int, perm fs.FileMode) (*File, error) {
	kind := "open"
	if flag&syscall.O_CREAT != 0 {
		kind = "create"
	}
	o := &Op{Kind: kind, Path: clean(Abs(p)), Mut: flag&(syscall.O_CREAT|syscall.O_TRUNC) != 0}
	if ft := f.op(o); ft.Err != nil {
		return nil, perr("open", p, ft.Err)
	}
	if p == "" {
		return nil, perr("open", p, syscall.ENOENT)
	}
	r, err := f.lookup(p, true)
	if err != nil {
		return nil, perr("open", p, err)
	}
	n := r.node
	acc := flag & syscall.O_ACCMODE
	if n == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, perr("open", p, syscall.ENOENT)
		}
		if strings.HasSuffix(p, "/") {
			return nil, perr("open", p, syscall.EISDIR)
		}
		n = f.newInode(perm & 0o777)
		f.link(r.dir, r.name, n)
	} else {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, perr("open", p, syscall.EEXIST)
		}
		if n.IsDir() && acc != syscall.O_RDONLY {
			return nil, perr("open", p, syscall.EISDIR)
		}
		if n.mode&fs.ModeType != 0 && !n.IsDir() {
			if n.mode&fs.ModeNamedPipe != 0 && cur != nil {
				// opening a FIFO without a writer blocks for good
				f.w.CountFault("fifo-open")
				BlockForever()
			}
			return nil, perr("open", p, syscall.ENXIO)
		}
		if n.mode&0o400 == 0 && acc == syscall.O_RDONLY && n.mode&fs.ModeType == 0 {
			return nil, perr("open", p, syscall.EACCES)
		}
		if flag&syscall.O_TRUNC != 0 && !n.IsDir() && acc != syscall.O_RDONLY {
			f.setData(n, nil)
		}
	}
	h := &File{fs: f, ino: n, name: p, path: clean(Abs(p)), flag: flag, syncs: n.syncs}
	n.opens++
	if cur != nil {
		h.proc = cur.proc
		h.fd = h.proc.nextFD
		h.proc.nextFD++
		h.proc.fds[h.fd] = h
	}
	f.end(o)
	return h, nil
}

func (f *FS) setData(n *Inode, b []byte) {
	f.used += int64(len(b)) - int64(len(n.data))
	if f.PowerLoss && !n.dirty {
		n.base = append([]byte(nil), n.data...)
		n.hasBase = true
		n.dirty = true
	}
	n.dirtyAt = f.w.now
	n.data = b
	n.mtime = f.w.now
}

func (f *FS) closeAll(p *Proc) {
	for _, h := range p.fds {
		if !h.closed {
			h.closed = true
			h.ino.opens--
			if h.ino.opens == 0 && h.ino.nlink <= 0 {
				f.used -= int64(len(h.ino.data))
			}
		}
	}
	p.fds = map[int]*File{}
}

// OpenFiles counts the descriptors a process holds.
func (p *Proc) OpenFiles() []string {
	var s []string
	for _, h := range p.fds {
		// a temporary file that has been removed: the collector closes it
		if strings.HasPrefix(h.path, "/tmp/") && p.w.FS.Node(h.path) == nil {
			continue
		}
		s = append(s, h.path)
	}
	sort.Strings(s)
	return s
}

func (h *File) Close() error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	if Dead() {
		return nil
	}
	o := &Op{Kind: "close", Path: h.path, ino: h.ino}
	if h.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
		o.Kind = "rclose"
	}
	ft := h.fs.op(o)
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	if h.proc != nil {
		delete(h.proc.fds, h.fd)
	}
	h.ino.opens--
	if h.ino.opens == 0 && h.ino.nlink <= 0 {
		h.fs.used -= int64(len(h.ino.data))
	}
	if ft.Err != nil && h.syncs == h.ino.syncs {
		h.loseLast()
	}
	h.fs.end(o)
	if ft.Err != nil {
		return perr("close", h.name, ft.Err)
	}
	return nil
}

// loseLast takes back what was written last: it was accepted, but never made it
// to the disk.
func (h *File) loseLast() {
	if len(h.wrote) == 0 {
		return
	}
	x := h.wrote[h.fs.w.Choose("closelost", len(h.wrote))]
	end := x.off + x.n
	d := append([]byte(nil), h.ino.data...)
	if int64(len(d)) < end {
		return
	}
	if int64(len(d)) == end {
		d = d[:x.off]
	} else {
		for i := x.off; i < end; i++ {
			d[i] = 0
		}
	}
	h.fs.used -= int64(len(h.ino.data) - len(d))
	h.ino.data = d
	h.fs.w.CountFault("close-lost-data")
}

func (h *File) check(op string) error {
	if h.closed {
		return perr(op, h.name, fs.ErrClosed)
	}
	return nil
}

func (h *File) readAt(b []byte, off int64, op string) (int, error) {
	if err := h.check(op); err != nil {
		return 0, err
	}
	if h.ino.IsDir() {
		return 0, perr(op, h.name, syscall.EISDIR)
	}
	if h.flag&syscall.O_ACCMODE == syscall.O_WRONLY {
		return 0, perr(op, h.name, syscall.EBADF)
	}
	o := &Op{Kind: "read", Path: h.path, N: len(b), ino: h.ino}
	ft := h.fs.op(o)
	if ft.Err != nil && ft.Short == 0 {
		return 0, perr(op, h.name, ft.Err)
	}
	if err := h.check(op); err != nil {
		return 0, err
	}
	if h.ino.Unread {
		return 0, perr(op, h.name, syscall.EIO)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(h.ino.data)) {
		return 0, io.EOF
	}
	src := h.ino.data[off:]
	if ft.Short > 0 && ft.Short < len(src) {
		src = src[:ft.Short]
	}
	n := copy(b, src)
	h.fs.end(o)
	return n, nil
}

func (h *File) Read(b []byte) (int, error) {
	n, err := h.readAt(b, h.off, "read")
	h.off += int64(n)
	return n, err
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	t := 0
	for t < len(b) {
		n, err := h.readAt(b[t:], off+int64(t), "read")
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (h *File) writeAt(b []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if h.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	f := h.fs
	o := &Op{Kind: "write", Path: h.path, N: len(b), ino: h.ino, Mut: true}
	ft := f.op(o)
	if ft.Err != nil && ft.Short == 0 {
		return 0, perr("write", h.name, ft.Err)
	}
	if err := h.check("write"); err != nil {
		return 0, err
	}
	n := len(b)
	var err error
	if ft.Short > 0 && ft.Short < n {
		n = ft.Short
		err = ft.Err
		if err == nil {
			err = syscall.ENOSPC
		}
	} else if ft.Err != nil {
		err = ft.Err
		n = n / 2
	}
	if h.flag&syscall.O_APPEND != 0 {
		off = int64(len(h.ino.data))
	}
	if f.Cap > 0 {
		grow := off + int64(n) - int64(len(h.ino.data))
		if grow > 0 && f.used+grow > f.Cap {
			room := f.Cap - f.used
			if room < 0 {
				room = 0
			}
			cut := int64(n) - (grow - room)
			if cut < 0 {
				cut = 0
			}
			n = int(cut)
			err = syscall.ENOSPC
			f.w.CountFault("disk-full")
		}
	}
	if n > 0 {
		d := h.ino.data
		end := off + int64(n)
		if f.PowerLoss && !h.ino.dirty {
			h.ino.base = append([]byte(nil), d...)
			h.ino.hasBase, h.ino.dirty = true, true
		}
		old := int64(len(d))
		if end > old {
			f.used += end - old
			if end > int64(cap(d)) {
				nd := make([]byte, end, end+end/2)
				copy(nd, d)
				d = nd
			} else {
				d = d[:end]
				for i := old; i < off; i++ {
					d[i] = 0
				}
			}
		}
		copy(d[off:end], b[:n])
		h.ino.data = d
		h.ino.mtime = f.w.now
		h.ino.dirtyAt = f.w.now
		if len(h.wrote) < 64 {
			h.wrote = append(h.wrote, wrote{off, int64(n)})
		}
	}
	if h.flag&syscall.O_APPEND != 0 {
		h.off = off
	}
	f.end(o)
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}

func (h *File) Write(b []byte) (int, error) {
	n, err := h.writeAt(b, h.off)
	h.off += int64(n)
	return n, err
}

func (h *File) WriteAt(b []byte, off int64) (int, error) { return h.writeAt(b, off) }

func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += h.off
	case 2:
		off += int64(len(h.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = off
	h.dirEnt, h.dirPos = nil, 0
	return off, nil
}

func (h *File) Stat() (*FileInfo, error) {
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	o := &Op{Kind: "fstat", Path: h.path}
	if ft := h.fs.op(o); ft.Err != nil {
		return nil, perr("stat", h.name, ft.Err)
	}
	h.fs.end(o)
	return infoOf(path.Base(h.name), h.ino), nil
}

func (h *File) Truncate(n int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	o := &Op{Kind: "trunc", Path: h.path, Mut: true}
	if ft := h.fs.op(o); ft.Err != nil {
		return perr("truncate", h.name, ft.Err)
	}
	h.fs.truncate(h.ino, n)
	h.fs.end(o)
	return nil
}

func (f *FS) truncate(n *Inode, sz int64) {
	d := append([]byte(nil), n.data...)
	if sz <= int64(len(d)) {
		d = d[:sz]
	} else {
		d = append(d, make([]byte, sz-int64(len(d)))...)
	}
	f.setData(n, d)
}

// Sync makes the file's data and everything done to the namespace so far durable.
func (h *File) Sync() error {
	if err := h.check("sync"); err != nil {
		return err
	}
	o := &Op{Kind: "sync", Path: h.path}
	if ft := h.fs.op(o); ft.Err != nil {
		return perr("sync", h.name, ft.Err)
	}
	h.ino.dirty, h.ino.hasBase, h.ino.base = false, false, nil
	h.ino.syncs++
	h.wrote = nil
	h.fs.log = nil
	h.fs.end(o)
	return nil
}

// SyncAll is sync(2).
func (f *FS) SyncAll() {
	o := &Op{Kind: "sync", Path: "/"}
	f.op(o)
	f.walkAll(f.root, map[*Inode]bool{}, func(n *Inode) { n.dirty, n.hasBase, n.base = false, false, nil })
	f.log = nil
	f.end(o)
}

func (f *FS) walkAll(n *Inode, seen map[*Inode]bool, fn func(n *Inode)) {
	if seen[n] {
		return
	}
	seen[n] = true
	fn(n)
	var ks []string
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f.walkAll(n.kids[k], seen, fn)
	}
}

// rawNames lists a directory in the file system's own (seeded) order.
func (f *FS) rawNames(n *Inode) []string {
	var ks []string
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := hash64(ks[i], f.w.Seed^uint64(n.id)), hash64(ks[j], f.w.Seed^uint64(n.id))
		if a != b {
			return a < b
		}
		return ks[i] < ks[j]
	})
	return ks
}

type DirEntry struct{ info *FileInfo }

func (d *DirEntry) Name() string               { return d.info.name }
func (d *DirEntry) IsDir() bool                { return d.info.IsDir() }
func (d *DirEntry) Type() fs.FileMode          { return d.info.mode.Type() }
func (d *DirEntry) Info() (fs.FileInfo, error) { return d.info, nil }
func (d *DirEntry) String() string             { return fs.FormatDirEntry(d) }

// ReadDir reads up to n entries (all if n<=0) in raw order.
func (h *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	if !h.ino.IsDir() {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	o := &Op{Kind: "readdir", Path: h.path, ino: h.ino}
	ft := h.fs.op(o)
	if ft.Err != nil {
		return nil, perr("readdirent", h.name, ft.Err)
	}
	if h.ino.mode&0o400 == 0 {
		return nil, perr("open", h.name, syscall.EACCES)
	}
	if h.dirEnt == nil {
		h.dirEnt = h.fs.rawNames(h.ino)
		if h.dirEnt == nil {
			h.dirEnt = []string{}
		}
	}
	var out []fs.DirEntry
	for h.dirPos < len(h.dirEnt) && (n <= 0 || len(out) < n) {
		k := h.dirEnt[h.dirPos]
		h.dirPos++
		if c := h.ino.kids[k]; c != nil {
			out = append(out, &DirEntry{infoOf(k, c)})
		}
	}
	h.fs.end(o)
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

// ---------------------------------------------------------------- namespace operations

func (f *FS) Mkdir(p string, perm fs.FileMode) error {
	o := &Op{Kind: "mkdir", Path: clean(Abs(p)), Mut: true}
	if ft := f.op(o); ft.Err != nil {
		return perr("mkdir", p, ft.Err)
	}
	q := p
	for len(q) > 1 && strings.HasSuffix(q, "/") {
		q = q[:len(q)-1]
	}
	r, err := f.lookup(q, false)
	if err != nil {
		return perr("mkdir", p, err)
	}
	if r.node != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	f.link(r.dir, r.name, f.newInode(fs.ModeDir|perm&0o777))
	f.end(o)
	return nil
}

func (f *FS) MkdirAll(p string, perm fs.FileMode) error {
	if i, err := f.Stat(p, true); err == nil {
		if i.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	par := path.Dir(strings.TrimRight(p, "/"))
	if par != p && par != "." && par != "/" && par != "" {
		if err := f.MkdirAll(par, perm); err != nil {
			return err
		}
	}
	err := f.Mkdir(p, perm)
	if err != nil {
		if i, e := f.Stat(p, false); e == nil && i.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

// Remove is os.Remove.
func (f *FS) Remove(p string) error {
	o := &Op{Kind: "remove", Path: clean(Abs(p)), Mut: true}
	if ft := f.op(o); ft.Err != nil {
		return perr("remove", p, ft.Err)
	}
	r, err := f.lookup(p, false)
	if err != nil {
		return perr("remove", p, err)
	}
	if r.node == nil {
		return perr("remove", p, syscall.ENOENT)
	}
	if r.node == f.root || r.name == "." {
		return perr("remove", p, syscall.EBUSY)
	}
	if r.node.IsDir() && len(r.node.kids) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	f.unlink(r.dir, r.name)
	f.end(o)
	return nil
}

// RemoveAll is os.RemoveAll: entries go one by one, in raw order.
func (f *FS) RemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if strings.HasSuffix(p, "/.") || p == "." {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	err := f.Remove(p)
	if err == nil || errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	if !errors.Is(err, syscall.ENOTEMPTY) {
		return perr("RemoveAll", p, errnoOf(err))
	}
	r, lerr := f.lookup(p, false)
	if lerr != nil || r.node == nil {
		return nil
	}
	var first error
	// the removal as a whole takes some passes over the directory
	o := &Op{Kind: "readdir", Path: clean(Abs(p))}
	if ft := f.op(o); ft.Err != nil {
		return perr("RemoveAll", p, ft.Err)
	}
	for _, k := range f.rawNames(r.node) {
		if e := f.RemoveAll(p + "/" + k); e != nil && first == nil {
			first = e
		}
	}
	err = f.Remove(p)
	if err == nil || errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	if first != nil {
		return first
	}
	return err
}

func (f *FS) Rename(a, b string) error {
	lerr := func(err error) error { return &LinkError{"rename", a, b, err} }
	o := &Op{Kind: "rename", Path: clean(Abs(b)), Mut: true}
	if ft := f.op(o); ft.Err != nil {
		return lerr(ft.Err)
	}
	ra, err := f.lookup(a, false)
	if err != nil {
		return lerr(err)
	}
	if ra.node == nil {
		return lerr(syscall.ENOENT)
	}
	rb, err := f.lookup(b, false)
	if err != nil {
		return lerr(err)
	}
	if rb.node == ra.node {
		return nil
	}
	if rb.node != nil {
		if ra.node.IsDir() && !rb.node.IsDir() {
			return lerr(syscall.ENOTDIR)
		}
		if rb.node.IsDir() {
			// os.Rename refuses to replace a directory
			return lerr(syscall.EEXIST)
		}
	}
	if ra.node.IsDir() && strings.HasPrefix(rb.full+"/", ra.full+"/") {
		return lerr(syscall.EINVAL)
	}
	n, old := ra.node, rb.node
	delete(ra.dir.kids, ra.name)
	rb.dir.kids[rb.name] = n
	ra.dir.mtime, rb.dir.mtime = f.w.now, f.w.now
	if old != nil {
		f.unref(old)
	}
	f.note("rename", func() {
		if old != nil {
			rb.dir.kids[rb.name] = old
			old.nlink++
		} else {
			delete(rb.dir.kids, rb.name)
		}
		ra.dir.kids[ra.name] = n
	})
	f.end(o)
	return nil
}

// LinkError is os.LinkError.
type LinkError = os.LinkError

func (f *FS) Symlink(target, p string) error {
	lerr := func(err error) error { return &LinkError{"symlink", target, p, err} }
	o := &Op{Kind: "symlink", Path: clean(Abs(p)), Mut: true}
	if ft := f.op(o); ft.Err != nil {
		return lerr(ft.Err)
	}
	r, err := f.lookup(p, false)
	if err != nil {
		return lerr(err)
	}
	if r.node != nil {
		return lerr(syscall.EEXIST)
	}
	n := f.newInode(fs.ModeSymlink | 0o777)
	n.target = target
	f.link(r.dir, r.name, n)
	f.end(o)
	return nil
}

func (f *FS) Link(a, b string) error {
	lerr := func(err error) error { return &LinkError{"link", a, b, err} }
	o := &Op{Kind: "link", Path: clean(Abs(b)), Mut: true}
	if ft := f.op(o); ft.Err != nil {
		return lerr(ft.Err)
	}
	ra, err := f.lookup(a, false)
	if err != nil || ra.node == nil {
		return lerr(syscall.ENOENT)
	}
	rb, err := f.lookup(b, false)
	if err != nil {
		return lerr(err)
	}
	if rb.node != nil {
		return lerr(syscall.EEXIST)
	}
	f.link(rb.dir, rb.name, ra.node)
	f.end(o)
	return nil
}

func (f *FS) Readlink(p string) (string, error) {
	o := &Op{Kind: "readlink", Path: clean(Abs(p))}
	if ft := f.op(o); ft.Err != nil {
		return "", perr("readlink", p, ft.Err)
	}
	r, err := f.lookup(p, false)
	if err != nil {
		return "", perr("readlink", p, err)
	}
	if r.node == nil {
		return "", perr("readlink", p, syscall.ENOENT)
	}
	if r.node.mode&fs.ModeSymlink == 0 {
		return "", perr("readlink", p, syscall.EINVAL)
	}
	f.end(o)
	return r.node.target, nil
}

func (f *FS) Chmod(p string, m fs.FileMode) error {
	o := &Op{Kind: "chmod", Path: clean(Abs(p)), Mut: true}
	if ft := f.op(o); ft.Err != nil {
		return perr("chmod", p, ft.Err)
	}
	r, err := f.lookup(p, true)
	if err != nil {
		return perr("chmod", p, err)
	}
	if r.node == nil {
		return perr("chmod", p, syscall.ENOENT)
	}
	r.node.mode = r.node.mode&^0o777 | m&0o777
	f.end(o)
	return nil
}

func (f *FS) Truncate(p string, n int64) error {
	o := &Op{Kind: "trunc", Path: clean(Abs(p)), Mut: true}
	if ft := f.op(o); ft.Err != nil {
		return perr("truncate", p, ft.Err)
	}
	r, err := f.lookup(p, true)
	if err != nil {
		return perr("truncate", p, err)
	}
	if r.node == nil {
		return perr("truncate", p, syscall.ENOENT)
	}
	f.truncate(r.node, n)
	f.end(o)
	return nil
}

func (f *FS) Chtimes(p string, mt time.Time) error {
	r, err := f.lookup(p, true)
	if err != nil || r.node == nil {
		return perr("chtimes", p, syscall.ENOENT)
	}
	r.node.mtime = mt.UnixNano() - epoch*1e9
	return nil
}

// EvalSymlinks resolves every link of a path.
func (f *FS) EvalSymlinks(p string) (string, error) {
	o := &Op{Kind: "lstat", Path: clean(Abs(p))}
	if ft := f.op(o); ft.Err != nil {
		return "", perr("lstat", p, ft.Err)
	}
	r, err := f.lookup(p, true)
	if err != nil {
		return "", perr("lstat", p, err)
	}
	if r.node == nil {
		return "", perr("lstat", p, syscall.ENOENT)
	}
	f.end(o)
	if !strings.HasPrefix(p, "/") {
		cwd := "/"
		if cur != nil {
			cwd = cur.proc.Cwd
		}
		if strings.HasPrefix(r.full, strings.TrimSuffix(cwd, "/")+"/") {
			return strings.TrimPrefix(r.full, strings.TrimSuffix(cwd, "/")+"/"), nil
		}
	}
	return r.full, nil
}

// ---------------------------------------------------------------- harness access

// Node returns the inode at p without counting an operation (nil if absent).
func (f *FS) Node(p string) *Inode {
	d := 0
	r, err := f.resolve(clean(p), false, &d)
	if err != nil {
		return nil
	}
	return r.node
}

// NodeF follows a final symlink.
func (f *FS) NodeF(p string) *Inode {
	d := 0
	r, err := f.resolve(clean(p), true, &d)
	if err != nil {
		return nil
	}
	return r.node
}

func (n *Inode) Mode() fs.FileMode { return n.mode }
func (n *Inode) Target() string    { return n.target }
func (n *Inode) Names() []string {
	var ks []string
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (n *Inode) Kid(k string) *Inode { return n.kids[k] }

// Put writes a file for the harness, creating parents.
func (f *FS) Put(p string, data []byte, mode fs.FileMode) *Inode {
	defer f.quiet()()
	p = clean(p)
	dir := f.PutDir(path.Dir(p))
	n := dir.kids[path.Base(p)]
	if n == nil || n.mode&fs.ModeType != mode&fs.ModeType {
		n = f.newInode(mode)
		f.link(dir, path.Base(p), n)
	}
	f.setData(n, append([]byte(nil), data...))
	n.dirty, n.hasBase, n.base = false, false, nil
	return n
}

// quiet is for what the harness does: it survives a power failure.
func (f *FS) quiet() func() {
	o := f.PowerLoss
	f.PowerLoss = false
	return func() { f.PowerLoss = o }
}

// Settled makes a file's data durable without anybody noticing.
func (f *FS) Settled(p string) {
	if n := f.Node(p); n != nil {
		n.dirty, n.hasBase, n.base = false, false, nil
	}
}

// PutLink makes a symlink for the harness.
func (f *FS) PutLink(p, target string) {
	defer f.quiet()()
	p = clean(p)
	dir := f.PutDir(path.Dir(p))
	n := f.newInode(fs.ModeSymlink | 0o777)
	n.target = target
	f.link(dir, path.Base(p), n)
}

func (f *FS) PutDir(p string) *Inode {
	defer f.quiet()()
	p = clean(p)
	n := f.root
	if p == "/" {
		return n
	}
	for _, e := range strings.Split(p[1:], "/") {
		k := n.kids[e]
		if k == nil {
			k = f.newInode(fs.ModeDir | 0o755)
			f.link(n, e, k)
		}
		n = k
	}
	return n
}

// Del removes a tree for the harness.
func (f *FS) Del(p string) {
	defer f.quiet()()
	p = clean(p)
	d := 0
	r, err := f.resolve(p, false, &d)
	if err != nil || r.node == nil || r.node == f.root {
		return
	}
	var rec func(dir *Inode, name string)
	rec = func(dir *Inode, name string) {
		n := dir.kids[name]
		for _, k := range n.Names() {
			rec(n, k)
		}
		f.unlink(dir, name)
	}
	rec(r.dir, r.name)
}

// Tree lists everything below p: path relative to p -> description.
func (f *FS) Tree(p string) map[string]string {
	out := map[string]string{}
	n := f.Node(p)
	if n == nil {
		return out
	}
	var rec func(n *Inode, rel string)
	rec = func(n *Inode, rel string) {
		switch {
		case n.IsDir():
			if rel != "" {
				out[rel] = "dir"
			}
			for _, k := range n.Names() {
				r := k
				if rel != "" {
					r = rel + "/" + k
				}
				rec(n.kids[k], r)
			}
		case n.mode&fs.ModeSymlink != 0:
			out[rel] = "link:" + n.target
		default:
			out[rel] = fmt.Sprintf("%v:%x:%d", n.mode, hash64(string(n.data), 3), len(n.data))
		}
	}
	rec(n, "")
	return out
}

// PowerOff loses what had not been forced to disk: a suffix of the namespace
// operations and the tails of files written since their last sync. Data older
// than 30 s and namespace operations older than 5 s have been written back.
func (f *FS) PowerOff() {
	w := f.w
	// a file's data
	var dirty []*Inode
	f.walkAll(f.root, map[*Inode]bool{}, func(n *Inode) {
		if n.dirty && !n.IsDir() {
			dirty = append(dirty, n)
		}
	})
	for _, n := range dirty {
		if w.now-n.dirtyAt > 30e9 {
			continue
		}
		switch w.Choose("power", 6) {
		case 1: // nothing of the new data
			n.data = append([]byte(nil), n.base...)
			w.CountFault("power-lost-data")
		case 2: // empty
			n.data = nil
			w.CountFault("power-empty-file")
		case 3: // a prefix
			n.data = append([]byte(nil), n.data[:w.Choose("powercut", len(n.data)+1)]...)
			w.CountFault("power-truncated")
		case 4: // right size, unwritten tail
			k := w.Choose("powercut", len(n.data)+1)
			d := append([]byte(nil), n.data...)
			for i := k; i < len(d); i++ {
				d[i] = 0
			}
			n.data = d
			w.CountFault("power-zero-tail")
		case 5: // right size, some sectors unwritten
			d := append([]byte(nil), n.data...)
			for i := 0; i < len(d); i += 512 {
				if w.Choose("powersector", 2) == 0 {
					continue
				}
				for j := i; j < len(d) && j < i+512; j++ {
					d[j] = 0
				}
			}
			n.data = d
			w.CountFault("power-lost-sectors")
		}
	}
	// the namespace
	k := len(f.log)
	first := 0
	for first < k && w.now-f.log[first].at > 5e9 {
		first++
	}
	lost := w.Choose("powerns", k-first+1)
	if w.Choose("powerns2", 3) == 0 {
		lost = 0
	}
	for i := 0; i < lost; i++ {
		f.log[k-1-i].undo()
	}
	if lost > 0 {
		w.CountFault("power-lost-names")
	}
	f.log = nil
	f.used = 0
	f.walkAll(f.root, map[*Inode]bool{}, func(n *Inode) {
		n.dirty, n.hasBase, n.base = false, false, nil
		f.used += int64(len(n.data))
	})
}

var _ = runtime.Goexit
