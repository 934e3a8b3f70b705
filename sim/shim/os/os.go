//go:build go1.22

// Package os is the simulated operating system: file system, environment and
// process of the running simulated program.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/hound-search/hound/zsim"
)

//zsim:only IsNotExist IsExist IsPermission IsTimeout IsPathSeparator Expand NewSyscallError

// File is an open file, a standard stream or an end of a pipe.
type File struct {
	f    *zsim.File
	std  int // 1: stdin, 2: stdout, 3: stderr
	pr   *zsim.PipeReader
	pw   *zsim.PipeWriter
	name string
}

var (
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
	Args   []string
)

func fsys() *zsim.FS {
	if zsim.W == nil {
		panic("zsim: file system used outside a run")
	}
	return zsim.W.FS
}

// Z gives other shims the file behind f.
func (f *File) Z() *zsim.File { return f.f }

func PipeEnds(r *zsim.PipeReader, w *zsim.PipeWriter) *File {
	return &File{pr: r, pw: w, name: "|"}
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	if f.f == nil {
		return ^uintptr(0)
	}
	return uintptr(f.f.Fd())
}
func (f *File) Read(b []byte) (int, error) {
	switch {
	case f == nil:
		return 0, real.ErrInvalid
	case f.std > 0:
		return 0, io.EOF
	case f.pr != nil:
		return f.pr.Read(b)
	}
	return f.f.Read(b)
}
func (f *File) Write(b []byte) (int, error) {
	switch {
	case f == nil:
		return 0, real.ErrInvalid
	case f.std == 2:
		return zsim.Stdout(b)
	case f.std > 0:
		return zsim.Stderr(b)
	case f.pw != nil:
		return f.pw.Write(b)
	}
	return f.f.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil || f.f == nil {
		return 0, real.ErrInvalid
	}
	return f.f.ReadAt(b, off)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil || f.f == nil {
		return 0, real.ErrInvalid
	}
	return f.f.WriteAt(b, off)
}

type onlyW struct{ f *File }

func (w onlyW) Write(b []byte) (int, error) { return w.f.Write(b) }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyW{f}, r) }
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil || f.f == nil {
		return 0, real.ErrInvalid
	}
	return f.f.Seek(off, whence)
}
func (f *File) Close() error {
	switch {
	case f == nil:
		return real.ErrInvalid
	case f.std > 0:
		return nil
	case f.pr != nil:
		return f.pr.Close()
	case f.pw != nil:
		return f.pw.Close()
	}
	return f.f.Close()
}
func (f *File) Stat() (fs.FileInfo, error) {
	if f != nil && f.std > 0 {
		p := zsim.CurProc()
		return zsim.StreamInfo(f.name, f.std == 2 && p != nil && p.Tty), nil
	}
	if f == nil || f.f == nil {
		return nil, real.ErrInvalid
	}
	i, err := f.f.Stat()
	if err != nil {
		return nil, err
	}
	return i, nil
}
func (f *File) Sync() error {
	if f == nil || f.f == nil {
		return real.ErrInvalid
	}
	return f.f.Sync()
}
func (f *File) Truncate(n int64) error {
	if f == nil || f.f == nil {
		return real.ErrInvalid
	}
	return f.f.Truncate(n)
}
func (f *File) Chmod(m fs.FileMode) error          { return Chmod(f.name, m) }
func (f *File) Chdir() error                       { return Chdir(f.name) }
func (f *File) SetDeadline(t time.Time) error      { return real.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return real.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return real.ErrNoDeadline }

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f == nil || f.f == nil {
		return nil, real.ErrInvalid
	}
	return f.f.ReadDir(n)
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

const umask = 0o022

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	h, err := fsys().Open(name, flag, perm&^umask)
	if err != nil {
		return nil, err
	}
	return &File{f: h, name: name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	if h := zsim.FileOfFd(int(fd)); h != nil {
		return &File{f: h, name: name}
	}
	return nil
}
func Pipe() (*File, *File, error) {
	r, w := zsim.NewPipe()
	return &File{pr: r, name: "|0"}, &File{pw: w, name: "|1"}, nil
}

func info(i *zsim.FileInfo, err error) (fs.FileInfo, error) {
	if err != nil {
		return nil, err
	}
	return i, nil
}
func Stat(p string) (fs.FileInfo, error)  { return info(fsys().Stat(p, true)) }
func Lstat(p string) (fs.FileInfo, error) { return info(fsys().Stat(p, false)) }
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*zsim.FileInfo)
	y, ok2 := b.(*zsim.FileInfo)
	return ok1 && ok2 && x.Inode() == y.Inode()
}
func Mkdir(p string, perm fs.FileMode) error    { return fsys().Mkdir(p, perm&^umask) }
func MkdirAll(p string, perm fs.FileMode) error { return fsys().MkdirAll(p, perm&^umask) }
func Remove(p string) error                     { return fsys().Remove(p) }
func RemoveAll(p string) error                  { return fsys().RemoveAll(p) }
func Rename(a, b string) error                  { return fsys().Rename(a, b) }
func Symlink(t, p string) error                 { return fsys().Symlink(t, p) }
func Link(a, b string) error                    { return fsys().Link(a, b) }
func Readlink(p string) (string, error)         { return fsys().Readlink(p) }
func Chmod(p string, m fs.FileMode) error       { return fsys().Chmod(p, m) }
func Chown(p string, u, g int) error            { return nil }
func Lchown(p string, u, g int) error           { return nil }
func Chtimes(p string, a, m time.Time) error    { return fsys().Chtimes(p, m) }
func Truncate(p string, n int64) error          { return fsys().Truncate(p, n) }

func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if b == nil {
		b = []byte{}
	}
	return b, err
}
func WriteFile(p string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(p, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func ReadDir(p string) ([]fs.DirEntry, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func tempName(dir, pat string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pat, ""
	if i := strings.LastIndex(pat, "*"); i >= 0 {
		pre, suf = pat[:i], pat[i+1:]
	}
	return strings.TrimSuffix(dir, "/") + "/" + pre + strconv.FormatUint(zsim.RandU64()>>34, 10) + suf
}

func CreateTemp(dir, pat string) (*File, error) {
	if strings.Contains(pat, "/") {
		return nil, &fs.PathError{Op: "createtemp", Path: pat, Err: errors.New("pattern contains path separator")}
	}
	for i := 0; ; i++ {
		f, err := OpenFile(tempName(dir, pat), real.O_RDWR|real.O_CREATE|real.O_EXCL, 0o600)
		if err != nil && real.IsExist(err) && i < 10000 {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pat string) (string, error) {
	if strings.Contains(pat, "/") {
		return "", &fs.PathError{Op: "mkdirtemp", Path: pat, Err: errors.New("pattern contains path separator")}
	}
	for i := 0; ; i++ {
		n := tempName(dir, pat)
		err := Mkdir(n, 0o700)
		if err != nil && real.IsExist(err) && i < 10000 {
			continue
		}
		if err != nil {
			return "", err
		}
		return n, nil
	}
}

func Getenv(k string) string            { v, _ := zsim.Getenv(k); return v }
func LookupEnv(k string) (string, bool) { return zsim.Getenv(k) }
func ExpandEnv(s string) string         { return real.Expand(s, Getenv) }
func Setenv(k, v string) error {
	if p := zsim.CurProc(); p != nil {
		if p.Env == nil {
			p.Env = map[string]string{}
		}
		p.Env[k] = v
	}
	return nil
}
func Unsetenv(k string) error {
	if p := zsim.CurProc(); p != nil {
		delete(p.Env, k)
	}
	return nil
}
func Environ() []string {
	var out []string
	if p := zsim.CurProc(); p != nil {
		for _, k := range zsim.SortedKeys(p.Env) {
			out = append(out, k+"="+p.Env[k])
		}
	}
	return out
}
func Exit(code int) { zsim.Exit(code) }
func Getpid() int {
	if p := zsim.CurProc(); p != nil {
		return p.ID + 1000
	}
	return 1
}
func Getppid() int                { return 1 }
func Getuid() int                 { return 1000 }
func Geteuid() int                { return 1000 }
func Getgid() int                 { return 1000 }
func Getegid() int                { return 1000 }
func Getpagesize() int            { return 4096 }
func Hostname() (string, error)   { return "simhost", nil }
func Executable() (string, error) { return "/usr/bin/houndd", nil }
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}
func UserCacheDir() (string, error)  { return "/home/hound/.cache", nil }
func UserConfigDir() (string, error) { return "/home/hound/.config", nil }
func Getwd() (string, error) {
	if p := zsim.CurProc(); p != nil {
		return p.Cwd, nil
	}
	return "/", nil
}
func Chdir(d string) error {
	i, err := Stat(d)
	if err != nil {
		return err
	}
	if !i.IsDir() {
		return &fs.PathError{Op: "chdir", Path: d, Err: syscall.ENOTDIR}
	}
	zsim.CurProc().Cwd = strings.TrimSuffix(zsim.Abs(d), "/")
	return nil
}

// ProcessState is how a child ended.
type ProcessState struct {
	Code int
	Pid_ int
}

func (p *ProcessState) ExitCode() int {
	if p == nil {
		return -1
	}
	if p.Code >= 128 {
		return -1
	}
	return p.Code
}
func (p *ProcessState) Success() bool { return p.Code == 0 }
func (p *ProcessState) Exited() bool  { return p.Code < 128 }
func (p *ProcessState) Pid() int      { return p.Pid_ }
func (p *ProcessState) Sys() any {
	if p.Code >= 128 {
		return syscall.WaitStatus(p.Code - 128)
	}
	return syscall.WaitStatus(p.Code << 8)
}
func (p *ProcessState) String() string {
	if p.Code >= 128 {
		return "signal: " + syscall.Signal(p.Code-128).String()
	}
	return "exit status " + strconv.Itoa(p.Code)
}

// Process is a running child.
type Process struct {
	Pid int
	P   *zsim.Proc
}

func (p *Process) Kill() error {
	if p.P.Dead {
		return ErrProcessDone
	}
	p.P.Kill()
	return nil
}
func (p *Process) Signal(s Signal) error {
	if p.P.Dead {
		return ErrProcessDone
	}
	if s == real.Kill {
		p.P.Kill()
	} else {
		p.P.Signal()
	}
	return nil
}
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	p.P.WaitExit(0)
	return &ProcessState{Code: p.P.Code, Pid_: p.Pid}, nil
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: real.ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func DirFS(dir string) fs.FS { return dirFS(dir) }
