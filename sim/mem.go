//go:build go1.22

package zsim

import (
	"syscall"
	"unsafe"
)

// Large numeric buffers are mapped outside the Go heap and recycled between
// runs, so that building many small indexes does not clear gigabytes.

type arena struct {
	mem  []byte
	used int // bytes in use at most
}

var (
	arenaFree = map[int][]*arena{}
	arenaUsed []*arena
)

const bigAlloc = 512 << 10

func allocArena(n int) []byte {
	n = (n + 4095) &^ 4095
	var a *arena
	if f := arenaFree[n]; len(f) > 0 {
		a = f[len(f)-1]
		arenaFree[n] = f[:len(f)-1]
	} else {
		m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			panic(err)
		}
		a = &arena{mem: m}
	}
	arenaUsed = append(arenaUsed, a)
	return a.mem
}

type numeric interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~complex64 | ~complex128
}

// MakeSlice is make([]T, len[, cap]) for numeric T.
func MakeSlice[T numeric](n int, c ...int) []T {
	k := n
	if len(c) > 0 {
		k = c[0]
	}
	var z T
	sz := int(unsafe.Sizeof(z))
	if W == nil || k < 0 || n < 0 || k*sz < bigAlloc {
		return make([]T, n, k)
	}
	m := allocArena(k * sz)
	return unsafe.Slice((*T)(unsafe.Pointer(&m[0])), k)[:n]
}

var maps []*mapping

type mapping struct {
	mem  []byte
	dead bool
}

func releaseMem() {
	for _, a := range arenaUsed {
		syscall.Madvise(a.mem, syscall.MADV_DONTNEED)
		arenaFree[len(a.mem)] = append(arenaFree[len(a.mem)], a)
	}
	arenaUsed = nil
	for _, m := range maps {
		syscall.Munmap(m.mem)
	}
	maps = nil
}

// MapStats: live mappings of a process.
type procMap struct {
	m    *mapping
	addr uintptr
	len  int
	ino  *Inode
}

// Mmap maps the file behind a simulated descriptor.
func Mmap(fd int, offset int64, length int, prot, flags int) ([]byte, error) {
	w := W
	if w == nil {
		return nil, syscall.ENOSYS
	}
	p := cur.proc
	f := p.fds[fd]
	if f == nil {
		return nil, syscall.EBADF
	}
	if length <= 0 {
		return nil, syscall.EINVAL
	}
	if ft := w.FS.op(&Op{Kind: "mmap", Path: f.path, ino: f.ino}); ft.Err != nil {
		return nil, errnoOf(ft.Err)
	}
	n := (length + 4095) &^ 4095
	mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		return nil, err
	}
	if int(offset) < len(f.ino.data) {
		copy(mem, f.ino.data[offset:])
	}
	if prot&syscall.PROT_WRITE == 0 {
		syscall.Mprotect(mem, syscall.PROT_READ)
	}
	m := &mapping{mem: mem}
	maps = append(maps, m)
	p.maps = append(p.maps, &procMap{m: m, addr: uintptr(unsafe.Pointer(&mem[0])), len: length, ino: f.ino})
	w.Mapped++
	return mem[:length:length], nil
}

// Munmap has the checks of syscall.Munmap.
func Munmap(b []byte) error {
	if W == nil {
		return syscall.ENOSYS
	}
	if Dead() {
		return nil
	}
	if len(b) == 0 || len(b) != cap(b) {
		return syscall.EINVAL
	}
	p := cur.proc
	a := uintptr(unsafe.Pointer(&b[0]))
	for i, pm := range p.maps {
		if pm.addr == a && pm.len == len(b) {
			p.maps = append(p.maps[:i:i], p.maps[i+1:]...)
			syscall.Mprotect(pm.m.mem, syscall.PROT_NONE)
			pm.m.dead = true
			return nil
		}
	}
	return syscall.EINVAL
}

// Maps lists the paths of the files the process has mapped.
func (p *Proc) Maps() []*Inode {
	var s []*Inode
	for _, m := range p.maps {
		s = append(s, m.ino)
	}
	return s
}
