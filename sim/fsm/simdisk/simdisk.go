// Package simdisk is the simulated operating system under the file storage:
// files, memory mappings, placement of mappings, and the faults of all of
// them. Every decision comes from seeds the simulator sets.
package simdisk

import (
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"syscall"
	"unsafe"
)

// RNG is splitmix64.
type RNG struct{ S uint64 }

func (r *RNG) Next() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Per reports true with probability p/1000.
func (r *RNG) Per(p int) bool { return p > 0 && int(r.Next()%1000) < p }

// IOFault makes the Nth (from 0) call of Kind within the armed window fail.
type IOFault struct {
	Kind    string `json:"kind"` // open create read write trunc mmap munmap close
	Nth     int    `json:"nth"`
	Errno   int    `json:"errno"`
	Partial int    `json:"partial,omitempty"` // bytes done before failing (read, write)
	Repeat  bool   `json:"repeat,omitempty"`  // later calls of the kind fail too
}

// Placement is what the storage may do within its contract (per mille).
type Placement struct {
	MoveAlloc int     `json:"move_alloc,omitempty"` // move the mapping at an allocation
	MoveFree  int     `json:"move_free,omitempty"`  // move the mapping at a release
	DirtyNew  int     `json:"dirty_new,omitempty"`  // fill new space with arbitrary bytes
	DirtyFree int     `json:"dirty_free,omitempty"` // overwrite released space
	Slack     int     `json:"slack,omitempty"`      // hand out more than asked for
	Pads      int     `json:"pads,omitempty"`       // another user of the storage takes a block first
	HighPad   []int64 `json:"high_pad,omitempty"`   // blocks taken right after creation (file offsets beyond 4 GiB)
}

// Alloc is one live allocation of a store.
type Alloc struct {
	Asked, Size int
	Aligned     bool
	Owner       int
}

// Own is what one structure holds of a file.
type Own struct {
	Bytes, Aligned, Count int
	BySize                map[int]int
}

// Inode is one file with its content (a memfd).
type Inode struct {
	Muts     int64 // allocations and releases begun since a header was written
	Name     string
	fd       int
	size     int64
	mode     os.FileMode
	ReadOnly bool
	Handles  int
	Maps     int

	RNG     RNG // placement decisions of the operation in progress
	Active  bool
	Live    map[int64]Alloc // allocations not released, nil when unknown
	Owner   int             // structure whose operation is in progress
	Own     map[int]*Own
	Work    map[int64]bool // spaces accessed, allocated or released, when not nil
	Pads    []int64
	Fresh   bool
	grew    bool
	Events  uint64 // hash of what happened to this file
	OnEvent func(what string)

	Storage  interface{} // what has the file open
	Reported interface{} // the statistics it reported last
}

// Worked records that an operation had to do with a space.
func (ino *Inode) Worked(space int64) {
	if ino.Work != nil {
		ino.Work[space] = true
	}
}

// World is one simulated machine.
type World struct {
	Place       Placement
	Files       map[string]*Inode
	Faults      []IOFault
	armed       bool
	seen        map[string]int
	Fired       map[string]int // faults injected, by kind
	Spacing     int            // inside an allocation or release of space
	SpaceFaults int            // faults injected there
	Calls       map[string]int // calls made, by kind
	Bad         string         // first contract violation by the code under test
	BadKind     string
	Dropped     int                                   // errors of the system that the storage itself dropped
	OnIO        func(kind string, before bool)        // kill points
	OnWrite     func(ino *Inode, b []byte, off int64) // kill points inside a write
	OnMut       func(ino *Inode)                      // an allocation or release begins
	N           Counters

	unlinked []*Inode
	rand     RNG
}

// Counters are the placement events that really happened.
type Counters struct {
	Allocs, Frees, MoveAlloc, MoveFree, DirtyNew, DirtyFree, Slack, Pads, HighPads int64
}

// Cur is the machine the code under test runs on.
var Cur *World

func NewWorld() *World {
	return &World{Files: map[string]*Inode{}, Fired: map[string]int{}, Calls: map[string]int{}, seen: map[string]int{}}
}

// Arm starts a window of injected I/O faults.
func (w *World) Arm(f []IOFault) {
	w.Faults, w.armed, w.seen = f, true, map[string]int{}
}

// Disarm ends the window and returns the calls seen in it.
func (w *World) Disarm() map[string]int {
	w.armed, w.Faults = false, nil
	return w.seen
}

// Violation is the panic value for a breach of the storage contract.
type Violation struct{ Kind, Msg string }

func (v *Violation) Error() string { return v.Kind + ": " + v.Msg }

// Breach records a breach of the storage contract and stops the operation.
func (w *World) Breach(kind, format string, a ...interface{}) {
	v := &Violation{kind, fmt.Sprintf(format, a...)}
	if w.Bad == "" {
		w.BadKind, w.Bad = kind, v.Msg
	}
	panic(v)
}

func (w *World) fault(kind string, alias ...string) (IOFault, bool) {
	f, ok := w.fault1(kind)
	for _, a := range alias {
		if ok || !w.armed {
			break
		}
		n := w.seen[a]
		w.seen[a]++
		for _, g := range w.Faults {
			if g.Kind == a && (g.Nth == n || g.Repeat && n > g.Nth) {
				w.fired(a)
				return g, true
			}
		}
	}
	return f, ok
}

func (w *World) fired(kind string) {
	w.Fired["io:"+kind]++
	if w.Spacing > 0 {
		w.SpaceFaults++
	}
}

func (w *World) fault1(kind string) (IOFault, bool) {
	w.Calls[kind]++
	if w.OnIO != nil {
		w.OnIO(kind, true)
	}
	if !w.armed {
		return IOFault{}, false
	}
	n := w.seen[kind]
	w.seen[kind]++
	for _, f := range w.Faults {
		if f.Kind == kind && (f.Nth == n || f.Repeat && n > f.Nth) {
			w.fired(kind)
			return f, true
		}
	}
	return IOFault{}, false
}

// FailAlloc says whether an allocation fails, which is what one does that needs
// the file to grow when it cannot.
func (w *World) FailAlloc(ino *Inode) error {
	if !w.armed {
		return nil
	}
	if ft, ok := w.fault("alloc"); ok {
		return ft.err("truncate", ino.Name)
	}
	return nil
}

func (w *World) after(kind string) {
	if w.OnIO != nil {
		w.OnIO(kind, false)
	}
}

func (f IOFault) err(op, path string) error {
	return &os.PathError{Op: op, Path: path, Err: syscall.Errno(f.Errno)}
}

func must(err error) {
	if err != nil {
		panic("simdisk: host failure: " + err.Error())
	}
}

func newMemfd() int {
	name := []byte("sim\x00")
	fd, _, e := syscall.RawSyscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic("simdisk: host failure: memfd_create: " + e.Error())
	}
	return int(fd)
}

func (w *World) create(name string) *Inode {
	ino := &Inode{Name: name, fd: newMemfd(), mode: 0666, Live: map[int64]Alloc{}, Own: map[int]*Own{}, Fresh: true}
	w.Files[name] = ino
	return ino
}

// Held returns the counters of an owner.
func (ino *Inode) Held(owner int) *Own {
	o := ino.Own[owner]
	if o == nil {
		o = &Own{BySize: map[int]int{}}
		ino.Own[owner] = o
	}
	return o
}

// Add records an allocation.
func (ino *Inode) Add(space int64, a Alloc) {
	ino.Live[space] = a
	o := ino.Held(a.Owner)
	o.Bytes += a.Asked
	o.Count++
	o.BySize[a.Asked]++
	if a.Aligned {
		o.Aligned++
	}
}

// Del records a release.
func (ino *Inode) Del(space int64, a Alloc) {
	delete(ino.Live, space)
	o := ino.Held(a.Owner)
	o.Bytes -= a.Asked
	o.Count--
	if o.BySize[a.Asked]--; o.BySize[a.Asked] == 0 {
		delete(o.BySize, a.Asked)
	}
	if a.Aligned {
		o.Aligned--
	}
}

// Put creates a file with the given content (allocations unknown).
func (w *World) Put(name string, content []byte) *Inode {
	if old := w.Files[name]; old != nil {
		old.drop()
	}
	ino := w.create(name)
	ino.Live, ino.Fresh = nil, false
	must(syscall.Ftruncate(ino.fd, int64(len(content))))
	ino.size = int64(len(content))
	zero := make([]byte, 65536)
	for o := 0; o < len(content); o += 65536 {
		e := o + 65536
		if e > len(content) {
			e = len(content)
		}
		if string(content[o:e]) == string(zero[:e-o]) {
			continue
		}
		_, err := syscall.Pwrite(ino.fd, content[o:e], int64(o))
		must(err)
	}
	return ino
}

// Head returns the first bytes of the file.
func (ino *Inode) Head(n int) []byte {
	b := make([]byte, n)
	k, err := syscall.Pread(ino.fd, b, 0)
	must(err)
	return b[:k]
}

// Content returns a copy of the file's bytes.
func (ino *Inode) Content() []byte {
	b := make([]byte, ino.size)
	for n := 0; n < len(b); {
		// skip holes
		off, err := syscall.Seek(ino.fd, int64(n), 3)
		if err != nil {
			break
		}
		end, err := syscall.Seek(ino.fd, off, 4)
		must(err)
		if end > int64(len(b)) {
			end = int64(len(b))
		}
		for o := off; o < end; {
			k, err := syscall.Pread(ino.fd, b[o:end], o)
			must(err)
			if k == 0 {
				break
			}
			o += int64(k)
		}
		n = int(end)
	}
	return b
}

func (ino *Inode) Size() int64 { return ino.size }

func (ino *Inode) Fd() uintptr { return uintptr(ino.fd) }

func (ino *Inode) drop() {
	if ino.fd >= 0 {
		syscall.Close(ino.fd)
		ino.fd = -1
	}
}

// Remove deletes a file from the disk.
func (w *World) Remove(name string) {
	if ino := w.Files[name]; ino != nil {
		ino.drop()
		delete(w.Files, name)
	}
}

// Unlink removes a file's name; open handles and mappings keep the content.
func (w *World) Unlink(name string) {
	if ino := w.Files[name]; ino != nil {
		w.unlinked = append(w.unlinked, ino)
		delete(w.Files, name)
	}
}

// Try is the beginning of a system call on a path.
func (w *World) Try(kind, op, path string) error {
	if f, ok := w.fault(kind); ok {
		return f.err(op, path)
	}
	return nil
}

// Done is the end of a system call.
func (w *World) Done(kind string) { w.after(kind) }

// Random is the machine's source of random numbers.
func (w *World) Random() uint64 { return w.rand.Next() }

// Close releases the host's resources of the world.
func (w *World) Close() {
	for _, n := range w.Names() {
		w.Files[n].drop()
	}
	for _, ino := range w.unlinked {
		ino.drop()
	}
	for _, m := range w.mappingsOf() {
		unmapRange(m.base, m.size)
		delete(mappings, m.base)
	}
}

func (w *World) mappingsOf() []*mapping {
	var r []*mapping
	for _, m := range mappings {
		if m.w == w {
			r = append(r, m)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].base < r[j].base })
	return r
}

// Names returns the files' names in order.
func (w *World) Names() []string {
	var r []string
	for n := range w.Files {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// File is an open file.
type File struct {
	w      *World
	Ino    *Inode
	closed bool
}

// OpenFile stands in for os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	w := Cur
	kind := "open"
	if flag&os.O_CREATE != 0 {
		kind = "create"
	}
	if f, ok := w.fault(kind); ok {
		return nil, f.err("open", name)
	}
	ino := w.Files[name]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		ino = w.create(name)
	} else if ino.ReadOnly && flag&(os.O_RDWR|os.O_WRONLY) != 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.EACCES}
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	}
	if flag&os.O_TRUNC != 0 {
		must(syscall.Ftruncate(ino.fd, 0))
		ino.size = 0
	}
	ino.Handles++
	w.after(kind)
	return &File{w: w, Ino: ino}, nil
}

var errClosed = os.ErrClosed

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, errClosed
	}
	if ft, ok := f.w.fault("read"); ok {
		n := ft.Partial
		if n > len(b) {
			n = len(b)
		}
		if n > 0 {
			k, _ := syscall.Pread(f.Ino.fd, b[:n], off)
			return k, ft.err("read", f.Ino.Name)
		}
		return 0, ft.err("read", f.Ino.Name)
	}
	t := 0
	for t < len(b) {
		n, err := syscall.Pread(f.Ino.fd, b[t:], off+int64(t))
		must(err)
		if n == 0 {
			return t, io.EOF
		}
		t += n
	}
	return t, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, errClosed
	}
	ft, bad := f.w.fault("write")
	if f.w.OnWrite != nil {
		f.w.OnWrite(f.Ino, b, off)
	}
	full := len(b)
	if bad {
		n := ft.Partial
		if n > len(b) {
			n = len(b)
		}
		b = b[:n]
	}
	t := 0
	for t < len(b) {
		n, err := syscall.Pwrite(f.Ino.fd, b[t:], off+int64(t))
		must(err)
		t += n
	}
	if e := off + int64(t); t > 0 && e > f.Ino.size {
		f.Ino.size = e
	}
	if bad {
		return t, ft.err("write", f.Ino.Name)
	}
	_ = full
	f.w.after("write")
	return t, nil
}

// Sync is offered for completeness: a simulated process kill loses nothing
// that was written.
func (f *File) Sync() error {
	if f.closed {
		return errClosed
	}
	if ft, ok := f.w.fault("sync"); ok {
		return ft.err("sync", f.Ino.Name)
	}
	return nil
}

func (f *File) Name() string { return f.Ino.Name }

func (f *File) Truncate(size int64) error {
	if f.closed {
		return errClosed
	}
	var alias []string
	if f.Ino.grew = size > f.Ino.size; f.Ino.grew {
		alias = []string{"grow"}
	}
	if ft, ok := f.w.fault("trunc", alias...); ok {
		return ft.err("truncate", f.Ino.Name)
	}
	must(syscall.Ftruncate(f.Ino.fd, size))
	f.Ino.size = size
	f.w.after("trunc")
	return nil
}

func (f *File) Close() error {
	if f.closed {
		return errClosed
	}
	f.closed = true
	f.Ino.Handles--
	if ft, ok := f.w.fault("close"); ok {
		return ft.err("close", f.Ino.Name)
	}
	f.w.after("close")
	return nil
}

// --- mappings: a private region of addresses, used round robin, in which
// everything not mapped faults.

const (
	regionSize = 1 << 44
	guard      = 1 << 20
)

type mapping struct {
	w      *World
	ino    *Inode
	base   uintptr
	off    int64
	size   int
	mapped uintptr // bytes of address space
}

var (
	regionBase uintptr
	regionNext uintptr
	mappings   = map[uintptr]*mapping{}
)

func sysMmap(addr uintptr, length uintptr, prot, flags int, fd int, off int64) (uintptr, syscall.Errno) {
	r, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, length, uintptr(prot), uintptr(flags), uintptr(fd), uintptr(off))
	return r, e
}

func initRegion() {
	if regionBase != 0 {
		return
	}
	r, e := sysMmap(0, regionSize, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, -1, 0)
	if e != 0 {
		panic("simdisk: host failure: reserving addresses: " + e.Error())
	}
	regionBase, regionNext = r, r
}

// InRegion tells whether p points into a (present or former) mapping.
func InRegion(p uintptr) bool { return regionBase != 0 && p >= regionBase && p < regionBase+regionSize }

func unmapRange(base uintptr, size int) {
	_, e := sysMmap(base, roundUp(uintptr(size)), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE|syscall.MAP_FIXED, -1, 0)
	if e != 0 {
		panic("simdisk: host failure: unmapping: " + e.Error())
	}
}

func roundUp(n uintptr) uintptr { return (n + 4095) &^ 4095 }

func mapAt(w *World, ino *Inode, off int64, length int) []byte {
	initRegion()
	need := roundUp(uintptr(length)) + guard
	if regionNext+need > regionBase+regionSize {
		regionNext = regionBase
	}
	base := regionNext
	regionNext += need
	fd := ino.fd
	_, e := sysMmap(base, roundUp(uintptr(length)), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED|syscall.MAP_FIXED, fd, off)
	if e != 0 {
		panic("simdisk: host failure: mmap: " + e.Error())
	}
	mappings[base] = &mapping{w: w, ino: ino, base: base, off: off, size: length}
	ino.Maps++
	return unsafe.Slice((*byte)(unsafe.Pointer(base)), length)
}

func baseOf(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

// Mmap maps a part of the file.
func Mmap(f *File, offset int64, length int) ([]byte, error) {
	var alias []string
	if f.Ino.grew {
		alias = []string{"growmap"}
	}
	if ft, ok := f.w.fault("mmap", alias...); ok {
		return nil, syscall.Errno(ft.Errno)
	}
	b := mapAt(f.w, f.Ino, offset, length)
	f.w.after("mmap")
	return b, nil
}

var errNotMapped = errors.New("simdisk: not mapped")

// Munmap removes a mapping.
func Munmap(b []byte) error {
	m := mappings[baseOf(b)]
	if m == nil {
		return errNotMapped
	}
	if ft, ok := m.w.fault("munmap"); ok {
		return syscall.Errno(ft.Errno)
	}
	unmapRange(m.base, m.size)
	delete(mappings, m.base)
	m.ino.Maps--
	m.w.after("munmap")
	return nil
}

// Move gives the mapping another address; the old one faults from now on.
func Move(b []byte) []byte {
	m := mappings[baseOf(b)]
	if m == nil {
		return b
	}
	nb := mapAt(m.w, m.ino, m.off, m.size)
	unmapRange(m.base, m.size)
	delete(mappings, m.base)
	m.ino.Maps--
	return nb
}
