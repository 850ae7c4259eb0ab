package main

import (
	"bytes"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"github.com/roy2220/fsm"
	"github.com/roy2220/fsm/simdisk"
	"github.com/roy2220/fsm/simhook"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	base "verif/sim/base"
)

// opSteps bounds the simulated steps of one call: a call that takes more
// makes no progress.
const opSteps = 60_000_000

// model is the reference: a map, its keys in order, and keys removed lately.
type model struct {
	m       map[string]string
	keys    []string // sorted unless dirty
	dirty   bool
	payload int
	node    int // bytes the records take inside tree nodes, at most
	grave   []string
}

func newModel() *model { return &model{m: map[string]string{}} }

func (m *model) sorted() []string {
	if m.dirty {
		m.keys = m.keys[:0]
		for k := range m.m {
			m.keys = append(m.keys, k)
		}
		sort.Strings(m.keys)
		m.dirty = false
	}
	return m.keys
}

func inNode(k, v string) int {
	a, b := len(k), len(v)
	if a > 257 {
		a = 257
	}
	if b > 129 {
		b = 129
	}
	return a + b
}

func (m *model) set(k, v string) (old string, had bool) {
	old, had = m.m[k]
	if had {
		m.payload -= len(old)
		m.node -= inNode(k, old)
	} else {
		m.payload += len(k)
		if !m.dirty {
			if len(m.keys) < 4000 {
				i := sort.SearchStrings(m.keys, k)
				m.keys = append(m.keys, "")
				copy(m.keys[i+1:], m.keys[i:])
				m.keys[i] = k
			} else {
				m.dirty = true
			}
		}
	}
	m.payload += len(v)
	m.node += inNode(k, v)
	m.m[k] = v
	return
}

func (m *model) del(k string) (old string, had bool) {
	old, had = m.m[k]
	if !had {
		return
	}
	delete(m.m, k)
	m.payload -= len(k) + len(old)
	m.node -= inNode(k, old)
	if !m.dirty {
		if len(m.keys) < 4000 {
			i := sort.SearchStrings(m.keys, k)
			m.keys = append(m.keys[:i], m.keys[i+1:]...)
		} else {
			m.dirty = true
		}
	}
	if len(m.grave) < 64 {
		m.grave = append(m.grave, k)
	} else {
		m.grave[len(k)*7%64] = k
	}
	return
}

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.m {
		n.m[k] = v
	}
	n.dirty, n.payload, n.node = true, m.payload, m.node
	n.grave = append(n.grave, m.grave...)
	return n
}

// cursor is a dictionary scan in progress and what it may and must return.
type cursor struct {
	*scanner
	allowed  map[string]map[string]bool // pairs that were in the dictionary since it began
	must     map[string]bool            // keys present when it began
	got      map[string]int
	modified bool
	removed  bool
	done     bool
}

// heldIter is a range iteration which other work interrupts.
type heldIter struct {
	it   iter
	want []string
	desc bool
	at   int
}

// structure is one dictionary, tree or map with its model.
type structure struct {
	def        StructDef
	idx        int
	d          dut
	bt         *bptree.BPTree
	btOld      *bptree.BPTree // the last object, after Store or Destroy
	hmOld      *hashmap.HashMap
	fsOld      *fsm.FileStorage
	hm         *hashmap.HashMap
	m          *model
	stored     int64 // info address while stored (shared storages)
	loaded     bool
	exists     bool  // created (shared storages)
	desc       int64 // space of the descriptor it was loaded from, -1 if created
	descSize   int
	cursors    []*cursor
	iters      []*heldIter // until it is modified
	fresh      map[int]int // asked sizes of a new structure's allocations
	dirSize    int
	baseCount  int
	session    int
	impl       string          // "base" while the released version has it open
	pairs      map[uint64]bool // header and allocation bitmap that completed Closes left
	closedSize int64           // of the file at the last completed Close
	closed     *model          // contents at the last completed Close
	lastSt     dstats
	hasLast    bool
	file       *simdisk.Inode
}

// oracle flags of a check.
type oracles struct {
	point, contents, rng, scan, stats, balance, table, space, buffers, iter, reopen, cost bool
}

// saved is a result kept to see that it stays what it was.
type saved struct {
	b    []byte
	want string
	what string
}

// Exec runs one trace.
type Exec struct {
	turns              int
	patterned          bool // keys other than random ones, which FNV may not spread
	t                  *Trace
	or                 oracles
	w                  *simdisk.World
	st                 []*structure
	stores             map[string]*storage
	step               int
	fail               *Failure
	known              map[string]bool // known findings met
	keep               []saved
	argBufs            [2][]byte
	spare              [][]byte // results with room behind them
	overwrite          int
	keepAt             int
	hash               uint64 // of everything observed
	log                *bytes.Buffer
	res                *Result
	maxOp              int64
	longest            int64          // bytes of the longest item (C20)
	patience           int64          // how many times more steps than usual a call may take
	lastIO             map[string]int // I/O calls of the last window
	killed             *killer
	inTask             bool
	stop               bool // nothing more can be judged in this run
	fsSeed             uint64
	exe                string // own executable, for runs in another process
	shapes             map[uint64]bool
	dirsKnown, dirsOff bool
}

// Result is what a run reports.
type Result struct {
	Run     int                `json:"run"`
	Hash    uint64             `json:"hash"` // everything that happened
	Seen    uint64             `json:"seen"` // everything a caller saw
	Steps   int64              `json:"steps"`
	Calls   int64              `json:"calls"`
	MaxOp   int64              `json:"maxop"`
	Fail    *Failure           `json:"fail,omitempty"`
	Known   []string           `json:"known,omitempty"`
	Faults  map[string]int64   `json:"faults,omitempty"`
	Probes  map[string]int64   `json:"probes,omitempty"`
	Shapes  []uint64           `json:"shapes,omitempty"`
	Maxima  map[string]float64 `json:"maxima,omitempty"`
	Kind    string             `json:"kind,omitempty"`
	NonTriv bool               `json:"nontriv"`
}

func (x *Exec) probe(n string)           { x.res.Probes[n]++ }
func (x *Exec) addProbe(n string, k int) { x.res.Probes[n] += int64(k) }
func (x *Exec) maximum(n string, v float64) {
	if v > 1e9 {
		v = 1e9 // also a division by zero
	}
	if v > x.res.Maxima[n] {
		x.res.Maxima[n] = v
	}
}

func (x *Exec) note(b ...uint64) {
	for _, v := range b {
		x.hash = mix(x.hash, v)
	}
}

func hashBytes(b []byte) uint64 {
	h := uint64(len(b)) * 0x9e3779b97f4a7c15
	for len(b) >= 8 {
		h = (h ^ uint64(b[0]) ^ uint64(b[1])<<8 ^ uint64(b[2])<<16 ^ uint64(b[3])<<24 ^ uint64(b[4])<<32 ^ uint64(b[5])<<40 ^ uint64(b[6])<<48 ^ uint64(b[7])<<56) * 0x100000001b3
		h ^= h >> 29
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return h
}

func (x *Exec) failf(class, format string, a ...interface{}) {
	if x.fail == nil {
		x.fail = &Failure{class, fmt.Sprintf(format, a...), x.step}
	}
}

type hang struct{}

var hexRE = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+`)

// panicText describes a recovered panic without addresses.
func panicText(r interface{}) (class, text string) {
	switch e := r.(type) {
	case hang:
		return "hang", "no end after 60 million steps and more"
	case *simdisk.Violation:
		return e.Kind, e.Msg
	case runtime.Error:
		s := e.Error()
		if strings.Contains(s, "fault address") || strings.Contains(s, "invalid memory address") {
			if _, ok := e.(interface{ Addr() uintptr }); ok {
				return "fault", "touched memory that is not mapped (any more)"
			}
		}
		return "panic", hexRE.ReplaceAllString(s, "#")
	case error:
		if strings.HasPrefix(e.Error(), "simdisk: host failure") {
			panic(r)
		}
		return "panic", hexRE.ReplaceAllString(e.Error(), "#")
	case string:
		if strings.HasPrefix(e, "simdisk: host failure") || strings.HasPrefix(e, "bad trace") {
			panic(r)
		}
		return "panic", hexRE.ReplaceAllString(e, "#")
	}
	return "panic", hexRE.ReplaceAllString(fmt.Sprint(r), "#")
}

// where names the innermost function of the code under test on the stack.
func where() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "roy2220/plainkv") {
			return f.Function[strings.LastIndex(f.Function, "/")+1:]
		}
		if !more {
			return ""
		}
	}
}

// dataSteps is what a call may take beyond opSteps for going through all there
// is, byte by byte.
func (x *Exec) dataSteps() int64 {
	n := 0
	for _, s := range x.st {
		if s.m != nil {
			n += s.m.payload
		}
	}
	return 50 * int64(n)
}

// guard runs one call of the code under test. It returns the failure, if any,
// without recording it.
func (x *Exec) guard(f func()) (fl *Failure) {
	x.res.Calls++
	begin := simhook.Steps()
	if !x.inTask {
		if x.killed != nil {
			x.killed.arm(begin)
		} else {
			simhook.Arm(opSteps*(1+x.patience)+x.dataSteps(), func() { panic(hang{}) })
		}
	}
	defer func() {
		if !x.inTask {
			simhook.Disarm()
			if n := simhook.Steps() - begin; n > x.maxOp {
				x.maxOp = n
			}
		}
		if r := recover(); r != nil {
			class, text := panicText(r)
			if w := where(); w != "" && class != "hang" {
				text += " in " + w
			}
			fl = &Failure{class, text, x.step}
		}
		if x.w.Bad != "" {
			fl = &Failure{x.w.BadKind, x.w.Bad, x.step}
		}
	}()
	f()
	return nil
}

// call runs one call that must not panic.
func (x *Exec) call(what string, f func()) bool {
	if len(x.spare) > 0 {
		x.useSpare()
	}
	if x.or.cost {
		return x.measured(what, f)
	}
	if fl := x.guard(f); fl != nil {
		x.failf(fl.Class, "%s: %s", what, fl.Msg)
		return false
	}
	return true
}

func newExec(t *Trace, or oracles) *Exec {
	x := &Exec{t: t, or: or, w: simdisk.NewWorld(), stores: map[string]*storage{}, known: map[string]bool{}, lastIO: map[string]int{}, shapes: map[uint64]bool{}}
	x.res = &Result{Run: t.Run, Faults: map[string]int64{}, Probes: map[string]int64{}, Maxima: map[string]float64{}, Kind: t.Kind}
	x.w.Place = t.Place
	simdisk.Cur = x.w
	for i, d := range t.Structs {
		x.st = append(x.st, &structure{def: d, idx: i, m: newModel(), closed: newModel(), stored: -1})
	}
	return x
}

// run executes the whole trace.
func (x *Exec) run() *Result {
	simhook.NewProcess()
	steps0 := simhook.Steps()
	for i := range x.t.Steps {
		x.step = i
		x.doStep(&x.t.Steps[i])
		if x.fail == nil && x.or.buffers {
			x.checkKept()
		}
		if x.fail != nil {
			if x.byRelease(&x.t.Steps[i]) {
				// the history makes the released version itself fail
				x.probe("release_fails")
				x.fail = nil
			}
			break
		}
		if x.stop {
			break
		}
	}
	x.res.Steps = simhook.Steps() - steps0
	x.res.Fail = x.fail
	x.res.Seen = x.hash
	for _, n := range x.w.Names() {
		x.note(x.w.Files[n].Events)
	}
	x.note(uint64(x.res.Steps))
	x.res.Hash = x.hash
	for h := range x.shapes {
		x.res.Shapes = append(x.res.Shapes, h)
	}
	sort.Slice(x.res.Shapes, func(i, j int) bool { return x.res.Shapes[i] < x.res.Shapes[j] })
	x.res.MaxOp = x.maxOp
	for k := range x.known {
		x.res.Known = append(x.res.Known, k)
	}
	sort.Strings(x.res.Known)
	c := x.w.N
	for k, v := range map[string]int64{"move_alloc": c.MoveAlloc, "move_free": c.MoveFree, "dirty_new": c.DirtyNew, "dirty_free": c.DirtyFree, "slack": c.Slack, "pads": c.Pads, "high_pads": c.HighPads} {
		if v > 0 {
			x.res.Faults["storage:"+k] += v
		}
	}
	for k, v := range x.w.Fired {
		x.res.Faults[k] += int64(v)
	}
	x.w.Close()
	return x.res
}

// byRelease tells whether the structure of a step is open in the released
// version.
func (x *Exec) byRelease(st *Step) bool { return x.at(st).impl == "base" }

// releaseSound tells whether the released version left a file that is as it
// meant it to be: its own reader finds the contents, and no tree node is
// filled beyond its limit (it has defects that leave such nodes).
func (x *Exec) releaseSound(s *structure) bool {
	ok := false
	x.elsewhere(func(w *simdisk.World) {
		w.Put("image", s.file.Content())
		fl := x.guard(func() {
			if s.def.Kind == "od" {
				if od, err := base.OpenOrderedDict("image", false); err == nil {
					b := od.Walk()
					ok = b.Bad == "" && b.Overloaded == 0 && b.Records == len(s.m.m) && b.Payload == s.m.payload
				}
				return
			}
			if d, err := base.OpenDict("image", false); err == nil {
				b := d.Walk()
				ok = b.Items == len(s.m.m) && b.Payload == s.m.payload
			}
		})
		ok = ok && fl == nil
	})
	return ok
}

func raw(kind string) bool     { return kind == "bt" || kind == "hm" }
func ordered(kind string) bool { return kind == "od" || kind == "bt" }

func (x *Exec) setFS(fs uint64) {
	for _, n := range x.w.Names() {
		ino := x.w.Files[n]
		ino.Active = fs != 0
		ino.RNG.S = fs
	}
	x.fsSeed = fs
}

// ensure opens (or creates) the structure so that operations can use it.
func (x *Exec) ensure(s *structure, impl string) bool {
	if s.d != nil {
		return true
	}
	if raw(s.def.Kind) {
		return x.ensureRaw(s)
	}
	first := x.w.Files[s.def.File] == nil
	s.descriptor(-1)
	if !first {
		s.file = x.w.Files[s.def.File]
		if h, ok := fsm.ParseHeader(s.file.Head(fsm.HeaderSize)); ok {
			s.descriptor(h.Primary)
		}
	}
	s.impl = impl
	if !first {
		x.newProcess()
	}
	var d dut
	var err error
	create := first || mix(uint64(s.session), x.t.Seed+uint64(x.t.Run))&1 == 0
	if !x.call("open", func() { d, err = openDict(s.def.Kind, impl, s.def.File, create) }) {
		return false
	}
	if err != nil || d == nil {
		x.failf("io", "open failed without any fault: %v", err)
		return false
	}
	s.d = d
	s.file = x.w.Files[s.def.File]
	if s.file == nil {
		x.failf("io", "open made no file of the given name")
		return false
	}
	s.file.Active, s.file.RNG.S = x.fsSeed != 0, x.fsSeed
	s.hasLast = false
	s.session++
	x.own(s)
	if first {
		x.baseline(s)
	}
	return true
}

// newProcess makes what follows happen in another process than what came
// before, if the step wants it so and nothing is open.
func (x *Exec) newProcess() {
	if x.inTask || x.step >= len(x.t.Steps) || !x.t.Steps[x.step].Fresh {
		return
	}
	for _, o := range x.st {
		if o.d != nil {
			return
		}
	}
	for _, o := range x.stores {
		if o.open {
			return
		}
	}
	simhook.NewProcess()
	x.probe("new_process")
}

func (x *Exec) openStorage(file string) *storage {
	s := x.stores[file]
	if s == nil {
		s = &storage{file: file}
		x.stores[file] = s
	}
	if s.open {
		return s
	}
	first := x.w.Files[file] == nil
	if !first {
		x.newProcess()
	}
	s.fs = new(fsm.FileStorage).Init()
	var err error
	if !x.call("storage open", func() { err = s.fs.Open(file, true) }) {
		return nil
	}
	if err != nil {
		x.failf("io", "storage open failed without any fault: %v", err)
		return nil
	}
	s.open = true
	ino := x.w.Files[file]
	ino.Active, ino.RNG.S = x.fsSeed != 0, x.fsSeed
	if !first {
		ino.Owner = -1
		addrs := s.readDirectory(len(x.st))
		for _, t := range x.st {
			if t.def.File == file {
				t.stored = addrs[t.idx]
			}
		}
	}
	return s
}

// retire lets go of a tree's or map's object after Store or Destroy, which
// make it fit for Load or Create again.
func (s *structure) retire() {
	s.btOld, s.hmOld, s.fsOld = s.bt, s.hm, nil
	switch d := s.d.(type) {
	case btDut:
		s.fsOld = d.fs
	case hmDut:
		s.fsOld = d.fs
	}
	s.d, s.bt, s.hm, s.cursors, s.iters = nil, nil, nil, nil, nil
}

// again takes turns.
func (x *Exec) again() bool {
	x.turns++
	return x.turns%2 == 0
}

func (x *Exec) ensureRaw(s *structure) bool {
	store := x.openStorage(s.def.File)
	if store == nil {
		return false
	}
	s.file = x.w.Files[s.def.File]
	x.own(s)
	s.descriptor(-1)
	if s.exists {
		s.descriptor(s.stored)
	}
	if !x.call("create or load", func() {
		if s.def.Kind == "bt" {
			t := s.btOld
			if t == nil || s.fsOld != store.fs || x.again() {
				t = new(bptree.BPTree).Init(store.fs)
			} else {
				x.probe("object_reused")
			}
			if s.exists {
				t.Load(s.stored)
			} else {
				t.Create()
			}
			s.d = btDut{store.fs, t}
			s.bt = t
		} else {
			t := s.hmOld
			if t == nil || s.fsOld != store.fs || x.again() {
				t = new(hashmap.HashMap).Init(store.fs)
			} else {
				x.probe("object_reused")
			}
			if s.exists {
				t.Load(s.stored)
			} else {
				t.Create()
			}
			s.d = hmDut{store.fs, t}
			s.hm = t
		}
	}) {
		return false
	}
	if !s.exists {
		x.baseline(s)
	}
	s.exists, s.loaded, s.stored, s.hasLast = true, true, -1, false
	return true
}

func (x *Exec) storeRaw(s *structure) bool {
	if s.d == nil {
		return true
	}
	x.own(s)
	ok := x.call("store", func() {
		if s.bt != nil {
			s.stored = s.bt.Store()
		} else {
			s.stored = s.hm.Store()
		}
	})
	s.retire()
	s.loaded = false
	return ok
}

func (x *Exec) closeStorage(file string) bool {
	st := x.stores[file]
	if st == nil || !st.open {
		return true
	}
	addrs := make([]int64, len(x.st))
	for _, s := range x.st {
		if s.def.File != file {
			continue
		}
		if s.d != nil && !x.storeRaw(s) {
			return false
		}
		addrs[s.idx] = s.stored
		if !s.exists {
			addrs[s.idx] = -1
		}
	}
	var err error
	x.w.Files[file].Owner = -1
	if !x.call("storage close", func() {
		st.writeDirectory(addrs)
		err = st.fs.Close()
	}) {
		return false
	}
	if err != nil {
		x.failf("io", "storage close failed without any fault: %v", err)
		return false
	}
	st.open = false
	return true
}

// close closes one dictionary; without faults it must succeed.
func (x *Exec) close(s *structure) bool {
	if raw(s.def.Kind) {
		return x.closeStorage(s.def.File)
	}
	if s.d == nil {
		return true
	}
	var err error
	if !x.call("close", func() { err = s.d.Close() }) {
		return false
	}
	if err != nil {
		x.failf("io", "close failed without any fault: %v", err)
		return false
	}
	s.d, s.cursors, s.iters = nil, nil, nil
	if s.impl == "base" && !x.releaseSound(s) {
		x.probe("release_damaged")
		x.stop = true
		return false
	}
	s.closed = s.m.clone()
	s.closedSize = s.file.Size()
	if x.t.Property == "C16" {
		if h, ok := fsm.ParseHeader(s.file.Content()); ok {
			if s.pairs == nil {
				s.pairs = map[uint64]bool{}
			}
			s.pairs[pairOf(h)] = true
		}
	}
	if s.file.Handles != 0 || s.file.Maps != 0 {
		x.failf("leak", "after close %d open files and %d mappings remain", s.file.Handles, s.file.Maps)
		return false
	}
	return true
}

// --- buffers

type argBuf struct {
	buf  []byte
	n    int
	want []byte
}

// arg makes a slice to pass to the code under test, with surroundings that
// show whether it was written to.
// Callers of some runs build each i-th argument in one buffer.
func (x *Exec) arg(b []byte, i int) *argBuf {
	const pad = 24
	if x.t.Buf == "reuse" {
		buf := x.argBufs[i]
		if len(buf) < pad+len(b)+pad {
			buf = make([]byte, 2*(pad+len(b)+pad)+500)
			for j := range buf {
				buf[j] = byte(0xa0 + j%7)
			}
			x.argBufs[i] = buf
		}
		copy(buf[pad:], b)
		buf = buf[:pad+len(b)+pad]
		if !x.or.buffers {
			return &argBuf{buf: buf, n: len(b)}
		}
		return &argBuf{buf, len(b), append([]byte(nil), buf...)}
	}
	if !x.or.buffers {
		return &argBuf{buf: b, n: -1}
	}
	buf := make([]byte, pad+len(b)+pad)
	for i := range buf {
		buf[i] = byte(0xa0 + i%7)
	}
	copy(buf[pad:], b)
	return &argBuf{buf, len(b), append([]byte(nil), buf...)}
}

func (a *argBuf) slice() []byte {
	if a.n < 0 {
		return a.buf
	}
	return a.buf[24 : 24+a.n]
}

// after checks that the caller's bytes are untouched, then changes them.
func (x *Exec) after(a *argBuf, what string) {
	if a.want == nil {
		return
	}
	if !bytes.Equal(a.buf, a.want) {
		x.failf("buffer", "%s changed the caller's buffer", what)
		return
	}
	if x.t.Buf == "reuse" {
		return // until the next call
	}
	for i := range a.buf {
		a.buf[i] ^= 0x5a
	}
}

// result checks and keeps a slice the code under test returned.
func (x *Exec) result(b []byte, what string) {
	if !x.or.buffers || len(b) == 0 {
		return
	}
	if simdisk.InRegion(uintptr(unsafe.Pointer(&b[0]))) {
		x.failf("buffer", "%s returned a view of the file's memory instead of a copy", what)
		return
	}
	if cap(b) > len(b) {
		x.spare = append(x.spare, b)
	}
	if x.overwrite++; (x.overwrite+x.step%3)%3 == 0 {
		for j := range b {
			b[j] ^= 0x35 // the caller overwrites its result at once
		}
		x.probe("result_overwritten_at_once")
	}
	const max = 48
	e := saved{b, string(b), what}
	if len(x.keep) < max {
		x.keep = append(x.keep, e)
		return
	}
	i := x.keepAt % max
	x.keepAt++
	old := x.keep[i]
	for j := range old.b {
		old.b[j] ^= 0x77 // the caller overwrites its result
	}
	x.keep[i] = e
	x.probe("result_overwritten")
}

// useSpare writes behind the results just returned, as a caller appending to
// them does.
func (x *Exec) useSpare() {
	for _, b := range x.spare {
		t := b[len(b):cap(b)]
		if len(t) > 64 {
			t = t[:64]
		}
		for i := range t {
			t[i] ^= 0x3c
		}
		x.probe("result_appended_to")
	}
	x.spare = x.spare[:0]
}

func (x *Exec) checkKept() {
	x.useSpare()
	for i := range x.keep {
		k := &x.keep[i]
		if string(k.b) != k.want {
			x.failf("buffer", "a result of %s changed after it was returned", k.what)
			return
		}
	}
}

// --- point operations

func short(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q...(%d bytes)", b[:16], len(b))
}

func sshort(s string) string { return short([]byte(s)) }

func (x *Exec) cmpValue(what string, k, got []byte, asked, found bool, want string) {
	if !x.or.point {
		return
	}
	switch {
	case !asked || !found:
		if len(got) != 0 {
			x.failf("result", "%s(%s) returned the value %s, which it must not (asked=%v found=%v)", what, short(k), short(got), asked, found)
		}
	case string(got) != want:
		x.failf("result", "%s(%s) returned the value %s, want %s", what, short(k), short(got), sshort(want))
	}
}

func (x *Exec) cmpOK(what string, k []byte, got, want bool) {
	if x.or.point && got != want {
		x.failf("result", "%s(%s) reported %v, want %v", what, short(k), got, want)
	}
}

func (x *Exec) point(s *structure, op string, k, v []byte, r bool) {
	if x.fail != nil {
		return
	}
	ka, va := x.arg(k, 0), x.arg(v, 1)
	sk := string(k)
	old, had := s.m.m[sk]
	var got []byte
	var ok bool
	switch op {
	case "set":
		if !x.call("Set", func() { got = s.d.Set(ka.slice(), va.slice(), r) }) {
			return
		}
		x.cmpValue("Set", k, got, r, had, old)
		s.m.set(sk, string(v))
		s.wrote(sk, string(v))
	case "setx":
		if !x.call("SetIfExists", func() { got, ok = s.d.SetX(ka.slice(), va.slice(), r) }) {
			return
		}
		x.cmpOK("SetIfExists", k, ok, had)
		x.cmpValue("SetIfExists", k, got, r, had, old)
		if had {
			s.m.set(sk, string(v))
			s.wrote(sk, string(v))
		}
	case "setnx":
		if !x.call("SetIfNotExists", func() { got, ok = s.d.SetNX(ka.slice(), va.slice(), r) }) {
			return
		}
		x.cmpOK("SetIfNotExists", k, ok, !had)
		x.cmpValue("SetIfNotExists", k, got, r, had, old)
		if !had {
			s.m.set(sk, string(v))
			s.wrote(sk, string(v))
		}
	case "clear":
		if !x.call("Clear", func() { got, ok = s.d.Clear(ka.slice(), r) }) {
			return
		}
		x.cmpOK("Clear", k, ok, had)
		x.cmpValue("Clear", k, got, r, had, old)
		if had {
			s.m.del(sk)
			s.removed()
		}
	case "test":
		if !x.call("Test", func() { got, ok = s.d.Test(ka.slice(), r) }) {
			return
		}
		x.cmpOK("Test", k, ok, had)
		x.cmpValue("Test", k, got, r, had, old)
	default:
		panic("bad trace: op " + op)
	}
	x.after(ka, op)
	x.after(va, op)
	x.note(hashBytes(got), b2u(ok))
	x.result(got, op)
	x.checkState(s)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (s *structure) wrote(k, v string) {
	s.iters = nil
	for _, c := range s.cursors {
		c.modified = true
		if c.allowed[k] == nil {
			c.allowed[k] = map[string]bool{}
		}
		c.allowed[k][v] = true
	}
}

func (s *structure) removed() {
	s.iters = nil
	for _, c := range s.cursors {
		c.modified, c.removed = true, true
	}
}

// --- whole contents

// verify checks the contents by the means the check's property is about.
func (x *Exec) verify(s *structure, seed uint64) {
	if x.fail != nil || !x.ensure(s, "") {
		return
	}
	r := &rng{S: seed}
	if x.or.point || x.or.contents {
		p := x.or
		x.or.point = true
		keys := s.m.sorted()
		stride := 1
		if len(keys) > 4000 {
			stride = len(keys)/4000 + 1
		}
		for i := r.Intn(stride); i < len(keys) && x.fail == nil; i += stride {
			k := keys[i]
			var got []byte
			var ok bool
			if !x.call("Test", func() { got, ok = s.d.Test([]byte(k), true) }) {
				return
			}
			if !ok || string(got) != s.m.m[k] {
				x.failf("contents", "contents: key %s holds %s (found=%v), want %s", sshort(k), short(got), ok, sshort(s.m.m[k]))
				return
			}
			x.result(got, "Test")
		}
		for _, k := range s.m.grave {
			if _, ok := s.m.m[k]; ok || x.fail != nil {
				continue
			}
			var ok bool
			if !x.call("Test", func() { _, ok = s.d.Test([]byte(k), false) }) {
				return
			}
			if ok {
				x.failf("contents", "contents: removed key %s is found", sshort(k))
				return
			}
		}
		x.or = p
	}
	if x.fail == nil && s.d != nil {
		if ordered(s.def.Kind) {
			if _, isBase := s.d.(odBase); !isBase && (x.or.rng || x.or.contents) {
				x.rangeCheck(s, "-", "+", false, 0, "contents")
				x.rangeCheck(s, "-", "+", true, 0, "contents")
				x.edges(s, r)
			}
		} else if x.or.scan || x.or.contents {
			x.fullScan(s)
		}
	}
	x.checkStateNow(s)
}

// edges makes ranges that begin or end just outside the present keys, where
// the search has to know which leaf is the first and which the last.
func (x *Exec) edges(s *structure, r *rng) {
	ks := s.m.sorted()
	spec := func(k string) string { return "h:" + fmt.Sprintf("%x", k) }
	if len(ks) == 0 {
		x.rangeCheck(s, "h:61", "+", false, 0, "contents")
		x.rangeCheck(s, "-", "h:61", true, 0, "contents")
		return
	}
	last := ks[len(ks)-1]
	x.rangeCheck(s, spec(last+"\x00"), "+", r.Intn(2) == 0, 0, "contents")
	x.rangeCheck(s, spec(last+"\x00"), spec(last+"\x01"), r.Intn(2) == 0, 0, "contents")
	if ks[0] != "" {
		x.rangeCheck(s, "-", spec(ks[0][:len(ks[0])-1]), r.Intn(2) == 0, 0, "contents")
	}
	for i := 0; i < 6 && x.fail == nil; i++ {
		k := ks[r.Intn(len(ks))]
		x.rangeCheck(s, spec(k+"\x00"), "+", false, 3, "contents")
		x.rangeCheck(s, "-", spec(k+"\x00"), true, 3, "contents")
	}
	x.probe("edges")
}

func bound(spec string) []byte {
	switch spec {
	case "-":
		return plainkv.MinKey
	case "+":
		return plainkv.MaxKey
	}
	b := makeBytes(spec)
	if b == nil && spec != "" {
		b = []byte{}
	}
	return b
}

// expected returns the keys of a range by the reference.
func (m *model) expected(lo, hi string) []string {
	keys := m.sorted()
	if len(keys) == 0 {
		return nil
	}
	l, h := "", ""
	pick := func(s string) string {
		switch s {
		case "-":
			return keys[0]
		case "+":
			return keys[len(keys)-1]
		}
		return string(makeBytes(s))
	}
	l, h = pick(lo), pick(hi)
	if l > h {
		return nil
	}
	i := sort.SearchStrings(keys, l)
	j := sort.Search(len(keys), func(j int) bool { return keys[j] > h })
	if i >= j {
		return nil
	}
	return keys[i:j]
}

func (x *Exec) rangeCheck(s *structure, lo, hi string, desc bool, max int, class string) {
	if x.fail != nil {
		return
	}
	want := s.m.expected(lo, hi)
	n := len(want)
	name := "RangeAsc"
	if desc {
		name = "RangeDesc"
	}
	at := func(i int) string {
		if desc {
			return want[n-1-i]
		}
		return want[i]
	}
	lob, hib := bound(lo), bound(hi)
	var la, ha *argBuf
	if lo == "-" || lo == "+" {
		la = &argBuf{buf: lob, n: -1}
	} else {
		la = x.arg(lob, 0)
	}
	if hi == "-" || hi == "+" {
		ha = &argBuf{buf: hib, n: -1}
	} else {
		ha = x.arg(hib, 1)
	}
	desk := fmt.Sprintf("%s(%s, %s)", name, boundText(lo), boundText(hi))
	var it iter
	if !x.call(desk, func() { it = s.d.Range(la.slice(), ha.slice(), desc) }) {
		return
	}
	x.after(la, name)
	x.after(ha, name)
	i := 0
	for ; ; i++ {
		var k, v []byte
		var err error
		end := false
		if !x.call(desk, func() {
			if end = it.IsAtEnd(); end {
				return
			}
			k, v, err = it.ReadRecordAll()
		}) {
			return
		}
		if end {
			break
		}
		if err != nil {
			x.failf(class, "%s: record %d: error %v before the end", desk, i, err)
			return
		}
		if i >= n {
			x.failf(class, "%s yields more than the %d records in the range: %s after them", desk, n, short(k))
			return
		}
		if string(k) != at(i) {
			x.failf(class, "%s: record %d has key %s, want %s", desk, i, short(k), sshort(at(i)))
			return
		}
		if string(v) != s.m.m[at(i)] {
			x.failf(class, "%s: key %s has value %s, want %s", desk, short(k), short(v), sshort(s.m.m[at(i)]))
			return
		}
		x.result(k, name)
		x.result(v, name)
		// what the caller has done to these is not in another reading
		for again := 0; again < 2 && x.or.buffers && (i+x.step)%4 == 0; again++ {
			if !x.call(desk, func() {
				switch i % 3 {
				case 0:
					k, v, err = it.ReadRecordAll()
				case 1:
					if k, err = it.ReadKeyAll(); err == nil {
						v, err = it.ReadValueAll()
					}
				default:
					if v, err = it.ReadValueAll(); err == nil {
						k, err = it.ReadKeyAll()
					}
				}
			}) {
				return
			}
			if err != nil || string(k) != at(i) || string(v) != s.m.m[at(i)] {
				x.failf("buffer", "%s: record %d read again is %s=%s, %v, want %s=%s", desk, i, short(k), short(v), err, sshort(at(i)), sshort(s.m.m[at(i)]))
				return
			}
			x.probe("record_read_again")
			x.overwrite = 2 - x.step%3 // at once
			x.result(k, name)
			x.overwrite = 2 - x.step%3
			x.result(v, name)
		}
		if max > 0 && i+1 >= max {
			return
		}
		if !x.call(desk, func() { it = it.Advance() }) {
			return
		}
	}
	if i != n {
		x.failf(class, "%s ends after %d of %d records", desk, i, n)
		return
	}
	x.note(uint64(n))
}

// iterOpen begins a range iteration, iterStep goes on with it.
func (x *Exec) iterOpen(s *structure, st *Step) {
	h := &heldIter{want: append([]string(nil), s.m.expected(st.Lo, st.Hi)...), desc: st.Desc}
	if x.call("Range", func() { h.it = s.d.Range(bound(st.Lo), bound(st.Hi), st.Desc) }) {
		s.iters = append(s.iters, h)
		x.probe("iteration_held")
	}
}

func (x *Exec) iterStep(s *structure, h *heldIter, n int) {
	for ; n > 0 && x.fail == nil; n-- {
		var k, v []byte
		var kn, vn int
		var err1, err2, err3 error
		end := false
		if !x.call("iterator", func() {
			end = h.it.IsAtEnd()
			kn, err1 = h.it.GetKeySize()
			vn, err2 = h.it.GetValueSize()
			k, v, err3 = h.it.ReadRecordAll()
			h.it = h.it.Advance()
		}) {
			return
		}
		if h.at >= len(h.want) {
			if !end || err1 == nil || err2 == nil || err3 == nil {
				x.failf("iter", "an iteration over %d records is not at its end after them", len(h.want))
			}
			return
		}
		w := h.want[h.at]
		if h.desc {
			w = h.want[len(h.want)-1-h.at]
		}
		h.at++
		if end || err1 != nil || err2 != nil || err3 != nil || string(k) != w || string(v) != s.m.m[w] || kn != len(k) || vn != len(v) {
			x.failf("iter", "an iteration held while other structures changed gives %s=%s (sizes %d, %d; end: %v; errors: %v %v %v) as record %d of %d, want %s=%s",
				short(k), short(v), kn, vn, end, err1, err2, err3, h.at, len(h.want), sshort(w), sshort(s.m.m[w]))
			return
		}
		x.probe("held_iteration_step")
	}
}

func boundText(s string) string {
	switch s {
	case "-":
		return "MinKey"
	case "+":
		return "MaxKey"
	}
	return short(makeBytes(s))
}

func (x *Exec) fullScan(s *structure) {
	if x.fail != nil || s.d == nil {
		return
	}
	sc := s.d.Scan()
	seen := map[string]bool{}
	for {
		var k, v []byte
		var ok bool
		before := x.scanCopy(sc, len(seen))
		if !x.call("Scan", func() { k, v, ok = sc.next() }) {
			return
		}
		if !ok {
			break
		}
		w, in := s.m.m[string(k)]
		switch {
		case !in:
			x.failf("scan", "Scan returned key %s, which is not in the dictionary", short(k))
		case w != string(v):
			x.failf("scan", "Scan returned key %s with value %s, want %s", short(k), short(v), sshort(w))
		case seen[string(k)]:
			x.failf("scan", "Scan returned key %s twice though nothing changed", short(k))
		}
		if x.fail != nil {
			return
		}
		seen[string(k)] = true
		wk := string(k)
		x.result(k, "Scan")
		x.result(v, "Scan")
		x.scanAgain(before, wk, w)
	}
	if len(seen) != len(s.m.m) {
		for k := range s.m.m {
			if !seen[k] {
				_ = k
			}
		}
		x.failf("scan", "Scan returned %d of %d items", len(seen), len(s.m.m))
		return
	}
	x.note(uint64(len(seen)))
}

// scanCopy keeps a copy of a cursor now and then, where results are looked at
// as the caller's.
func (x *Exec) scanCopy(sc *scanner, n int) *scanner {
	if !x.or.buffers || (n*7+x.step)%5 != 0 {
		return nil
	}
	return sc.copy()
}

// scanAgain takes the step from the copy, after the caller has got, and maybe
// overwritten, the pair: it has to be the same pair.
func (x *Exec) scanAgain(sc *scanner, key, val string) {
	if sc == nil || x.fail != nil {
		return
	}
	var k, v []byte
	var ok bool
	if !x.call("Scan", func() { k, v, ok = sc.next() }) {
		return
	}
	if !ok || string(k) != key || string(v) != val {
		x.failf("buffer", "Scan from a copy of the cursor gives %s=%s (%v), after %s=%s from the cursor itself", short(k), short(v), ok, sshort(key), sshort(val))
		return
	}
	x.probe("scan_from_copied_cursor")
	x.result(k, "Scan")
	x.result(v, "Scan")
}

func (x *Exec) scanStep(s *structure, c *cursor, n int) {
	for i := 0; i < n && !c.done && x.fail == nil; i++ {
		var k, v []byte
		var ok bool
		before := x.scanCopy(c.scanner, len(c.got)+i)
		if !x.call("Scan", func() { k, v, ok = c.next() }) {
			return
		}
		if !ok {
			c.done = true
			if !c.removed {
				missing := 0
				first := ""
				for k := range c.must {
					if c.got[k] == 0 {
						missing++
						if first == "" || k < first {
							first = k
						}
					}
				}
				if missing > 0 {
					x.failf("scan", "the scan ended without returning %d of the %d keys present when it began (such as %s) though nothing was removed", missing, len(c.must), sshort(first))
					return
				}
			}
			if !c.modified {
				x.probe("scan_complete_unmodified")
			} else if !c.removed {
				x.probe("scan_complete_grown")
			} else {
				x.probe("scan_complete_shrunk")
			}
			// past the end it stays at the end
			if !x.call("Scan", func() { _, _, ok = c.next() }) {
				return
			}
			if ok && !c.modified {
				x.failf("scan", "the scan returned an item after it had reported the end")
			}
			return
		}
		sk := string(k)
		if !c.allowed[sk][string(v)] {
			x.failf("scan", "the scan returned the pair %s=%s, which was not in the dictionary at any time since it began", short(k), short(v))
			return
		}
		c.got[sk]++
		if c.got[sk] > 1 && !c.modified {
			x.failf("scan", "the scan returned key %s twice though nothing changed", short(k))
			return
		}
		x.note(hashBytes(k))
		wv := string(v)
		x.result(k, "Scan")
		x.result(v, "Scan")
		x.scanAgain(before, sk, wv)
	}
}

// --- iterators

func (x *Exec) iterWalk(s *structure, st *Step) {
	r := &rng{S: st.Seed}
	type one struct {
		it   iter
		want []string
		desc bool
		i    int
		desk string
	}
	var all []*one
	nIt := 1 + r.Intn(3)
	pick := func() string {
		switch r.Intn(6) {
		case 0:
			return "-"
		case 1:
			return "+"
		}
		ks := s.m.sorted()
		if len(ks) > 0 && r.Intn(4) > 0 {
			return "h:" + fmt.Sprintf("%x", ks[r.Intn(len(ks))])
		}
		return "h:" + fmt.Sprintf("%x", famBytes("r", r.Next(), r.Intn(6)))
	}
	open := func() bool {
		lo, hi := pick(), pick()
		if len(all) == 0 && r.Intn(3) > 0 {
			lo, hi = "-", "+"
		}
		o := &one{want: s.m.expected(lo, hi), desc: r.Intn(2) == 0}
		o.desk = fmt.Sprintf("iteration over [%s, %s] desc=%v", boundText(lo), boundText(hi), o.desc)
		if !x.call(o.desk, func() { o.it = s.d.Range(bound(lo), bound(hi), o.desc) }) {
			return false
		}
		all = append(all, o)
		return true
	}
	for i := 0; i < nIt; i++ {
		if !open() {
			return
		}
	}
	max := st.Max
	if max == 0 {
		max = 200
	}
	for n := 0; n < max && len(all) > 0 && x.fail == nil; n++ {
		switch e := r.Intn(30); {
		case e < 2 && len(all) < 6:
			// one more, also after others have ended
			if !open() {
				return
			}
		case e == 2:
			// other reads do not move them
			if ks := s.m.sorted(); len(ks) > 0 {
				k := []byte(ks[r.Intn(len(ks))])
				x.call("Test", func() { s.d.Test(k, true) })
			}
		}
		j := r.Intn(len(all))
		o := all[j]
		if o.i >= len(o.want) {
			x.iterEnd(o.it, o.desk, r)
			x.probe("iter_end")
			if r.Intn(4) == 0 {
				all = append(all[:j], all[j+1:]...)
			}
			continue
		}
		key := o.want[o.i]
		if o.desc {
			key = o.want[len(o.want)-1-o.i]
		}
		x.iterRead(o.it, o.desk, key, s.m.m[key], r)
		// advance by one or, now and then, several
		k := 1
		if r.Intn(8) == 0 {
			k = 1 + r.Intn(20)
		}
		if left := len(o.want) - o.i; left < 3000 && r.Intn(20) == 0 {
			k = left - r.Intn(3)
		}
		for ; k > 0 && o.i < len(o.want); k-- {
			var ret iter
			if !x.call(o.desk, func() { ret = o.it.Advance() }) {
				return
			}
			if ret == nil {
				x.failf("iter", "%s: Advance did not return the iterator", o.desk)
				return
			}
			if r.Intn(2) == 0 {
				o.it = ret
			}
			o.i++
		}
	}
}

func (x *Exec) iterEnd(it iter, desk string, r *rng) {
	for i := 0; i < 3 && x.fail == nil; i++ {
		buf := make([]byte, 8)
		copy(buf, "12345678")
		x.call(desk, func() {
			if !it.IsAtEnd() {
				x.failf("iter", "%s: not at its end after the last record", desk)
				return
			}
			if n, err := it.GetKeySize(); err == nil || n != 0 {
				x.failf("iter", "%s: GetKeySize at the end gives %d, %v", desk, n, err)
			}
			if n, err := it.GetValueSize(); err == nil || n != 0 {
				x.failf("iter", "%s: GetValueSize at the end gives %d, %v", desk, n, err)
			}
			if n, err := it.ReadKey(r.Intn(3), buf); err == nil || n != 0 {
				x.failf("iter", "%s: ReadKey at the end gives %d, %v", desk, n, err)
			}
			if n, err := it.ReadValue(r.Intn(3), buf); err == nil || n != 0 {
				x.failf("iter", "%s: ReadValue at the end gives %d, %v", desk, n, err)
			}
			if b, err := it.ReadKeyAll(); err == nil || len(b) != 0 {
				x.failf("iter", "%s: ReadKeyAll at the end gives %s, %v", desk, short(b), err)
			}
			if b, err := it.ReadValueAll(); err == nil || len(b) != 0 {
				x.failf("iter", "%s: ReadValueAll at the end gives %s, %v", desk, short(b), err)
			}
			if k, v, err := it.ReadRecordAll(); err == nil || len(k) != 0 || len(v) != 0 {
				x.failf("iter", "%s: ReadRecordAll at the end gives %s, %s, %v", desk, short(k), short(v), err)
			}
			if string(buf) != "12345678" {
				x.failf("iter", "%s: a read at the end wrote to the buffer", desk)
			}
		})
		if x.fail != nil {
			return
		}
		var ret iter
		if !x.call(desk, func() { ret = it.Advance() }) {
			return
		}
		if ret != nil && i == 1 {
			it = ret
		}
	}
}

func (x *Exec) iterRead(it iter, desk, key, val string, r *rng) {
	for rounds := 1 + r.Intn(4); rounds > 0 && x.fail == nil; rounds-- {
		what := r.Intn(7)
		want, isKey := val, false
		if r.Intn(2) == 0 {
			want, isKey = key, true
		}
		x.call(desk, func() {
			if it.IsAtEnd() {
				x.failf("iter", "%s: at its end before key %s", desk, sshort(key))
				return
			}
			switch what {
			case 0:
				n, err := 0, error(nil)
				if isKey {
					n, err = it.GetKeySize()
				} else {
					n, err = it.GetValueSize()
				}
				if err != nil || n != len(want) {
					x.failf("iter", "%s: key %s: size (of key: %v) is %d, %v, want %d", desk, sshort(key), isKey, n, err, len(want))
				}
			case 1:
				b, err := []byte(nil), error(nil)
				if isKey {
					b, err = it.ReadKeyAll()
				} else {
					b, err = it.ReadValueAll()
				}
				if err != nil || string(b) != want {
					x.failf("iter", "%s: key %s: ReadAll (of key: %v) gives %s, %v", desk, sshort(key), isKey, short(b), err)
				}
				x.result(b, "ReadAll")
			case 2:
				k, v, err := it.ReadRecordAll()
				if err != nil || string(k) != key || string(v) != val {
					x.failf("iter", "%s: key %s: ReadRecordAll gives %s=%s, %v", desk, sshort(key), short(k), short(v), err)
				}
				x.result(k, "ReadRecordAll")
				x.result(v, "ReadRecordAll")
			default:
				off, l := x.pickOffset(r, len(want)), x.pickLen(r, len(want))
				buf := make([]byte, l+8)
				for i := range buf {
					buf[i] = 0xcd
				}
				n, err := 0, error(nil)
				// a full slice expression would hide nothing from the callee; leave room behind
				if isKey {
					n, err = it.ReadKey(off, buf[:l])
				} else {
					n, err = it.ReadValue(off, buf[:l])
				}
				exp := 0
				if off < len(want) {
					exp = len(want) - off
					if exp > l {
						exp = l
					}
				}
				if err != nil || n != exp {
					x.failf("iter", "%s: key %s: reading (key: %v, size %d) %d bytes at offset %d returns %d, %v, want %d", desk, sshort(key), isKey, len(want), l, off, n, err, exp)
					return
				}
				if n > 0 && string(buf[:n]) != want[off:off+n] {
					x.failf("iter", "%s: key %s: reading (key: %v, size %d) %d bytes at offset %d gives other bytes than the full record", desk, sshort(key), isKey, len(want), l, off)
					return
				}
				for i := n; i < len(buf); i++ {
					if buf[i] != 0xcd {
						x.failf("iter", "%s: key %s: reading (key: %v, size %d) %d bytes at offset %d touched the buffer beyond the %d bytes it reported", desk, sshort(key), isKey, len(want), l, off, n)
						return
					}
				}
			}
		})
	}
}

func (x *Exec) pickOffset(r *rng, size int) int {
	marks := []int{0, 1, 120, 121, 122, 128, 129, 130, 248, 249, 250, 256, 257, 258, size - 1, size, size + 1, size / 2, size + 300}
	switch r.Intn(8) {
	case 0:
		return r.Intn(size + 1)
	case 1:
		x.probe("iter_huge_offset")
		return []int{1 << 31, 1<<31 - 1, 1 << 32, 1 << 62, 1<<63 - 1, 1<<63 - 2, 1<<63 - 1 - 249, 1<<63 - 1 - 121}[r.Intn(8)]
	}
	o := marks[r.Intn(len(marks))]
	if o < 0 {
		o = 0
	}
	return o
}

func (x *Exec) pickLen(r *rng, size int) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return size
	case 3:
		return size + 5
	case 4:
		return []int{120, 121, 122, 248, 249, 250, 257, 129}[r.Intn(8)]
	}
	if size > 2000 && r.Intn(3) > 0 {
		return r.Intn(400)
	}
	return r.Intn(size + 2)
}

// own makes s the owner of what its file's storage hands out.
func (x *Exec) own(s *structure) {
	if s.file != nil {
		if raw(s.def.Kind) {
			s.file.Owner = s.idx
		} else {
			s.file.Owner = 0
		}
	}
}

func (s *structure) held() *simdisk.Own {
	if raw(s.def.Kind) {
		return s.file.Held(s.idx)
	}
	return s.file.Held(0)
}

// descriptor notes the space a structure is about to be loaded from. Keeping
// it until the structure is stored again is as good as releasing it at once.
func (s *structure) descriptor(space int64) {
	s.desc, s.descSize = space, 0
	if space >= 0 && s.file != nil && s.file.Live != nil {
		s.descSize = s.file.Live[space].Asked
	}
}

// descriptorKept reports whether that space is still held, and its size.
func (s *structure) descriptorKept() (int, bool) {
	if s.descSize > 0 && s.desc >= 0 && s.file.Live != nil {
		if a, ok := s.file.Live[s.desc]; ok && a.Asked == s.descSize {
			return a.Asked, true
		}
	}
	return 0, false
}

// baseline remembers what a new structure holds.
func (x *Exec) baseline(s *structure) {
	s.fresh, s.dirSize, s.baseCount = map[int]int{}, 0, s.held().Count
	for n, c := range s.held().BySize {
		s.fresh[n] = c
		if n > s.dirSize {
			s.dirSize = n
		}
	}
}
