package main

import (
	"fmt"
	"sort"

	"github.com/roy2220/fsm"
	"github.com/roy2220/fsm/simdisk"
	"github.com/roy2220/fsm/simhook"
)

// shot is what a killed process leaves: the file at that instant.
type shot struct {
	absent  bool
	content []byte
	what    string
	step    int64
	muts    int64 // allocations and releases since the header was written
	writing bool  // the storage has begun to write header and bitmap
}

// killer takes shots at chosen instants of one step of the trace.
type killer struct {
	x     *Exec
	s     *structure
	op    string
	begin int64
	offs  []int64
	next  int
	ioAt  map[int64]bool
	ioN   int64
	mutAt map[int64][]int64 // instants after the n-th allocation or release
	mutN  int64
	shots []shot
	seen  map[uint64]bool
	wrote bool
}

func (k *killer) take(what string) {
	ino := k.x.w.Files[k.s.def.File]
	sh := shot{what: what, step: simhook.Steps() - k.begin, writing: k.wrote}
	if ino == nil {
		sh.absent = true
	} else {
		sh.content, sh.muts = ino.Content(), ino.Muts
	}
	h := hashBytes(sh.content)
	if k.seen[h] {
		k.x.res.Faults["kill:repeated-state"]++
		return
	}
	k.seen[h] = true
	k.shots = append(k.shots, sh)
}

// arm sets the hook for the next instant.
func (k *killer) arm(int64) {
	for k.next < len(k.offs) && k.begin+k.offs[k.next] <= simhook.Steps() {
		k.next++ // passed between calls
	}
	if k.next >= len(k.offs) {
		simhook.Arm(opSteps+k.x.dataSteps(), func() { panic(hang{}) })
		return
	}
	at := k.offs[k.next]
	simhook.Arm(k.begin+at-simhook.Steps(), func() {
		k.next++
		k.take(fmt.Sprintf("killed at step %d of %s", at, k.op))
		k.arm(0)
	})
}

// withKills executes a step and judges what a kill at the chosen instants
// would leave.
func (x *Exec) withKills(st *Step, s *structure) {
	k := &killer{x: x, s: s, op: st.Op, begin: simhook.Steps(), ioAt: map[int64]bool{}, seen: map[uint64]bool{}}
	k.offs = append(k.offs, st.Kill...)
	sort.Slice(k.offs, func(i, j int) bool { return k.offs[i] < k.offs[j] })
	for _, n := range st.KillIO {
		k.ioAt[n] = true
	}
	before := s.closed
	was := s.m.clone()
	k.mutAt = map[int64][]int64{}
	for _, m := range st.KillMut {
		k.mutAt[m[0]] = append(k.mutAt[m[0]], m[1])
	}
	x.w.OnMut = func(ino *simdisk.Inode) {
		n := k.mutN
		k.mutN++
		if len(k.mutAt[n]) == 0 {
			return
		}
		at := simhook.Steps() - k.begin
		for _, o := range k.mutAt[n] {
			k.offs = append(k.offs, at+o)
		}
		sort.Slice(k.offs[k.next:], func(i, j int) bool { return k.offs[k.next+i] < k.offs[k.next+j] })
		k.arm(0)
	}
	x.killed = k
	x.w.OnIO = func(kind string, b bool) {
		n := k.ioN
		k.ioN++
		if k.ioAt[n] {
			w := "after"
			if b {
				w = "before"
			}
			k.take(fmt.Sprintf("killed %s system call %q (boundary %d) of %s", w, kind, n, k.op))
		}
	}
	x.w.OnWrite = func(ino *simdisk.Inode, b []byte, off int64) {
		n := k.ioN
		k.ioN++
		k.wrote = true
		if !k.ioAt[n] || len(b) == 0 {
			return
		}
		// a write of which only a part was done
		cut := int(mix(uint64(n), uint64(len(b))) % uint64(len(b)))
		c := ino.Content()
		if need := int(off) + cut; need > len(c) {
			c = append(c, make([]byte, need-len(c))...)
		}
		copy(c[off:], b[:cut])
		h := hashBytes(c)
		if !k.seen[h] {
			k.seen[h] = true
			k.shots = append(k.shots, shot{content: c, writing: true, muts: ino.Muts, what: fmt.Sprintf("killed inside a write of %d bytes at %d of %s", len(b), off, k.op), step: simhook.Steps() - k.begin})
		}
	}
	session := s.session
	x.apply(st, s)
	x.killed, x.w.OnIO, x.w.OnWrite, x.w.OnMut = nil, nil, nil, nil
	simhook.Disarm()
	if x.fail != nil {
		return
	}
	mem := simhook.Remember()
	defer mem.Restore()
	for i := range k.shots {
		simhook.NewProcess()
		x.res.Faults["kill:"+st.Op]++
		x.judge(s, &k.shots[i], before, was, s.closed, session)
		if x.fail != nil {
			return
		}
	}
}

// pairOf identifies what a file says about its allocation.
func pairOf(h fsm.Header) uint64 {
	return mix(hashBytes(h.Raw), hashBytes(h.Bitmap))
}

// torn reports whether the process was killed when Close had begun to write,
// and left a header which does not belong to the rest: the storage writes the
// allocation bitmap after the header.
func (s *structure) torn(sh *shot) bool {
	h, ok := fsm.ParseHeader(sh.content)
	return ok && sh.writing && h.Primary >= 0 && h.Bitmap != nil && !s.pairs[pairOf(h)]
}

// judge opens what a killed process left.
func (x *Exec) judge(s *structure, sh *shot, before, was, after *model, session int) {
	y := newExec(&Trace{Structs: []StructDef{s.def}}, oracles{contents: true})
	defer func() {
		y.w.Close()
		simdisk.Cur = x.w
		for p, n := range y.res.Probes {
			x.res.Probes[p] += n
		}
		x.res.Calls += y.res.Calls
	}()
	y.step = x.step
	if !sh.absent {
		y.w.Put(s.def.File, sh.content)
	}
	t := y.st[0]
	var d dut
	var err error
	// a bitmap full of other data describes up to one free block per bit
	y.patience = 30
	fl := y.guard(func() { d, err = openDict(s.def.Kind, "", s.def.File, sh.absent || sh.step&1 == 0) })
	y.patience = 0
	if fl != nil && fl.Class != "hang" {
		x.probe("kill_open_panics")
		return
	}
	if fl != nil {
		x.failf("kill", "%s (session %d): opening the file does not end", sh.what, session)
		return
	}
	if err != nil {
		x.probe("kill_open_fails")
		return
	}
	x.probe("kill_open_succeeds")
	if d == nil {
		x.failf("kill", "%s: open returned neither a dictionary nor an error", sh.what)
		return
	}
	t.d, t.file = d, y.w.Files[s.def.File]
	got, fl := y.readAll(t)
	report := func(text string) {
		x.failf("kill", "%s (session %d; %d records at the last Close): %s", sh.what, session, len(before.m), text)
	}
	if fl != nil && (fl.Class == "panic" || fl.Class == "fault") {
		x.probe("kill_read_panics")
		return
	}
	if fl != nil {
		report("the file opens, then reading it fails: " + fl.Msg)
		return
	}
	switch {
	case same(got, before.m):
		t.m = before.clone()
		x.probe("kill_state_old")
	case same(got, after.m):
		t.m = after.clone()
		x.probe("kill_state_new")
	default:
		report(fmt.Sprintf("the file opens with %d records that are not those of the last completed Close", len(got)))
		return
	}
	y.verify(t, 1)
	// it must work normally
	for i := 0; i < 30 && y.fail == nil; i++ {
		y.own(t)
		y.or.point = true
		y.point(t, "set", famBytes("s", uint64(i*i), 12), famBytes("v", uint64(i), 1+i*40), true)
	}
	ks := t.m.sorted()
	for i := 0; i < len(ks) && i < 40 && y.fail == nil; i++ {
		y.point(t, "clear", []byte(ks[(i*7)%len(ks)]), nil, true)
	}
	for i := 0; i < 2 && y.fail == nil; i++ {
		if y.close(t) && y.ensure(t, "") {
			y.verify(t, 1)
		}
	}
	if y.fail != nil {
		if s.torn(sh) && x.finding("C16-torn-allocation") {
			return
		}
		report("the file opens, but does not work: " + y.fail.Msg)
	}
}

func same(got, want map[string]string) bool {
	if len(got) != len(want) {
		return false
	}
	for k, v := range got {
		if w, ok := want[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// readAll reads all records of a dictionary.
func (x *Exec) readAll(s *structure) (map[string]string, *Failure) {
	m := map[string]string{}
	bad := ""
	n := 0
	fl := x.guard(func() {
		if ordered(s.def.Kind) {
			for it := s.d.Range(bound("-"), bound("+"), false); !it.IsAtEnd(); it = it.Advance() {
				k, v, err := it.ReadRecordAll()
				if err != nil {
					bad = err.Error()
					return
				}
				m[string(k)] = string(v)
				if n++; n > len(m) {
					bad = "a key comes twice"
					return
				}
			}
			return
		}
		next := s.d.Scan().next
		for {
			k, v, ok := next()
			if !ok {
				return
			}
			m[string(k)] = string(v)
			if n++; n > len(m) {
				bad = "a key comes twice"
				return
			}
		}
	})
	if fl == nil && bad != "" {
		fl = &Failure{Class: "contents", Msg: bad}
	}
	return m, fl
}

// finding reports whether a failure is a listed known finding.
func (x *Exec) finding(id string) bool {
	if knownFindings[x.t.Property+"/"+id] {
		x.known[id] = true
		x.probe("known:" + id)
		return true
	}
	return false
}

// knownFindings is loaded from the committed list.
var knownFindings = map[string]bool{}
