package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/roy2220/fsm"
	"github.com/roy2220/fsm/simdisk"
	"github.com/roy2220/fsm/simhook"
	base "verif/sim/base"
)

func (x *Exec) at(st *Step) *structure {
	if st.S < 0 || st.S >= len(x.st) {
		panic("bad trace: no such structure")
	}
	return x.st[st.S]
}

// doStep executes one event of the trace.
func (x *Exec) doStep(st *Step) {
	x.setFS(st.FS)
	s := x.at(st)
	if len(st.Kill)+len(st.KillIO)+len(st.KillMut) > 0 {
		x.withKills(st, s)
		return
	}
	x.apply(st, s)
}

func (x *Exec) apply(st *Step, s *structure) {
	switch st.Op {
	case "open":
		if s.d == nil {
			x.ensure(s, st.Impl)
		}
		return
	case "close":
		x.close(s)
		return
	case "reopen":
		x.reopen(s, st.Impl)
		return
	case "openio":
		x.openIO(s, st)
		return
	case "closeio":
		x.closeIO(s, st)
		return
	case "opio":
		x.opIO(s, st)
		return
	case "missing", "foreign", "readonly":
		x.openWrong(s, st)
		return
	case "otherproc":
		x.otherProc(s)
		return
	case "walk":
		x.walk(s)
		return
	case "par":
		x.par(st)
		return
	}
	if !x.ensure(s, st.Impl) {
		return
	}
	x.own(s)
	switch st.Op {
	case "set", "setx", "setnx", "clear", "test":
		x.point(s, st.Op, nonNil(makeBytes(st.K), st.Seed), nonNil(makeBytes(st.V), st.Seed), st.R)
	case "range":
		x.rangeCheck(s, st.Lo, st.Hi, st.Desc, st.Max, "range")
	case "ranges":
		x.ranges(s, st)
	case "verify":
		x.verify(s, st.Seed)
	case "scanopen":
		c := &cursor{scanner: s.d.Scan(), allowed: map[string]map[string]bool{}, must: map[string]bool{}, got: map[string]int{}}
		for k, v := range s.m.m {
			c.allowed[k] = map[string]bool{v: true}
			c.must[k] = true
		}
		s.cursors = append(s.cursors, c)
		x.probe("scan_opened")
	case "scanstep":
		if len(s.cursors) == 0 {
			return
		}
		n := st.Cnt
		if n == 0 {
			n = 1 << 30
		}
		x.scanStep(s, s.cursors[int(st.N0)%len(s.cursors)], n)
	case "itopen":
		x.iterOpen(s, st)
	case "itstep":
		if len(s.iters) > 0 {
			x.iterStep(s, s.iters[int(st.N0)%len(s.iters)], st.Cnt)
		}
	case "scan":
		x.fullScan(s)
	case "storeload":
		if raw(s.def.Kind) && x.storeRaw(s) {
			x.probe("store_load")
			x.ensure(s, "")
		}
	case "iters":
		x.iterWalk(s, st)
	case "fill":
		x.fill(s, st)
	case "sweep":
		x.sweep(s, st)
	case "pry":
		x.pry(s, st)
	case "churn":
		x.churn(s, st)
	case "drain":
		x.drain(s, st)
	case "cost":
		x.cost(s, st)
	case "fprint":
		x.fprint(s, st)
	case "destroy":
		x.destroy(s)
	default:
		panic("bad trace: op " + st.Op)
	}
}

func nonNil(b []byte, seed uint64) []byte {
	if len(b) == 0 {
		if seed&1 == 1 {
			return nil
		}
		return []byte{}
	}
	return b
}

// --- structure state

func shapeKey(kind string, st dstats) uint64 {
	h := uint64(len(kind))
	for _, v := range []int{st.Height, st.Leafs, st.NonLeafs, st.Dirs, st.Slots} {
		h = mix(h, uint64(v))
	}
	return h
}

// checkState checks what must hold after every operation.
func (x *Exec) checkState(s *structure) {
	if !x.t.Quiet {
		x.checkStateNow(s)
	}
}

func (x *Exec) checkStateNow(s *structure) {
	if x.fail != nil || s.d == nil {
		return
	}
	st := s.d.Stats()
	s.lastSt, s.hasLast = st, true
	if len(x.shapes) < 400 {
		x.shapes[shapeKey(s.def.Kind, st)] = true
	}
	if x.or.stats {
		x.checkStats(s, st)
	}
	if x.or.balance && ordered(s.def.Kind) {
		x.checkBalance(s, st)
	}
	if x.or.table && !ordered(s.def.Kind) {
		x.checkTable(s, st)
	}
	if x.or.space {
		x.checkSpace(s)
	}
}

func (x *Exec) checkStats(s *structure, st dstats) {
	switch {
	case st.Records != len(s.m.m):
		x.failf("stats", "%d records reported, %d present", st.Records, len(s.m.m))
	case st.Payload != s.m.payload:
		x.failf("stats", "payload size %d reported, the %d records have %d", st.Payload, len(s.m.m), s.m.payload)
	}
	if x.fail != nil || s.file == nil || s.file.Live == nil {
		return
	}
	if s.impl != "base" && s.file.Handles == 1 && !x.inTask {
		s.file.Reported = nil
		got := s.d.FSM()
		want := s.file.Reported
		if fs, ok := s.file.Storage.(*fsm.FileStorage); ok && want == nil {
			want = fs.Stats()
		}
		if want != nil && want != got {
			x.failf("stats", "storage statistics %+v reported, the storage has %+v", got, want)
			return
		}
	}
	if ordered(s.def.Kind) {
		if n := s.held().Aligned; n != st.Leafs+st.NonLeafs {
			x.failf("stats", "%d leafs and %d non-leafs reported, %d nodes are held in the file", st.Leafs, st.NonLeafs, n)
		}
		if (st.NonLeafs == 0) != (st.Height == 1) || st.Height < 1 {
			x.failf("stats", "height %d reported with %d non-leafs", st.Height, st.NonLeafs)
		}
	} else if !x.noDirs() && s.dirSize > 0 {
		if n := s.held().BySize[s.dirSize]; n != st.Dirs {
			x.failf("stats", "%d slot directories reported, %d are held in the file", st.Dirs, n)
		}
	}
}

// noDirs tells whether item data might be as large as a slot directory.
func (x *Exec) noDirs() bool {
	if !x.dirsKnown {
		x.dirsKnown = true
		for i := range x.t.Steps {
			st := &x.t.Steps[i]
			if st.Fam != "" && st.Fam != "r" && (st.Op == "fill" || st.Op == "churn") || st.K != "" && st.K[0] != 'r' && st.Op != "sweep" {
				x.patterned = true
			}
			if st.VLen > 2000 || st.Len > 2000 || st.Fam == "l" || st.Fam == "c" || big(st.K) || big(st.V) {
				x.dirsOff = true
			}
		}
	}
	return x.dirsOff
}

func big(spec string) bool {
	if spec == "" || spec[0] == 'h' {
		return len(spec) > 4000
	}
	if spec[0] == 'l' || spec[0] == 'c' {
		return true
	}
	n, _ := strconv.Atoi(spec[strings.LastIndexByte(spec, ':')+1:])
	return n > 2000
}

func (x *Exec) checkBalance(s *structure, st dstats) {
	n := len(s.m.m)
	if n == 0 {
		if st.Leafs != 1 || st.NonLeafs != 0 || st.Height != 1 {
			x.failf("balance", "an emptied tree has %d leafs, %d non-leafs, height %d", st.Leafs, st.NonLeafs, st.Height)
		}
		return
	}
	if st.Leafs > 1 {
		bytes := float64(s.m.node + 16*n)
		x.maximum("leaf_bytes_over_records", float64(st.Leafs)*8192/bytes)
		if float64(st.Leafs)*8192 > maxLeafFactor*bytes {
			x.failf("balance", "%d leafs (%d bytes) for %d records that take %d bytes in nodes", st.Leafs, st.Leafs*8192, n, s.m.node)
			return
		}
	}
	if st.NonLeafs > 0 {
		// n inner nodes below a root with height h
		x.maximum("nonleafs_over_leafs", float64(st.NonLeafs-st.Height+1)/float64(st.Leafs))
		if float64(st.NonLeafs-st.Height+1) > float64(st.Leafs)/minFanOut {
			x.failf("balance", "%d non-leafs over %d leafs", st.NonLeafs, st.Leafs)
			return
		}
		// every level but the root's has at least two nodes and minFanOut
		// times fewer than the level below
		most, h := st.Leafs, 1
		for most > 1 {
			most = int(float64(most)/minFanOut + 0.5)
			if most < 1 {
				most = 1
			}
			h++
		}
		if st.Height > h+1 {
			x.failf("balance", "height %d for %d leafs", st.Height, st.Leafs)
		}
		x.maximum("height", float64(st.Height))
	}
}

const (
	maxLeafFactor = 3.2
	minFanOut     = 8.0
)

func (x *Exec) checkTable(s *structure, st dstats) {
	n := len(s.m.m)
	if st.Slots > 1 {
		f := float64(n) / float64(st.Slots)
		x.maximum("slots_per_item", 1/f)
		if f < 0.5 {
			x.failf("table", "%d slots for %d items", st.Slots, n)
			return
		}
	}
	if st.Slots < 1 {
		x.failf("table", "%d slots", st.Slots)
		return
	}
	if n == 0 && (st.Slots != 1 || st.Dirs != 1) {
		x.failf("table", "%d slots in %d slot directories without any item, a new table has one of each", st.Slots, st.Dirs)
		return
	}
	x.maximum("items_per_slot", float64(n)/float64(st.Slots))
	if n > 2*st.Slots {
		x.failf("table", "%d items in %d slots", n, st.Slots)
		return
	}
	if s.file == nil || s.file.Live == nil || s.dirSize == 0 {
		return
	}
	// directories: room for the slots in use, and not much more
	if st.Dirs < 1 || st.Dirs*s.dirSize/8 < st.Slots {
		x.failf("table", "%d slot directories for %d slots", st.Dirs, st.Slots)
		return
	}
	if st.Dirs > 2+st.Slots*2/(s.dirSize/8) {
		x.failf("table", "%d slot directories for only %d slots", st.Dirs, st.Slots)
		return
	}
	// operations touch a bounded number of items: random keys spread over
	// the slots, so a fair part of the slots is in use
	if !x.noDirs() && !x.patterned && n >= 64 {
		used := s.held().Count - s.baseCount - (st.Dirs - 1)
		if _, ok := s.descriptorKept(); ok {
			used--
		}
		x.maximum("items_per_used_slot", float64(n)/float64(used))
		if used > 0 && float64(n)/float64(used) > 4 {
			x.failf("table", "%d items are crowded into %d slots of %d", n, used, st.Slots)
		}
	}
}

func (x *Exec) checkSpace(s *structure) {
	if s.file == nil || s.file.Live == nil {
		return
	}
	n := len(s.m.m)
	h := s.held().Bytes
	base := 0
	for sz, c := range s.fresh {
		base += sz * c
	}
	limit := float64(base) + 8192
	content := float64(s.m.payload + 40*n)
	if ordered(s.def.Kind) {
		limit += spaceTree * content
	} else {
		limit += spaceMap*content + float64(s.dirSize)*2
	}
	kind := "map"
	if ordered(s.def.Kind) {
		kind = "tree"
	}
	if content > 0 {
		x.maximum("space_over_contents_"+kind, (float64(h)-limit)/content+spaceMap)
	}
	if float64(h) > limit {
		x.failf("space", "%d bytes are held in the file (a new one holds %d) for %d records of %d bytes", h, base, n, s.m.payload)
	}
}

const (
	spaceTree = 4.0
	spaceMap  = 3.0
)

// --- bulk operations

func order(n int, how string, seed uint64) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	switch how {
	case "desc":
		for i := range p {
			p[i] = n - 1 - i
		}
	case "rand":
		r := rng{S: seed}
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	case "ends":
		for i := range p {
			if i%2 == 0 {
				p[i] = i / 2
			} else {
				p[i] = n - 1 - i/2
			}
		}
	case "mid":
		for i := range p {
			if i%2 == 0 {
				p[i] = n/2 + i/2
			} else {
				p[i] = n/2 - 1 - i/2
			}
		}
		for i := range p {
			if p[i] < 0 || p[i] >= n {
				p[i] = i
			}
		}
	}
	return p
}

// valueFor makes the value of a bulk step: every write has its own.
func valueFor(seed uint64, i, vlen int) []byte {
	if vlen < 0 { // lengths around the limit
		r := rng{S: mix(seed, uint64(i))}
		vlen = r.Intn(-vlen)
	}
	n := mix(seed, uint64(i))
	if n%24 == 0 { // values of one byte only: zeros, ones, ...
		return famBytes("y", n>>8, vlen)
	}
	if n%24 < 4 { // values that differ in one place
		return famBytes([]string{"", "z", "s", "o"}[n%24], n>>8%1000, vlen)
	}
	return famBytes("v", n, vlen)
}

func (x *Exec) bulkSet(s *structure, k, v []byte) bool {
	if dumpOps {
		fmt.Printf("DUMP %x %x\n", k, v)
	}
	if x.or.buffers || x.or.point {
		x.point(s, "set", k, v, x.or.point && s.m.m[string(k)] != "")
		return x.fail == nil
	}
	if !x.call("Set", func() { s.d.Set(k, v, false) }) {
		return false
	}
	sk := string(k)
	s.m.set(sk, string(v))
	s.wrote(sk, string(v))
	x.checkState(s)
	return x.fail == nil
}

func (x *Exec) bulkClear(s *structure, k []byte) bool {
	if x.or.buffers || x.or.point {
		x.point(s, "clear", k, nil, x.or.point)
		return x.fail == nil
	}
	if !x.call("Clear", func() { s.d.Clear(k, false) }) {
		return false
	}
	if _, had := s.m.del(string(k)); had {
		s.removed()
	}
	x.checkState(s)
	return x.fail == nil
}

func (x *Exec) fill(s *structure, st *Step) {
	fam := st.Fam
	for _, i := range order(st.Cnt, st.Order, st.Seed) {
		l := st.Len
		if l < 0 {
			r := rng{S: mix(st.Seed, uint64(i)+7)}
			l = 1 + r.Intn(-l)
		}
		k := famBytes(fam, st.N0+uint64(i), l)
		if !x.bulkSet(s, k, valueFor(st.Seed, i, st.VLen)) {
			return
		}
	}
}

func oneOf(lens []int, h uint64) int {
	if len(lens) == 0 {
		return 8
	}
	c := lens[int(h%uint64(len(lens)))]
	if c < 0 {
		return int((h >> 16) % uint64(-c))
	}
	return c
}

// churn adds, replaces and removes keys of a universe of Mod keys at random,
// adding in Rem of 100 cases.
func (x *Exec) churn(s *structure, st *Step) {
	r := rng{S: mix(st.Seed, 99)}
	key := func(i uint64) []byte {
		h := mix(st.N0, i)
		return famBytes(st.Fam, h>>3, oneOf(st.Lens, h)+2)
	}
	n := st.Mod
	if n < 1 {
		n = 1
	}
	for i := 0; i < st.Cnt && x.fail == nil; i++ {
		k := key(uint64(r.Intn(n)))
		if r.Intn(100) < st.Rem {
			v := valueFor(r.Next(), i, oneOf(st.VLens, r.Next()))
			switch r.Intn(12) {
			case 0:
				x.point(s, "setnx", k, v, true)
			case 1:
				x.point(s, "setx", k, v, true)
			default:
				x.bulkSet(s, k, v)
			}
			continue
		}
		for t := 0; t < 40; t++ {
			if _, ok := s.m.m[string(k)]; ok {
				break
			}
			k = key(uint64(r.Intn(n)))
		}
		x.bulkClear(s, k)
	}
}

// sweep updates or removes a part of the present keys.
func (x *Exec) sweep(s *structure, st *Step) {
	keys := append([]string(nil), s.m.sorted()...)
	mod := st.Mod
	if mod < 1 {
		mod = 1
	}
	for _, i := range order(len(keys), st.Order, st.Seed) {
		k := keys[i]
		switch {
		case st.Fam == "block": // a run of neighbours
			if p := i * mod / len(keys); p != st.Rem%mod {
				continue
			}
		case st.Fam == "keepblock":
			if p := i * mod / len(keys); p == st.Rem%mod {
				continue
			}
		default:
			if int(mix(sum64([]byte(k)), st.N0)%uint64(mod)) >= st.Rem {
				continue
			}
		}
		ok := false
		if st.K == "set" {
			ok = x.bulkSet(s, []byte(k), valueFor(st.Seed, i, st.VLen))
		} else {
			ok = x.bulkClear(s, []byte(k))
		}
		if !ok {
			return
		}
	}
}

// drain removes everything; the space held must be that of a new structure.
func (x *Exec) drain(s *structure, st *Step) {
	keys := append([]string(nil), s.m.sorted()...)
	for _, i := range order(len(keys), st.Order, st.Seed) {
		if !x.bulkClear(s, []byte(keys[i])) {
			return
		}
	}
	x.probe("drained")
	if x.or.space && s.fresh != nil && s.file.Live != nil {
		base := 0
		for sz, c := range s.fresh {
			base += sz * c
		}
		n, _ := s.descriptorKept()
		base += n
		if h := s.held(); h.Bytes != base {
			x.failf("space", "after removing every key %d bytes (%s) are held in the file, a new one holds %d", h.Bytes, bySize(h.BySize), base)
		}
	}
	x.verify(s, st.Seed)
}

func bySize(m map[int]int) string {
	var n []int
	for k := range m {
		n = append(n, k)
	}
	sort.Ints(n)
	var b []string
	for _, k := range n {
		b = append(b, fmt.Sprintf("%dx%d", m[k], k))
	}
	return strings.Join(b, "+")
}

func (x *Exec) reopen(s *structure, impl string) {
	if s.d == nil && !x.ensure(s, "") {
		return
	}
	x.own(s)
	var before dstats
	if !x.t.Quiet {
		before = s.d.Stats()
	}
	if !x.close(s) || !x.ensure(s, impl) {
		return
	}
	x.probe("reopen")
	if x.t.Quiet {
		// sometimes nothing was asked before and now
		if x.or.reopen && x.t.Steps[x.step].Fresh {
			if st := s.d.Stats(); st.Records != len(s.m.m) || st.Payload != s.m.payload {
				x.failf("reopen", "%d records of %d bytes reported after reopening, want %d of %d", st.Records, st.Payload, len(s.m.m), s.m.payload)
			}
		}
		return
	}
	if after := s.d.Stats(); x.or.reopen && after != before {
		x.failf("reopen", "statistics %v before closing, %v after reopening", before, after)
		return
	}
	x.checkState(s)
}

// ranges makes a batch of range queries around present and absent keys.
func (x *Exec) ranges(s *structure, st *Step) {
	r := &rng{S: st.Seed}
	pick := func() string {
		ks := s.m.sorted()
		switch k := r.Intn(10); {
		case k == 0:
			return "-"
		case k == 1:
			return "+"
		case k == 2 && len(s.m.grave) > 0:
			return "h:" + fmt.Sprintf("%x", s.m.grave[r.Intn(len(s.m.grave))])
		case k == 3:
			return "h:" + fmt.Sprintf("%x", famBytes("r", r.Next(), r.Intn(5)))
		case k == 4:
			return "m:" + strconv.Itoa(r.Intn(8)) + ":7"
		case len(ks) == 0:
			return "h:61"
		default:
			b := []byte(ks[r.Intn(len(ks))])
			switch r.Intn(6) {
			case 0: // just after
				b = append(b, 0)
			case 1: // just before, or near
				if len(b) > 0 {
					if b[len(b)-1] > 0 {
						b[len(b)-1]--
					} else {
						b = b[:len(b)-1]
					}
				}
			case 2: // a prefix
				if len(b) > 0 {
					b = b[:r.Intn(len(b))]
				}
			}
			if len(b) == 0 && r.Intn(2) == 0 {
				return "" // nil
			}
			return "h:" + fmt.Sprintf("%x", b)
		}
	}
	for i := 0; i < st.Cnt && x.fail == nil; i++ {
		lo, hi := pick(), pick()
		if r.Intn(6) == 0 {
			hi = lo
		}
		if lo != "-" && hi != "+" && r.Intn(4) > 0 { // mostly the right way round
			if lo == "+" || hi == "-" || string(bound(lo)) > string(bound(hi)) {
				lo, hi = hi, lo
			}
		}
		max := 0
		if n := len(s.m.m); n > 300 {
			max = 60
			if r.Intn(8) == 0 {
				max = 0
			}
		}
		x.rangeCheck(s, lo, hi, r.Intn(2) == 0, max, "range")
		x.probe("range")
	}
}

// --- dumping

var errWriter = errors.New("simulated writer failure")

type flakyWriter struct {
	buf     bytes.Buffer
	calls   int
	failAt  int // -1: never
	partial int
	after   int // calls after the failure
}

func (w *flakyWriter) Write(b []byte) (int, error) {
	simhook.Y()
	n := w.calls
	w.calls++
	if w.failAt >= 0 && n > w.failAt {
		w.after++
		return 0, errWriter
	}
	if n == w.failAt {
		p := w.partial
		if p >= len(b) {
			p = len(b) - 1
		}
		if p < 0 {
			p = 0
		}
		w.buf.Write(b[:p])
		return p, errWriter
	}
	w.buf.Write(b)
	return len(b), nil
}

func parseDump(d string) (recs [][2]string, err error) {
	for {
		i := strings.Index(d, "● ")
		if i < 0 {
			return recs, nil
		}
		d = d[i+len("● "):]
		q, e := strconv.QuotedPrefix(d)
		if e != nil {
			return nil, fmt.Errorf("no quoted key at %s", sshort(d))
		}
		d = d[len(q):]
		k, e := strconv.Unquote(q)
		if e != nil {
			return nil, e
		}
		if strings.HasPrefix(d, "=") {
			q, e := strconv.QuotedPrefix(d[1:])
			if e != nil {
				return nil, fmt.Errorf("no quoted value at %s", sshort(d))
			}
			d = d[1+len(q):]
			v, e := strconv.Unquote(q)
			if e != nil {
				return nil, e
			}
			recs = append(recs, [2]string{k, v})
		}
	}
}

func (x *Exec) fprint(s *structure, st *Step) {
	if s.def.Kind != "bt" {
		return
	}
	r := &rng{S: st.Seed}
	before, live := s.d.Stats(), s.held().Count
	w := &flakyWriter{failAt: -1}
	var err error
	if !x.call("Fprint", func() { err = s.d.Fprint(w) }) {
		return
	}
	if err != nil {
		x.failf("fprint", "Fprint failed though the writer did not: %v", err)
		return
	}
	full := w.buf.String()
	recs, err := parseDump(full)
	if err != nil {
		x.failf("fprint", "the dump cannot be read: %v", err)
		return
	}
	keys := s.m.sorted()
	for i, rec := range recs {
		switch {
		case i >= len(keys):
			x.failf("fprint", "the dump has more than the %d records: %s", len(keys), sshort(rec[0]))
		case rec[0] != keys[i]:
			x.failf("fprint", "record %d of the dump has key %s, want %s", i, sshort(rec[0]), sshort(keys[i]))
		case rec[1] != s.m.m[keys[i]]:
			x.failf("fprint", "the dump has value %s for key %s, want %s", sshort(rec[1]), sshort(keys[i]), sshort(s.m.m[keys[i]]))
		}
		if x.fail != nil {
			return
		}
	}
	if len(recs) != len(keys) {
		x.failf("fprint", "the dump has %d of %d records", len(recs), len(keys))
		return
	}
	x.note(hashBytes([]byte(full)))
	x.maximum("dump_height", float64(before.Height))
	n := st.Cnt
	for i := 0; i < n && w.calls > 0; i++ {
		f := &flakyWriter{failAt: r.Intn(w.calls), partial: r.Intn(3) * r.Intn(30)}
		switch r.Intn(6) {
		case 0:
			f.failAt = w.calls - 1
		case 1:
			f.failAt = 0
		}
		var err error
		if !x.call("Fprint", func() { err = s.d.Fprint(f) }) {
			return
		}
		x.res.Faults["writer"]++
		switch {
		case err == nil:
			x.failf("fprint", "the writer failed at call %d of %d, Fprint returned no error", f.failAt, w.calls)
		case f.after > 0:
			x.failf("fprint", "the writer failed at call %d, Fprint called it %d times more", f.failAt, f.after)
		case !strings.HasPrefix(full, f.buf.String()):
			x.failf("fprint", "the writer failed at call %d, what was written is not the beginning of the dump", f.failAt)
		}
		if x.fail != nil {
			return
		}
	}
	if s.d.Stats() != before || s.held().Count != live {
		x.failf("fprint", "Fprint changed the tree: statistics %v, then %v", before, s.d.Stats())
		return
	}
	x.checkState(s)
}

// --- destroying

func (x *Exec) destroy(s *structure) {
	if !raw(s.def.Kind) {
		return
	}
	ok := x.call("Destroy", func() {
		if s.bt != nil {
			s.bt.Destroy()
		} else {
			s.hm.Destroy()
		}
	})
	if !ok {
		return
	}
	x.probe("destroyed")
	if len(s.m.m) > 0 {
		x.probe("destroyed_nonempty")
	}
	if h := s.held(); h.Bytes != 0 || h.Count != 0 {
		x.failf("destroy", "after Destroy of a structure with %d records %d bytes (%s) it held are not released", len(s.m.m), h.Bytes, bySize(h.BySize))
		return
	}
	s.retire()
	s.exists, s.stored = false, -1
	s.m, s.cursors, s.iters = newModel(), nil, nil
}

// --- I/O failures

func (x *Exec) ioErrors(st *Step) int {
	n := 0
	for _, f := range st.IO {
		n += x.w.Fired["io:"+f.Kind]
	}
	return n
}

// abandon gives up the structure's file after a failure that leaves it in an
// unspecified state.
func (x *Exec) abandon(s *structure) {
	x.w.Remove(s.def.File)
	s.d, s.cursors, s.file = nil, nil, nil
	s.m, s.closed = newModel(), newModel()
}

func (x *Exec) openIO(s *structure, st *Step) {
	if raw(s.def.Kind) || s.d != nil && !x.close(s) {
		return
	}
	existed := x.w.Files[s.def.File] != nil
	creating := !existed || !hasPrimary(x.w.Files[s.def.File])
	before := x.ioErrors(st)
	mm := x.w.Fired["io:mmap"] + x.w.Fired["io:growmap"]
	var d dut
	var err error
	x.w.Arm(st.IO)
	x.w.Dropped = 0
	fl := x.guard(func() { d, err = openDict(s.def.Kind, "", s.def.File, x.w.Files[s.def.File] == nil || x.step&1 == 0) })
	x.w.Disarm()
	fired := x.ioErrors(st) > before
	if fl != nil && (!fired || fl.Class != "panic") {
		x.failf(fl.Class, "open with failing I/O: %s", fl.Msg)
		return
	}
	ino := x.w.Files[s.def.File]
	if !fired {
		if err != nil || d == nil {
			x.failf("io", "open failed without any fault: %v", err)
			return
		}
		s.d, s.file, s.hasLast = d, ino, false
		ino.Active, ino.RNG.S = x.fsSeed != 0, x.fsSeed
		x.own(s)
		if !existed {
			x.baseline(s)
		}
		return
	}
	mmapFailed := x.w.Fired["io:mmap"]+x.w.Fired["io:growmap"] > mm
	what := ""
	for _, f := range st.IO {
		what += fmt.Sprintf(" %s#%d", f.Kind, f.Nth)
	}
	if fl != nil {
		// the space of a new dictionary is allocated by a call that panics
		if creating && x.finding("C14-open-panics") {
			x.abandon(s)
			return
		}
		x.failf("io", "open with failing I/O (%s ) panicked instead of returning an error: %s", what, fl.Msg)
		return
	}
	x.probe("open_failed")
	if err == nil {
		x.failf("io", "open with failing I/O (%s ) reported success", what)
		return
	}
	if d != nil {
		x.failf("io", "open with failing I/O (%s ) returned a dictionary beside the error", what)
		return
	}
	if ino != nil && (ino.Handles != 0 || ino.Maps != 0) {
		x.failf("io", "open with failing I/O (%s ) left %d open files and %d mappings", what, ino.Handles, ino.Maps)
		return
	}
	if !existed {
		if ino != nil {
			x.w.Remove(s.def.File)
		}
		return
	}
	// the data must still be there
	var err2 error
	if !x.call("open after a failed open", func() { s.d, err2 = openDict(s.def.Kind, "", s.def.File, false) }) {
		return
	}
	if err2 != nil {
		s.d = nil
		// the storage cuts the file before it maps it
		if mmapFailed && (errors.Is(err2, io.EOF) || strings.Contains(err2.Error(), "EOF")) && x.finding("C14-open-truncates") {
			x.abandon(s)
			return
		}
		x.failf("io", "after an open that failed (%s ) the file cannot be opened any more: %v", what, err2)
		return
	}
	x.own(s)
	x.verifyContents(s, st.Seed)
}

// verifyContents checks everything the dictionary holds.
func (x *Exec) verifyContents(s *structure, seed uint64) {
	or := x.or
	x.or.contents = true
	x.verify(s, seed)
	x.or = or
}

func (x *Exec) closeIO(s *structure, st *Step) {
	if raw(s.def.Kind) || !x.ensure(s, "") {
		return
	}
	before := x.ioErrors(st)
	spaceFaults := x.w.SpaceFaults
	var err error
	x.w.Arm(st.IO)
	fl := x.guard(func() { err = s.d.Close() })
	x.w.Disarm()
	fired := x.ioErrors(st) > before
	if fl != nil && (!fired || fl.Class != "panic") {
		x.failf(fl.Class, "close with failing I/O: %s", fl.Msg)
		return
	}
	if !fired {
		if err != nil {
			x.failf("io", "close failed without any fault: %v", err)
			return
		}
		s.d, s.cursors = nil, nil
		s.closed = s.m.clone()
		return
	}
	if fl != nil {
		// space for the descriptor is had, or given back, by calls that panic
		if x.w.SpaceFaults == spaceFaults || !x.finding("C14-close-panics") {
			x.failf("io", "close with failing I/O (%s#%d) panicked instead of returning an error: %s", st.IO[0].Kind, st.IO[0].Nth, fl.Msg)
			return
		}
		x.abandon(s)
		return
	}
	x.probe("close_failed")
	if fl == nil && err == nil {
		x.failf("io", "a system call failed during Close (%s#%d), Close reported success", st.IO[0].Kind, st.IO[0].Nth)
		return
	}
	x.abandon(s)
}

// opIO adds records while the file cannot grow.
func (x *Exec) opIO(s *structure, st *Step) {
	if !x.ensure(s, "") {
		return
	}
	x.own(s)
	for i := 0; i < st.Cnt && x.fail == nil; i++ {
		k := famBytes(st.Fam, st.N0+uint64(i), st.Len)
		v := valueFor(st.Seed, i, st.VLen)
		before := x.ioErrors(st)
		if i >= st.Max {
			x.w.Arm(st.IO)
		}
		what := "Set"
		if i > 2 {
			switch h := mix(st.Seed, uint64(i)+91); h % 8 {
			case 0:
				what = "SetIfNotExists"
			case 1, 2:
				what, k = "SetIfExists", famBytes(st.Fam, st.N0+(h>>9)%uint64(i), st.Len)
				v = valueFor(st.Seed, i, 3*st.VLen+i)
			case 3:
				what, k = "Clear", famBytes(st.Fam, st.N0+(h>>9)%uint64(i), st.Len)
			}
		}
		fl := x.guard(func() {
			switch what {
			case "Set":
				s.d.Set(k, v, i%2 == 0)
			case "SetIfNotExists":
				s.d.SetNX(k, v, i%2 == 0)
			case "SetIfExists":
				s.d.SetX(k, v, i%2 == 0)
			case "Clear":
				s.d.Clear(k, i%2 == 0)
			}
		})
		x.w.Disarm()
		_, had := s.m.m[string(k)]
		fired := x.ioErrors(st) > before
		if fired {
			x.probe("op_failed")
			x.probe("op_failed_" + what)
			if fl == nil {
				x.failf("io", "the file could not grow (%s), %s returned as if it had succeeded", st.IO[0].Kind, what)
				return
			}
			if fl.Class != "panic" {
				x.failf(fl.Class, "%s with failing I/O: %s", what, fl.Msg)
				return
			}
			x.abandon(s)
			return
		}
		if fl != nil {
			x.failf(fl.Class, "%s: %s", what, fl.Msg)
			return
		}
		switch {
		case what == "Clear":
			s.m.del(string(k))
		case what == "Set", what == "SetIfNotExists" && !had, what == "SetIfExists" && had:
			s.m.set(string(k), string(v))
		}
	}
}

// openWrong opens what must not open.
func (x *Exec) openWrong(s *structure, st *Step) {
	if raw(s.def.Kind) {
		return
	}
	name := fmt.Sprintf("other-%s-%d", s.def.Kind, x.step)
	r := &rng{S: st.Seed}
	create := r.Intn(2) == 0
	var content []byte
	switch st.Op {
	case "missing":
		create = false
	case "foreign":
		switch r.Intn(6) {
		case 0:
			content = []byte{}
		case 1:
			content = famBytes("r", r.Next(), 1+r.Intn(4095))
		case 2:
			content = famBytes("r", r.Next(), 4096+r.Intn(20000))
		case 3:
			content = make([]byte, 4096*(1+r.Intn(4)))
		case 4:
			content = []byte("SQLite format 3\x00" + strings.Repeat("x", 5000))
		default:
			content = bytes.Repeat([]byte("some text\n"), 900)
		}
		x.w.Put(name, content)
	case "readonly":
		if s.d != nil && !x.close(s) {
			return
		}
		ino := x.w.Files[s.def.File]
		if ino == nil || ino.Size() > 64<<20 {
			return
		}
		name = s.def.File
		content = ino.Content()
		ino.ReadOnly = true
		defer func() { ino.ReadOnly = false }()
	}
	var d dut
	var err error
	if !x.call("open of a file that must not open", func() { d, err = openDict(s.def.Kind, "", name, create) }) {
		return
	}
	x.res.Faults["open:"+st.Op]++
	ino := x.w.Files[name]
	switch {
	case err == nil:
		x.failf("io", "opening a %s file reported success", st.Op)
	case d != nil:
		x.failf("io", "opening a %s file returned a dictionary beside the error", st.Op)
	case st.Op == "missing" && ino != nil:
		x.failf("io", "opening a missing file without permission to create it created it")
	case ino != nil && (ino.Handles != 0 || ino.Maps != 0):
		x.failf("io", "opening a %s file left %d open files and %d mappings", st.Op, ino.Handles, ino.Maps)
	case ino != nil && !bytes.Equal(ino.Content(), content):
		x.failf("io", "opening a %s file changed it", st.Op)
	}
}

// --- the closed file's image

// image closes the structure and returns its file's content.
func (x *Exec) image(s *structure) ([]byte, bool) {
	if !x.ensure(s, "") || !x.close(s) {
		return nil, false
	}
	if s.file.Size() > 256<<20 {
		return nil, false
	}
	return s.file.Content(), true
}

// elsewhere runs f on another machine.
func (x *Exec) elsewhere(f func(w *simdisk.World)) {
	w := simdisk.NewWorld()
	old := x.w
	x.w, simdisk.Cur = w, w
	defer func() {
		x.w, simdisk.Cur = old, old
		w.Close()
	}()
	f(w)
}

// walk looks at the closed file with the released version's reader and
// compares the statistics with the structure found.
func (x *Exec) walk(s *structure) {
	if raw(s.def.Kind) || !x.ensure(s, "") {
		return
	}
	st := s.d.Stats()
	img, ok := x.image(s)
	if !ok || x.fail != nil {
		return
	}
	x.elsewhere(func(w *simdisk.World) {
		w.Put("image", img)
		unread := func(fl *Failure) {
			// the file is not in the released version's format: the
			// properties do not forbid that
			x.probe("walk_unreadable")
		}
		if s.def.Kind == "od" {
			var sh struct {
				Height, Leafs, NonLeafs, Records, Payload int
				Levels                                    []int
				MinLeaf                                   int
				Bad                                       string
			}
			if fl := x.guard(func() {
				od, err := base.OpenOrderedDict("image", false)
				if err != nil {
					panic(err)
				}
				b := od.Walk()
				sh.Height, sh.Leafs, sh.NonLeafs, sh.Records, sh.Payload, sh.Levels, sh.MinLeaf, sh.Bad = b.Height, b.Leafs, b.NonLeafs, b.Records, b.Payload, b.Levels, b.MinLeaf, b.Bad
			}); fl != nil || sh.Records != len(s.m.m) {
				unread(fl)
				return
			}
			x.probe("walk")
			if x.or.stats && (st.Height != sh.Height || st.Leafs != sh.Leafs || st.NonLeafs != sh.NonLeafs || st.Payload != sh.Payload) {
				x.failf("stats", "height %d, leafs %d, non-leafs %d, payload %d reported; the file has %d, %d, %d, %d", st.Height, st.Leafs, st.NonLeafs, st.Payload, sh.Height, sh.Leafs, sh.NonLeafs, sh.Payload)
				return
			}
			if x.or.balance {
				for i := 0; i+1 < len(sh.Levels); i++ {
					f := float64(sh.Levels[i+1]) / float64(sh.Levels[i])
					min := minFanOut
					if i == 0 {
						min = 2
					}
					x.maximum("level_ratio_inverse", 1/f)
					if f < min {
						x.failf("balance", "level %d of the tree has %d nodes over %d", i+1, sh.Levels[i], sh.Levels[i+1])
						return
					}
				}
				if sh.Leafs > 1 {
					x.maximum("emptiest_leaf_inverse", 8192/float64(sh.MinLeaf+1))
				}
			}
			return
		}
		var slots, dirs, items, payload int
		if fl := x.guard(func() {
			d, err := base.OpenDict("image", false)
			if err != nil {
				panic(err)
			}
			b := d.Walk()
			slots, dirs, items, payload = b.Slots, b.Dirs, b.Items, b.Payload
		}); fl != nil || items != len(s.m.m) {
			unread(fl)
			return
		}
		x.probe("walk")
		if x.or.stats && (st.Slots != slots || st.Dirs != dirs || st.Payload != payload) {
			x.failf("stats", "slots %d, directories %d, payload %d reported; the file has %d, %d, %d", st.Slots, st.Dirs, st.Payload, slots, dirs, payload)
		}
	})
}

// otherProc opens the closed file in another operating system process.
func (x *Exec) otherProc(s *structure) {
	if raw(s.def.Kind) {
		return
	}
	img, ok := x.image(s)
	if !ok || x.exe == "" {
		return
	}
	dir, err := os.MkdirTemp("", "verif-proc-")
	if err != nil {
		panic("simdisk: host failure: " + err.Error())
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "image")
	if err := os.WriteFile(f, img, 0600); err != nil {
		panic("simdisk: host failure: " + err.Error())
	}
	var want bytes.Buffer
	for _, k := range s.m.sorted() {
		fmt.Fprintf(&want, "%x %x\n", k, s.m.m[k])
	}
	if err := os.WriteFile(f+".want", want.Bytes(), 0600); err != nil {
		panic("simdisk: host failure: " + err.Error())
	}
	c := exec.Command(x.exe, "image", s.def.Kind, f, f+".want")
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err = c.Run()
	x.probe("other_process")
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 && strings.HasPrefix(out.String(), "DIFFERENT ") {
			x.failf("contents", "in another process: %s", strings.TrimSpace(strings.TrimPrefix(out.String(), "DIFFERENT ")))
			return
		}
		panic("simdisk: host failure: other process: " + err.Error() + "\n" + out.String())
	}
}

// imageMain is that other process.
func imageMain(kind, file, want string) int {
	img, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	b, err := os.ReadFile(want)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	x := newExec(&Trace{Structs: []StructDef{{Kind: kind, File: "image"}}}, oracles{contents: true})
	x.w.Put("image", img)
	s := x.st[0]
	for _, l := range strings.Split(string(b), "\n") {
		if k, v, ok := strings.Cut(l, " "); ok {
			s.m.set(string(makeBytes("h:"+k)), string(makeBytes("h:"+v)))
		}
	}
	x.verify(s, 1)
	if x.fail != nil {
		fmt.Println("DIFFERENT", x.fail.Msg)
		return 1
	}
	return 0
}

var _ io.Writer = (*flakyWriter)(nil)

var dumpOps = os.Getenv("SIM_DUMP") != ""

// hasPrimary reports whether the file holds a dictionary.
func hasPrimary(ino *simdisk.Inode) bool {
	h, ok := fsm.ParseHeader(ino.Content())
	return ok && h.Primary >= 0
}
