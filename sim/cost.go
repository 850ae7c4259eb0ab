package main

import "github.com/roy2220/fsm/simhook"

// The work of one operation (C20): the spaces it has to do with (accesses,
// allocates or releases) and the statements it executes. Neither depends on
// how fast the machine is.

const (
	costSpaces = 100    // spaces of the storage one call may have to do with
	costSteps  = 100000 // statements of plainkv one call that changes something may execute
	costReads  = 12000  // the same for a call that only reads
	costBytes  = 40     // for each byte of the longest item, however it is copied
)

// measured runs one call and compares its work with the bounds.
func (x *Exec) measured(what string, f func()) bool {
	s := x.st[0]
	ino := x.w.Files[s.def.File]
	if ino != nil {
		ino.Work = map[int64]bool{}
	}
	begin := simhook.Own()
	fl := x.guard(f)
	steps := simhook.Own() - begin
	spaces := 0
	if ino != nil {
		spaces = len(ino.Work)
		ino.Work = nil
	}
	if fl != nil {
		x.failf(fl.Class, "%s: %s", what, fl.Msg)
		return false
	}
	x.probe("measured")
	n := len(s.m.m)
	x.maximum("spaces_"+what, float64(spaces))
	if spaces > costSpaces {
		x.failf("cost", "%s had to do with %d spaces of the storage in a dictionary of %d records", what, spaces, n)
		return false
	}
	if what == "open" || what == "close" {
		// the storage reads and writes its bitmap
		return true
	}
	x.maximum("steps_"+what, float64(steps))
	most := int64(costSteps)
	switch what {
	case "Test", "Stats", "Range", "iteration", "Scan":
		most = costReads
	}
	if what != "Stats" {
		most += costBytes * x.longest
	}
	if steps > most {
		x.failf("cost", "%s took %d steps in a dictionary of %d records", what, steps, n)
		return false
	}
	return true
}

// cost measures single calls on a dictionary of some size.
func (x *Exec) cost(s *structure, st *Step) {
	r := &rng{S: mix(st.Seed, 91)}
	ks := s.m.sorted()
	x.longest = 340 // of the items added below
	for k, v := range s.m.m {
		if n := int64(len(k) + len(v)); n > x.longest {
			x.longest = n
		}
	}
	key := func() []byte {
		if len(ks) > 0 && r.Intn(4) > 0 {
			return []byte(ks[r.Intn(len(ks))])
		}
		return famBytes(st.Fam, r.Next()%1000000, 1+r.Intn(40))
	}
	for i := 0; i < st.Cnt && x.fail == nil; i++ {
		switch r.Intn(8) {
		case 0:
			x.point(s, "set", key(), famBytes("v", r.Next(), r.Intn(300)), r.Intn(2) == 0)
		case 1:
			x.point(s, "setx", key(), famBytes("v", r.Next(), r.Intn(300)), r.Intn(2) == 0)
		case 2:
			x.point(s, "setnx", key(), famBytes("v", r.Next(), r.Intn(300)), r.Intn(2) == 0)
		case 3:
			x.point(s, "clear", key(), nil, r.Intn(2) == 0)
		case 4:
			x.point(s, "test", key(), nil, r.Intn(2) == 0)
		case 5:
			x.measured("Stats", func() { s.d.Stats() })
		default:
			if ordered(s.def.Kind) {
				x.costRange(s, r, key)
			} else {
				x.costScan(s, r)
			}
		}
	}
}

// costRange opens a range and goes some way along it.
func (x *Exec) costRange(s *structure, r *rng, key func() []byte) {
	lo, hi := key(), key()
	if string(lo) > string(hi) {
		lo, hi = hi, lo
	}
	switch r.Intn(4) {
	case 0:
		lo = bound("-")
	case 1:
		hi = bound("+")
	}
	desc := r.Intn(2) == 0
	var it iter
	if !x.measured("Range", func() { it = s.d.Range(lo, hi, desc) }) {
		return
	}
	for n := r.Intn(150); n > 0 && x.fail == nil; n-- {
		end := false
		if !x.measured("iteration", func() {
			if end = it.IsAtEnd(); !end {
				it.ReadRecordAll()
				it = it.Advance()
			}
		}) || end {
			return
		}
	}
	x.probe("measured_ranges")
}

// costScan takes some steps of a scan; single steps may meet empty slots, so
// that what counts is a number of them.
func (x *Exec) costScan(s *structure, r *rng) {
	next := s.d.Scan().next
	for n := r.Intn(150); n > 0 && x.fail == nil; n-- {
		ok := false
		if !x.measured("Scan", func() { _, _, ok = next() }) || !ok {
			return
		}
	}
	x.probe("measured_scans")
}
