package main

import (
	"encoding/binary"
	"io"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	base "verif/sim/base"
)

// dstats are the statistics of a structure, -1 where it has none.
type dstats struct {
	Height, Leafs, NonLeafs, Records int
	Dirs, Slots                      int
	Payload                          int
}

type iter = bptree.Iterator

// dut is a structure under test as a user sees it.
type dut interface {
	Set(k, v []byte, r bool) []byte
	SetX(k, v []byte, r bool) ([]byte, bool)
	SetNX(k, v []byte, r bool) ([]byte, bool)
	Clear(k []byte, r bool) ([]byte, bool)
	Test(k []byte, r bool) ([]byte, bool)
	Stats() dstats
	Range(lo, hi []byte, desc bool) iter
	Scan() *scanner
	Fprint(w io.Writer) error
	Close() error
	FSM() fsm.Stats
}

// scanner is a scan: a cursor and the dictionary it goes through.
type scanner struct {
	next func() ([]byte, []byte, bool)
	copy func() *scanner // of the cursor, at its present position
}

func newScanner[C any](c *C, fetch func(*C) ([]byte, []byte, bool)) *scanner {
	return &scanner{
		func() ([]byte, []byte, bool) { return fetch(c) },
		func() *scanner {
			c2 := *c
			return newScanner(&c2, fetch)
		},
	}
}

type odDut struct{ *plainkv.OrderedDict }

func (d odDut) SetX(k, v []byte, r bool) ([]byte, bool)  { return d.SetIfExists(k, v, r) }
func (d odDut) SetNX(k, v []byte, r bool) ([]byte, bool) { return d.SetIfNotExists(k, v, r) }
func (d odDut) Stats() dstats {
	s := d.OrderedDict.Stats()
	return dstats{s.BPTreeHeight, s.NumberOfBPTreeLeafs, s.NumberOfBPTreeNonLeafs, s.NumberOfBPTreeRecords, -1, -1, s.PayloadSize}
}
func (d odDut) FSM() fsm.Stats { return d.OrderedDict.Stats().FSM }
func (d odDut) Range(lo, hi []byte, desc bool) iter {
	if desc {
		return d.RangeDesc(lo, hi)
	}
	return d.RangeAsc(lo, hi)
}
func (d odDut) Scan() *scanner           { return nil }
func (d odDut) Fprint(w io.Writer) error { return nil }

type dDut struct{ *plainkv.Dict }

func (d dDut) SetX(k, v []byte, r bool) ([]byte, bool)  { return d.SetIfExists(k, v, r) }
func (d dDut) SetNX(k, v []byte, r bool) ([]byte, bool) { return d.SetIfNotExists(k, v, r) }
func (d dDut) Stats() dstats {
	s := d.Dict.Stats()
	return dstats{-1, -1, -1, s.NumberOfHashItems, s.NumberOfHashSlotDirs, s.NumberOfHashSlots, s.PayloadSize}
}
func (d dDut) FSM() fsm.Stats                      { return d.Dict.Stats().FSM }
func (d dDut) Range(lo, hi []byte, desc bool) iter { return nil }
func (d dDut) Scan() *scanner {
	return newScanner(new(plainkv.DictCursor), d.Dict.Scan)
}
func (d dDut) Fprint(w io.Writer) error { return nil }

// The released version (pinned, frozen in sim/base), for upgrade histories.
type odBase struct{ *base.OrderedDict }

func (d odBase) SetX(k, v []byte, r bool) ([]byte, bool)  { return d.SetIfExists(k, v, r) }
func (d odBase) SetNX(k, v []byte, r bool) ([]byte, bool) { return d.SetIfNotExists(k, v, r) }
func (d odBase) Stats() dstats {
	s := d.OrderedDict.Stats()
	return dstats{s.BPTreeHeight, s.NumberOfBPTreeLeafs, s.NumberOfBPTreeNonLeafs, s.NumberOfBPTreeRecords, -1, -1, s.PayloadSize}
}
func (d odBase) FSM() fsm.Stats                      { return d.OrderedDict.Stats().FSM }
func (d odBase) Range(lo, hi []byte, desc bool) iter { return nil }
func (d odBase) Scan() *scanner                      { return nil }
func (d odBase) Fprint(w io.Writer) error            { return nil }

type dBase struct{ *base.Dict }

func (d dBase) SetX(k, v []byte, r bool) ([]byte, bool)  { return d.SetIfExists(k, v, r) }
func (d dBase) SetNX(k, v []byte, r bool) ([]byte, bool) { return d.SetIfNotExists(k, v, r) }
func (d dBase) Stats() dstats {
	s := d.Dict.Stats()
	return dstats{-1, -1, -1, s.NumberOfHashItems, s.NumberOfHashSlotDirs, s.NumberOfHashSlots, s.PayloadSize}
}
func (d dBase) FSM() fsm.Stats                      { return d.Dict.Stats().FSM }
func (d dBase) Range(lo, hi []byte, desc bool) iter { return nil }
func (d dBase) Scan() *scanner {
	return newScanner(new(base.DictCursor), d.Dict.Scan)
}
func (d dBase) Fprint(w io.Writer) error { return nil }

// Structures in a shared file storage.
type btDut struct {
	fs *fsm.FileStorage
	t  *bptree.BPTree
}

func (d btDut) Set(k, v []byte, r bool) []byte {
	x, _ := d.t.AddOrUpdateRecord(k, v, r)
	return x
}
func (d btDut) SetX(k, v []byte, r bool) ([]byte, bool)  { return d.t.UpdateRecord(k, v, r) }
func (d btDut) SetNX(k, v []byte, r bool) ([]byte, bool) { return d.t.AddRecord(k, v, r) }
func (d btDut) Clear(k []byte, r bool) ([]byte, bool)    { return d.t.DeleteRecord(k, r) }
func (d btDut) Test(k []byte, r bool) ([]byte, bool)     { return d.t.HasRecord(k, r) }
func (d btDut) Stats() dstats {
	return dstats{d.t.Height(), d.t.NumberOfLeafs(), d.t.NumberOfNonLeafs(), d.t.NumberOfRecords(), -1, -1, d.t.PayloadSize()}
}
func (d btDut) FSM() fsm.Stats { return d.fs.Stats() }
func (d btDut) Range(lo, hi []byte, desc bool) iter {
	if desc {
		return d.t.SearchBackward(lo, hi)
	}
	return d.t.SearchForward(lo, hi)
}
func (d btDut) Scan() *scanner           { return nil }
func (d btDut) Fprint(w io.Writer) error { return d.t.Fprint(w) }
func (d btDut) Close() error             { return nil }

type hmDut struct {
	fs *fsm.FileStorage
	t  *hashmap.HashMap
}

func (d hmDut) Set(k, v []byte, r bool) []byte {
	x, _ := d.t.AddOrUpdateItem(k, v, r)
	return x
}
func (d hmDut) SetX(k, v []byte, r bool) ([]byte, bool)  { return d.t.UpdateItem(k, v, r) }
func (d hmDut) SetNX(k, v []byte, r bool) ([]byte, bool) { return d.t.AddItem(k, v, r) }
func (d hmDut) Clear(k []byte, r bool) ([]byte, bool)    { return d.t.DeleteItem(k, r) }
func (d hmDut) Test(k []byte, r bool) ([]byte, bool)     { return d.t.HasItem(k, r) }
func (d hmDut) Stats() dstats {
	return dstats{-1, -1, -1, d.t.NumberOfItems(), d.t.NumberOfSlotDirs(), d.t.NumberOfSlots(), d.t.PayloadSize()}
}
func (d hmDut) FSM() fsm.Stats                      { return d.fs.Stats() }
func (d hmDut) Range(lo, hi []byte, desc bool) iter { return nil }
func (d hmDut) Scan() *scanner {
	return newScanner(new(hashmap.Cursor), d.t.FetchItem)
}
func (d hmDut) Fprint(w io.Writer) error { return nil }
func (d hmDut) Close() error             { return nil }

// openDict opens a dictionary of plainkv, or of the released version.
func openDict(kind, impl, file string, create bool) (dut, error) {
	switch {
	case kind == "od" && impl == "base":
		d, err := base.OpenOrderedDict(file, create)
		if err != nil || d == nil {
			return nil, err
		}
		return odBase{d}, nil
	case kind == "d" && impl == "base":
		d, err := base.OpenDict(file, create)
		if err != nil || d == nil {
			return nil, err
		}
		return dBase{d}, nil
	case kind == "od":
		d, err := plainkv.OpenOrderedDict(file, create)
		if d == nil {
			return nil, err
		}
		return odDut{d}, err
	case kind == "d":
		d, err := plainkv.OpenDict(file, create)
		if d == nil {
			return nil, err
		}
		return dDut{d}, err
	}
	panic("bad trace: kind " + kind)
}

// storage is one shared file storage with its structures.
type storage struct {
	file string
	fs   *fsm.FileStorage
	open bool
}

func (s *storage) writeDirectory(addrs []int64) {
	a, b := s.fs.AllocateSpace(8 * len(addrs))
	for i, x := range addrs {
		binary.BigEndian.PutUint64(b[8*i:], uint64(x))
	}
	s.fs.SetPrimarySpace(a)
}

func (s *storage) readDirectory(n int) []int64 {
	a := s.fs.PrimarySpace()
	b := s.fs.AccessSpace(a)
	r := make([]int64, n)
	for i := range r {
		r[i] = int64(binary.BigEndian.Uint64(b[8*i:]))
	}
	s.fs.FreeSpace(a)
	return r
}
