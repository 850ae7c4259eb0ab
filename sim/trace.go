package main

import (
	"encoding/json"
	"os"

	"github.com/roy2220/fsm/simdisk"
)

// StructDef is one structure of a simulated run.
type StructDef struct {
	Kind string `json:"kind"` // od, d: a dictionary of plainkv in a file of its own; bt, hm: a tree or map in a shared storage
	File string `json:"file"`
}

// Switch hands the processor to task To after Gap more steps.
type Switch struct {
	Gap int64 `json:"gap"`
	To  int   `json:"to"`
}

// Step is one event of a run; which fields count depends on Op.
type Step struct {
	Op      string            `json:"op"`
	S       int               `json:"s,omitempty"`
	K       string            `json:"k,omitempty"`
	V       string            `json:"v,omitempty"`
	R       bool              `json:"r,omitempty"`
	Lo      string            `json:"lo,omitempty"`
	Hi      string            `json:"hi,omitempty"`
	Desc    bool              `json:"desc,omitempty"`
	Fam     string            `json:"fam,omitempty"`
	N0      uint64            `json:"n0,omitempty"`
	Cnt     int               `json:"cnt,omitempty"`
	Len     int               `json:"len,omitempty"`
	VLen    int               `json:"vlen,omitempty"`
	Lens    []int             `json:"lens,omitempty"`  // key length classes
	VLens   []int             `json:"vlens,omitempty"` // value length classes
	Order   string            `json:"order,omitempty"`
	Mod     int               `json:"mod,omitempty"`
	Rem     int               `json:"rem,omitempty"`
	Max     int               `json:"max,omitempty"`
	Seed    uint64            `json:"seed,omitempty"`
	Fresh   bool              `json:"fresh,omitempty"` // files opened again while no other is open are opened by another process
	FS      uint64            `json:"fs,omitempty"`    // placement decisions of the storage in this step; 0: none
	Impl    string            `json:"impl,omitempty"`
	IO      []simdisk.IOFault `json:"io,omitempty"`
	Kill    []int64           `json:"kill,omitempty"`    // kill the process at these steps
	KillIO  []int64           `json:"killio,omitempty"`  // kill the process at these I/O event boundaries
	KillMut [][2]int64        `json:"killmut,omitempty"` // kill the process so many steps after the n-th allocation or release begins
	Tasks   [][]Step          `json:"tasks,omitempty"`
	Sched   []Switch          `json:"sched,omitempty"`
}

// Trace is a run in full: replaying it needs nothing else.
type Trace struct {
	Property string            `json:"property"`
	Seed     uint64            `json:"seed"`
	Run      int               `json:"run"`
	Kind     string            `json:"kind,omitempty"` // what the generator meant it to be
	Place    simdisk.Placement `json:"place"`
	Buf      string            `json:"buf,omitempty"`   // "reuse": the caller builds all its arguments in the same buffers
	Quiet    bool              `json:"quiet,omitempty"` // statistics are asked for at verify steps only
	Structs  []StructDef       `json:"structs"`
	Steps    []Step            `json:"steps"`
	Expect   *Failure          `json:"expect,omitempty"`
	Note     string            `json:"note,omitempty"`
}

// Failure is a violation found by a run.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Step  int    `json:"step"`
}

func (t *Trace) clone() *Trace {
	b, _ := json.Marshal(t)
	var n Trace
	if err := json.Unmarshal(b, &n); err != nil {
		panic(err)
	}
	return &n
}

func readTrace(path string) (*Trace, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var t Trace
	if err := json.Unmarshal(b, &t); err != nil {
		return nil, err
	}
	return &t, nil
}

func (t *Trace) write(path string) error {
	b, err := json.MarshalIndent(t, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
