package main

import (
	"fmt"
	"sort"
	"time"
)

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func (b *batch) evidence(corpus []*Result, again, differ, violations int, wall time.Duration) *evidence {
	hashes, shapes := map[uint64]bool{}, map[uint64]bool{}
	faults, probes, kinds := map[string]int64{}, map[string]int64{}, map[string]int{}
	maxima := map[string]float64{}
	var steps, calls int64
	n, nontriv := 0, 0
	var samples []interface{}
	for i, r := range b.results {
		if r == nil {
			continue
		}
		n++
		steps += r.Steps
		calls += r.Calls
		if r.NonTriv && !hashes[r.Hash] {
			hashes[r.Hash] = true
			nontriv++
		}
		for _, s := range r.Shapes {
			shapes[s] = true
		}
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Probes {
			probes[k] += v
		}
		for k, v := range r.Maxima {
			if v > maxima[k] {
				maxima[k] = v
			}
		}
		if r.Kind != "" {
			kinds[r.Kind]++
		}
		if len(samples) < 2 && (i == 0 || i == 3) {
			t := generate(b.prop, b.seed, i)
			st := t.Steps
			if len(st) > 10 {
				st = st[:10]
			}
			for j := range st {
				if len(st[j].Sched) > 6 {
					st[j].Sched = st[j].Sched[:6]
				}
				for k := range st[j].Tasks {
					if len(st[j].Tasks[k]) > 3 {
						st[j].Tasks[k] = st[j].Tasks[k][:3]
					}
				}
			}
			samples = append(samples, map[string]interface{}{"run": i, "structs": t.Structs, "place": t.Place, "steps_in_all": len(t.Steps), "first_steps": st, "result_hash": fmt.Sprintf("%016x", r.Hash), "simulated_steps": r.Steps})
		}
	}
	h := wall.Hours()
	real := []string{"plainkv (package plainkv, bptree, hashmap, hashmap/internal/protocol): the code of /repo's working tree, instrumented with a yield point before every statement", "gogo/protobuf", "fsm v0.6.1: buddy, pool, file header, free lists (same source as the module, system calls routed to the simulator)"}
	stub := []string{"file system and mmap: files are memfds, mappings are placed by the simulator in a guarded address region", "package sync inside plainkv: deterministic scheduler", "process kill: the file's bytes at that instant opened on a fresh machine"}
	cov := map[string]interface{}{
		"evaluations":                          n,
		"distinct_nontrivial":                  nontriv,
		"rule":                                 "one evaluation is one simulated run generated from (VERIF_SEED, run number): " + rules[b.prop],
		"samples":                              samples,
		"runs_per_hour":                        float64(n) / h,
		"seeds_per_hour":                       float64(n) / h,
		"simulated_steps":                      steps,
		"simulated_time":                       "the code has no clock; simulated time is counted in executed statements (simulated_steps) and calls",
		"calls_of_the_code_under_test":         calls,
		"faults_injected":                      faults,
		"probes":                               probes,
		"measured_maxima":                      maxima,
		"special_runs":                         kinds,
		"distinct_structure_shapes":            len(shapes),
		"distinct_states_measure":              "distinct (height, leafs, non-leafs, slot directories, slots) of the structures seen after operations; distinct runs by the hash of all observations, storage events and step counts",
		"repeated_runs":                        again,
		"repeated_runs_that_differed":          differ,
		"committed_traces_replayed":            len(corpus),
		"components_running_real_code":         real,
		"components_replaced_by_the_simulator": stub,
		"workers":                              workers(),
	}
	return &evidence{b.prop, b.tier, int64(b.seed), "exploration", cov, assumptions, wall.Seconds(), violations}
}

var assumptions = []string{
	"a clean batch is evidence over the sampled histories, schedules and faults, not a proof",
	"interleavings switch between statements of plainkv (sequential consistency); hardware memory ordering is not simulated",
	"a killed process loses nothing it wrote to the file or its shared mapping (page cache survives); power loss is out of scope because plainkv never syncs",
	"fsm, gogo/protobuf and the Go runtime behave as the versions used here",
}

var rules = map[string]string{
	"C01": "phases of bulk and single point operations, sweeps, drains and reopens on an ordered dictionary, every result compared with a map; non-trivial if at least 10 calls of the dictionary were judged and its history is distinct",
	"C02": "as C01 with range queries around present, absent, removed and sentinel bounds; non-trivial if at least one range was compared with the reference and the run is distinct",
	"C03": "sessions of operations on an ordered dictionary with closes and reopens, some in another process; non-trivial if it was reopened at least once and the run is distinct",
	"C04": "as C01 on a dictionary, with colliding hashes; non-trivial if at least 10 calls were judged and the run is distinct",
	"C05": "interleaved scan cursors with insertions, updates and removals; non-trivial if a scan was opened and the run is distinct",
	"C06": "as C03 on a dictionary",
	"C07": "histories under moving, dirty, oversized and high placements, compared with the model and with the same history on plain storage; non-trivial if a placement event really happened and the run is distinct",
	"C08": "histories with guarded, overwritten argument buffers and kept, overwritten results; non-trivial if at least 10 calls were judged and the run is distinct",
	"C09": "histories ending in the removal of every key, space counted by an allocation ledger; non-trivial if a dictionary was emptied and the run is distinct",
	"C10": "histories with statistics compared after every operation with the model, the ledger and the closed file; non-trivial if at least 10 calls were judged and the run is distinct",
	"C11": "skewed growth, updates and removals with bounds on height and fill; non-trivial if a tree was emptied and the run is distinct",
	"C12": "growth and shrinkage with bounds on slots and directories; non-trivial if a table was emptied and the run is distinct",
	"C13": "interleaved iterators with partial reads at every offset class; non-trivial if an iterator was taken past its end and the run is distinct",
	"C14": "failing system calls in Open, Close and growth, and files that must not open; non-trivial if a fault really fired and the run is distinct",
	"C15": "tasks on separate dictionaries or reading shared ones under a seeded schedule of statement-level switches; non-trivial if a switch happened and the run is distinct",
	"C16": "sessions with kills at chosen statements and system call boundaries, each image reopened and judged; non-trivial if a kill happened and the run is distinct",
	"C17": "histories written by the frozen release and continued by the current code; non-trivial if a file changed hands and the run is distinct",
	"C18": "several trees and maps in one storage with stores, loads, destroys; non-trivial if one was stored, reopened or destroyed and the run is distinct",
	"C20": "every call on dictionaries of very different sizes measured in spaces and statements; non-trivial if at least 100 calls were measured and the run is distinct",
	"C19": "dumps of trees compared with the model, and writers failing at chosen calls; non-trivial if a writer failure happened and the run is distinct",
}

var _ = sort.Strings
