#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = {
 "C01": "every result of seeded operation histories against a map model, on a machine whose storage moves, dirties and oversizes allocations",
 "C02": "range queries interleaved with updates against the sorted model, forward and backward, all bound classes",
 "C03": "multi-session histories, reopened in this and in other processes, against the model",
 "C04": "every result of seeded operation histories with colliding hashes against a map model",
 "C05": "scan cursors interleaved step by step with updates; exactly-once oracle over each cursor's history",
 "C06": "multi-session histories, reopened in this and in other processes, against the model",
 "C07": "placement faults (moves, dirty memory, slack, padding, addresses beyond 4, 8 and 12 GiB) against the model and against the same history on undisturbed storage",
 "C08": "guarded and overwritten argument buffers, kept and overwritten results, under seeded histories",
 "C09": "allocation ledger of the simulated storage: owned space against contents after every phase, and after removing everything",
 "C10": "statistics after every operation against the model, the ledger and the closed file",
 "C11": "page walks of the stored tree after skewed growth and removal: order, equal depth, fill and height bounds",
 "C12": "slot and directory bounds, and spread of the items over the slots, under growth and removal",
 "C13": "interleaved iterators with partial reads of all offset classes against the model",
 "C14": "seeded failures and short reads of every system call of Open, Close and file growth",
 "C15": "deterministic scheduler switching between statements of concurrent tasks, shared-access monitor, results against each task's model",
 "C16": "seeded kills between statements, at system call boundaries and inside writes; every image reopened and compared with the states allowed",
 "C17": "upgrade and downgrade histories alternating the frozen release and the current code on one file",
 "C18": "several trees and maps in one storage, with ownership ledger, stores, loads and destroys, against one model each",
 "C19": "dumps parsed back and compared with the model; writers failing at every call class",
 "C20": "the storage accesses and executed statements of every call, counted by the simulator, against bounds independent of the number of records, on dictionaries of 0 to 300000 records under placement faults",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
trust = "Sampled histories, schedules and faults: a clean run is evidence, not proof. Trusted: the simulator's model and disk (sim/), gogo/protobuf, the Go compiler. Statement-level sequential consistency; no power loss."
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{
  "property": p["id"],
  "quick_cmd": "bash check.sh %s quick" % p["id"],
  "thorough_cmd": "bash check.sh %s thorough" % p["id"],
  "evidence_file": "evidence/%s.json" % p["id"],
  "technique": "deterministic simulation with fault injection: " + how[p["id"]],
  "level": "exploration",
  "level_note": trust,
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: statement hooks are inserted into a build overlay of /repo's working tree (sim/instr), file and mmap calls go through a hooked copy of the storage dependency (sim/fsm). Replay: VERIF_DIR=/verif build/sim replay FILE. Findings: known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
