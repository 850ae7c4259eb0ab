// Command sim is the deterministic simulator of plainkv: it generates seeded
// runs, executes the real code of plainkv on a simulated file system and
// scheduler, and judges every run against reference models.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/roy2220/fsm/simdisk"
)

func usage() int {
	fmt.Fprintln(os.Stderr, `usage:
  sim check PROPERTY quick|thorough   run a batch (environment: VERIF_SEED)
  sim replay FILE                     execute a replay file
  sim gen PROPERTY SEED RUN           print the trace of one run
  sim one PROPERTY SEED RUN           execute one run and print its result
  sim selftest [RUNS]                 prove that runs are deterministic`)
	return 2
}

func main() {
	os.Exit(run(os.Args[1:]))
}

func run(a []string) int {
	if len(a) == 0 {
		return usage()
	}
	switch {
	case a[0] == "worker" && len(a) == 1:
		return workerMain()
	case a[0] == "image" && len(a) == 4:
		hostSetup()
		return imageMain(a[1], a[2], a[3])
	case a[0] == "check" && len(a) == 3:
		return checkMain(a[1], a[2])
	case a[0] == "replay" && len(a) == 2:
		return replayMain(a[1])
	case a[0] == "selftest":
		return selftestMain(a[1:])
	case (a[0] == "gen" || a[0] == "one") && len(a) == 4:
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		n, _ := strconv.Atoi(a[3])
		t := generate(a[1], seed, n)
		if a[0] == "gen" {
			b, _ := json.MarshalIndent(t, "", " ")
			fmt.Println(string(b))
			return 0
		}
		hostSetup()
		r := runTrace(t)
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
		if r.Fail != nil {
			return 1
		}
		return 0
	}
	return usage()
}

func hostSetup() {
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(300)
	runtime.GOMAXPROCS(2)
	loadFindings()
}

// runTrace executes a trace and judges it.
func runTrace(t *Trace) *Result {
	x := newExec(t, oraclesFor(t.Property))
	x.exe, _ = os.Executable()
	r := x.run()
	if t.Property == "C08" && r.Fail != nil && r.Fail.Class != "buffer" {
		// is it because of what the caller does with its slices?
		n := t.clone()
		n.Buf = ""
		or := oraclesFor(t.Property)
		or.buffers = false
		y := newExec(n, or)
		if q := y.run(); q.Fail != nil {
			r.Fail = nil
			r.Probes["fails_without_reused_buffers_too"]++
		}
	}
	if t.Property == "C07" && r.Fail == nil && (t.Place.HighPad != nil || anyPlacement(t.Place)) {
		n := t.clone()
		n.Place = simdisk.Placement{}
		for i := range n.Steps {
			n.Steps[i].FS = 0
		}
		y := newExec(n, oraclesFor(t.Property))
		q := y.run()
		r.Probes["compared_with_plain_storage"]++
		if q.Fail != nil {
			q.Fail.Msg = "with a plain storage: " + q.Fail.Msg
			r.Fail = q.Fail
		} else if q.Seen != r.Seen {
			r.Fail = &Failure{"placement", "the results differ from those with a plain storage", len(t.Steps) - 1}
		}
	}
	r.NonTriv = nontrivial(t.Property, r)
	return r
}

func anyPlacement(p simdisk.Placement) bool {
	return p.MoveAlloc+p.MoveFree+p.DirtyNew+p.DirtyFree+p.Slack+p.Pads > 0
}

func sum(m map[string]int64, prefix string) (n int64) {
	for k, v := range m {
		if strings.HasPrefix(k, prefix) {
			n += v
		}
	}
	return
}

// nontrivial tells whether the run exercised what the property is about.
func nontrivial(prop string, r *Result) bool {
	if r.Calls < 10 {
		return false
	}
	switch prop {
	case "C02":
		return r.Probes["range"] > 0
	case "C20":
		return r.Probes["measured"] >= 100
	case "C03", "C06", "C17":
		return r.Probes["reopen"] > 0
	case "C05":
		return r.Probes["scan_opened"] > 0
	case "C07":
		return sum(r.Faults, "storage:") > 0
	case "C09", "C11", "C12":
		return r.Probes["drained"] > 0
	case "C13":
		return r.Probes["iter_end"] > 0
	case "C14":
		return sum(r.Faults, "io:")+sum(r.Faults, "open:") > 0
	case "C15":
		return r.Faults["switch"] > 0
	case "C16":
		return sum(r.Faults, "kill:") > 0
	case "C18":
		return r.Probes["destroyed"]+r.Probes["reopen"]+r.Probes["store_load"] > 0
	case "C19":
		return r.Faults["writer"] > 0
	}
	return true
}

// request is one line to a worker.
type request struct {
	Prop  string `json:"prop"`
	Seed  uint64 `json:"seed"`
	Run   int    `json:"run"`
	Trace *Trace `json:"trace,omitempty"`
}

func workerMain() int {
	hostSetup()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return 0
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			return 3
		}
		t := q.Trace
		if t == nil {
			t = generate(q.Prop, q.Seed, q.Run)
		}
		r := runTrace(t)
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			return 3
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
