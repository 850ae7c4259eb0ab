package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// verifDir is the directory of the framework.
func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "."
}

// runTimeout is a watchdog of the harness; it is never a verdict.
const runTimeout = 200 * time.Second

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tail
}

// tail keeps the end of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
	h  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.h) < 4096 {
		t.h = append(t.h, p...)
	}
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = t.b[len(t.b)-1<<15:]
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	h := string(t.h)
	if len(h) > 3000 {
		h = h[:3000]
	}
	return h
}

func startProc() (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, "worker")
	c.Env = append(os.Environ(), "GOTRACEBACK=single")
	p := &proc{cmd: c, errb: &tail{}}
	c.Stderr = p.errb
	if p.in, err = c.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	return p, c.Start()
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type crash struct {
	text    string
	timeout bool
}

// do executes one request; the worker process may die of it.
func (p *proc) do(q *request) (*Result, *crash) {
	b, _ := json.Marshal(q)
	tm := time.AfterFunc(runTimeout, func() { p.cmd.Process.Kill() })
	p.in.Write(append(b, '\n'))
	line, err := p.out.ReadBytes('\n')
	inTime := tm.Stop()
	if err == nil {
		var r Result
		if err = json.Unmarshal(line, &r); err == nil {
			return &r, nil
		}
	}
	p.cmd.Process.Kill()
	p.cmd.Wait()
	return nil, &crash{p.errb.String(), !inTime}
}

// fatalText extracts what a dying worker said.
func fatalText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return hexRE.ReplaceAllString(l, "#")
		}
	}
	return "the process died"
}

func hostTrouble(s string) bool {
	return strings.Contains(s, "simdisk: host failure") || strings.Contains(s, "bad trace") || strings.Contains(s, "worker:") || strings.Contains(s, "out of memory")
}

// pool executes requests in worker processes.
type pool struct {
	n     int
	procs chan *proc
}

func newPool(n int) *pool {
	p := &pool{n: n, procs: make(chan *proc, n)}
	for i := 0; i < n; i++ {
		p.procs <- nil
	}
	return p
}

func (p *pool) close() {
	for i := 0; i < p.n; i++ {
		if w := <-p.procs; w != nil {
			w.stop()
		}
	}
}

// do executes a request. A worker that dies is a failure of class "fatal"
// when it happens again in a fresh process.
func (p *pool) do(q *request) (*Result, error) {
	w := <-p.procs
	var err error
	var last *crash
	for try := 0; try < 2; try++ {
		if w == nil {
			if w, err = startProc(); err != nil {
				p.procs <- nil
				return nil, err
			}
		}
		r, c := w.do(q)
		if c == nil {
			p.procs <- w
			return r, nil
		}
		w, last = nil, c
		if c.timeout || hostTrouble(c.text) {
			break
		}
	}
	p.procs <- nil
	if last.timeout {
		return nil, fmt.Errorf("run %d of %s did not end within %v", q.Run, q.Prop, runTimeout)
	}
	if hostTrouble(last.text) {
		return nil, fmt.Errorf("run %d of %s: %s", q.Run, q.Prop, last.text)
	}
	return &Result{Run: q.Run, Fail: &Failure{"fatal", fatalText(last.text), -1}}, nil
}

type batch struct {
	prop    string
	tier    string
	seed    uint64
	runs    int
	wall    time.Duration // no new runs after this long
	results []*Result
	err     error
}

// execute runs all of the batch; of several failures the first run counts.
func (b *batch) execute(p *pool) {
	b.results = make([]*Result, b.runs)
	var next, firstFail int64 = 0, int64(b.runs)
	var mu sync.Mutex
	var wg sync.WaitGroup
	t0 := time.Now()
	// long runs first
	order := make([]int, 0, b.runs)
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < b.runs; i++ {
			long := i%64 == 13 || i%64 == 45 || i%128 == 77
			if long == (pass == 0) {
				order = append(order, i)
			}
		}
	}
	for k := 0; k < p.n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j := int(atomic.AddInt64(&next, 1)) - 1
				if j >= b.runs || time.Since(t0) > b.wall {
					return
				}
				i := order[j]
				if int64(i) > atomic.LoadInt64(&firstFail) {
					continue
				}
				r, err := p.do(&request{Prop: b.prop, Seed: b.seed, Run: i})
				if err != nil {
					mu.Lock()
					if b.err == nil {
						b.err = err
					}
					mu.Unlock()
					return
				}
				b.results[i] = r
				if r.Fail != nil {
					mu.Lock()
					if int64(i) < firstFail {
						atomic.StoreInt64(&firstFail, int64(i))
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
}

func (b *batch) firstFailure() *Result {
	for _, r := range b.results {
		if r != nil && r.Fail != nil {
			return r
		}
	}
	return nil
}

// runsFor is the fixed number of runs of a batch.
var quickRuns = map[string]int{
	"C01": 18000, "C02": 7000, "C03": 2500, "C04": 2500, "C05": 800, "C06": 2500, "C07": 2000,
	"C08": 5000, "C09": 2000, "C10": 3000, "C11": 10000, "C12": 2000, "C13": 6000, "C14": 6000,
	"C15": 3000, "C16": 1000, "C17": 3000, "C18": 2000, "C19": 1000, "C20": 400,
}

func runsFor(prop, tier string) int {
	n := quickRuns[prop]
	if n == 0 {
		n = 1000
	}
	if tier == "thorough" {
		n *= 30
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	return n
}

func workers() int {
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		return v
	}
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	return n
}

func checkMain(prop, tier string) int {
	t0 := time.Now()
	if tier != "quick" && tier != "thorough" {
		return usage()
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED is not an integer")
			return 2
		}
		seed = uint64(v)
	}
	loadFindings()
	fmt.Printf("seed=%d property=%s tier=%s\n", seed, prop, tier)
	p := newPool(workers())
	defer p.close()
	b := &batch{prop: prop, tier: tier, seed: seed, runs: runsFor(prop, tier), wall: 400 * time.Second}
	if tier == "thorough" {
		b.wall = 3 * time.Hour
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(filepath.Join(evDir, "replays"), 0o755)

	// committed traces first: the histories of known findings and of
	// earlier violations
	var corpus []*Result
	var corpusFail *Trace
	for _, f := range corpusFiles(prop) {
		t, err := readTrace(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return 2
		}
		r, err := p.do(&request{Prop: prop, Run: -1, Trace: t})
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		corpus = append(corpus, r)
		if r.Fail != nil && corpusFail == nil {
			corpusFail = t
			corpusFail.Note = "committed trace " + filepath.Base(f)
		}
	}
	var failT *Trace
	var fail *Failure
	if corpusFail != nil {
		failT = corpusFail
		for _, r := range corpus {
			if r.Fail != nil {
				fail = r.Fail
				break
			}
		}
	} else {
		b.execute(p)
		if r := b.firstFailure(); r != nil {
			fail = r.Fail
			failT = generate(prop, seed, r.Run)
		} else if b.err != nil {
			fmt.Fprintln(os.Stderr, "error:", b.err)
			return 2
		}
	}
	// determinism: some runs again, elsewhere
	again, differ := 0, 0
	if fail == nil {
		again, differ = b.repeat(p, 16)
		if differ > 0 {
			fmt.Printf("note: %d of %d repeated runs did not repeat exactly\n", differ, again)
		}
	}
	violations := 0
	if fail != nil {
		violations = 1
	}
	ev := b.evidence(corpus, again, differ, violations, time.Since(t0))
	if err := writeJSON(filepath.Join(evDir, prop+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if fail != nil {
		fmt.Printf("run %d (seed %d) fails: [%s] step %d: %s\n", failT.Run, seed, fail.Class, fail.Step, fail.Msg)
		path, err := report(p, failT, fail, evDir)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		ev.WallS = time.Since(t0).Seconds()
		writeJSON(filepath.Join(evDir, prop+".json"), ev)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	known := map[string]bool{}
	for _, r := range append(corpus, b.results...) {
		if r != nil {
			for _, k := range r.Known {
				known[k] = true
			}
		}
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, findingText[prop+"/"+k])
	}
	n := 0
	for _, r := range b.results {
		if r != nil {
			n++
		}
	}
	fmt.Printf("ok: %d runs, %.1fs\n", n, time.Since(t0).Seconds())
	return 0
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// repeat executes some runs of the batch a second time in fresh processes.
func (b *batch) repeat(p *pool, n int) (again, differ int) {
	q := newPool(3)
	defer q.close()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for j := 0; j < n; j++ {
		i := int(mix(b.seed, uint64(j)) % uint64(b.runs))
		if b.results[i] == nil {
			continue
		}
		if i%128 == 77 || i%64 == 13 { // the long ones
			i = (i + 1) % b.runs
			if b.results[i] == nil {
				continue
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := q.do(&request{Prop: b.prop, Seed: b.seed, Run: i})
			mu.Lock()
			defer mu.Unlock()
			again++
			if err != nil || r.Hash != b.results[i].Hash {
				differ++
			}
		}()
	}
	wg.Wait()
	return
}

// report minimises a failing trace, writes the replay file and replays it in
// a fresh process.
func report(p *pool, t *Trace, fail *Failure, evDir string) (string, error) {
	reproduced := false
	for i := 0; i < 6 && !reproduced; i++ {
		r, err := p.do(&request{Prop: t.Property, Run: t.Run, Trace: t})
		if err != nil {
			return "", err
		}
		reproduced = r.Fail != nil && r.Fail.Class == fail.Class
	}
	if !reproduced {
		return "", fmt.Errorf("the failure of run %d did not happen again: %s", t.Run, fail.Msg)
	}
	limit := 60 * time.Second
	full := len(t.Steps)
	m, f, n := minimise(p, t, fail, limit)
	m.Expect = f
	m.Note = strings.TrimSpace(fmt.Sprintf("%s minimised from %d to %d steps in %d executions", m.Note, full, len(m.Steps), n))
	path := filepath.Join(evDir, "replays", fmt.Sprintf("%s-%d-%d.json", t.Property, t.Seed, t.Run))
	if t.Run < 0 {
		path = filepath.Join(evDir, "replays", fmt.Sprintf("%s-corpus.json", t.Property))
	}
	if err := m.write(path); err != nil {
		return "", err
	}
	for i := 0; i < 5; i++ {
		q := newPool(1)
		r, err := q.do(&request{Prop: m.Property, Run: m.Run, Trace: m})
		q.close()
		if err != nil {
			return "", err
		}
		if r.Fail != nil && r.Fail.Class == f.Class {
			fmt.Printf("minimised to %d steps: [%s] step %d: %s\n", len(m.Steps), r.Fail.Class, r.Fail.Step, r.Fail.Msg)
			if rel, err := filepath.Rel(verifDir(), path); err == nil {
				return rel, nil
			}
			return path, nil
		}
	}
	return "", fmt.Errorf("the minimised trace %s does not fail again", path)
}

func replayMain(path string) int {
	t, err := readTrace(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadFindings()
	p := newPool(1)
	defer p.close()
	r, err := p.do(&request{Prop: t.Property, Run: t.Run, Trace: t})
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	for _, k := range r.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", t.Property, findingText[t.Property+"/"+k])
	}
	if r.Fail == nil {
		fmt.Println("the run does not fail")
		return 0
	}
	fmt.Printf("[%s] step %d: %s\n", r.Fail.Class, r.Fail.Step, r.Fail.Msg)
	if t.Expect != nil && *t.Expect != *r.Fail {
		fmt.Printf("(recorded: [%s] step %d: %s)\n", t.Expect.Class, t.Expect.Step, t.Expect.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", t.Property, path)
	return 1
}

func writeJSON(path string, v interface{}) error {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetIndent("", " ")
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return err
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}

func corpusFiles(prop string) []string {
	f, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", prop+"-*.json"))
	sort.Strings(f)
	return f
}

// findings

var findingText = map[string]string{}

// loadFindings reads the committed list of known findings:
//
//	finding: property=C16 id=NAME what fails
//	fixed: property=C02 COMMIT what failed
//
// Fixed entries suppress nothing.
func loadFindings() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		k := strings.TrimPrefix(f[1], "property=") + "/" + strings.TrimPrefix(f[2], "id=")
		if k == os.Getenv("SIM_UNLIST") {
			continue // to record a trace of it
		}
		knownFindings[k] = true
		findingText[k] = f[3]
	}
}

func selftestMain(a []string) int {
	runs := 40
	if len(a) > 0 {
		runs, _ = strconv.Atoi(a[0])
	}
	bad := 0
	for i := 1; i <= 19; i++ {
		prop := fmt.Sprintf("C%02d", i)
		var h [2][]*Result
		for k, n := range []int{8, 3} {
			p := newPool(n)
			b := &batch{prop: prop, seed: 7, runs: runs, wall: time.Hour}
			b.execute(p)
			p.close()
			if b.err != nil {
				fmt.Println(prop, b.err)
				bad++
			}
			h[k] = b.results
		}
		d := 0
		for j := range h[0] {
			if h[0][j] == nil || h[1][j] == nil || h[0][j].Hash != h[1][j].Hash {
				d++
			}
		}
		fmt.Printf("%s: %d runs twice, %d differ\n", prop, runs, d)
		bad += d
	}
	if bad > 0 {
		return 1
	}
	return 0
}
