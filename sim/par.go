package main

import (
	"fmt"
	"runtime/debug"

	"github.com/roy2220/fsm/simhook"
)

// task is one simulated goroutine. Exactly one runs at any moment; the others
// are parked on their channels.
type task struct {
	id    int
	steps []Step
	wake  chan struct{}
	done  bool
	fl    *Failure
}

type scheduler struct {
	x       *Exec
	tasks   []*task
	cur     int
	sched   []Switch
	next    int
	left    int64
	blocked int
	finish  chan struct{}
	budget  int64
	bad     *Failure
}

// arm lets the running task go on until the next switch.
func (sc *scheduler) arm() {
	if sc.next < len(sc.sched) {
		simhook.Arm(sc.sched[sc.next].Gap, sc.expire)
		return
	}
	simhook.Arm(opSteps*4+sc.x.dataSteps(), func() { panic(hang{}) })
}

// expire is called in the running task at a switch point.
func (sc *scheduler) expire() {
	sc.blocked = 0
	to := sc.sched[sc.next].To % len(sc.tasks)
	sc.next++
	sc.switchTo(to)
}

// pick returns a task that is not done, from n on.
func (sc *scheduler) pick(n int) int {
	for i := 0; i < len(sc.tasks); i++ {
		if t := (n + i) % len(sc.tasks); !sc.tasks[t].done {
			return t
		}
	}
	return -1
}

func (sc *scheduler) switchTo(to int) {
	me := sc.cur
	to = sc.pick(to)
	if to == me {
		sc.arm()
		return
	}
	sc.x.res.Faults["switch"]++
	sc.cur = to
	sc.arm()
	sc.tasks[to].wake <- struct{}{}
	<-sc.tasks[me].wake
}

// block is called by a task that waits for a lock.
func (sc *scheduler) block() {
	sc.blocked++
	if sc.blocked > 4*len(sc.tasks)+4 {
		panic("deadlock: every task waits for a lock")
	}
	me := sc.cur
	to := sc.pick(me + 1)
	if to == me || to < 0 {
		panic("deadlock: the only running task waits for a lock it can never get")
	}
	sc.x.res.Faults["lock-wait"]++
	sc.cur = to
	sc.tasks[to].wake <- struct{}{}
	<-sc.tasks[me].wake
}

func (sc *scheduler) runTask(t *task) {
	<-t.wake
	debug.SetPanicOnFault(true)
	x := sc.x
	defer func() {
		if r := recover(); r != nil {
			if _, isHang := r.(hang); isHang {
				x.failf("hang", "the tasks make no progress")
			} else {
				class, text := panicText(r)
				x.failf(class, "task %d: %s", t.id, text)
			}
		}
		t.done = true
		to := sc.pick(t.id + 1)
		if to < 0 {
			simhook.Disarm()
			sc.finish <- struct{}{}
			return
		}
		sc.cur = to
		sc.arm()
		sc.tasks[to].wake <- struct{}{}
	}()
	for i := range t.steps {
		if x.fail != nil {
			return
		}
		sc.blocked = 0
		st := &t.steps[i]
		s := x.at(st)
		if s.file != nil {
			s.file.Active, s.file.RNG.S = st.FS != 0, st.FS
		}
		x.fsSeed = st.FS
		x.apply(st, s)
	}
}

// par runs tasks concurrently under the trace's schedule.
func (x *Exec) par(st *Step) {
	if len(st.Tasks) == 0 {
		return
	}
	sc := &scheduler{x: x, sched: st.Sched, finish: make(chan struct{})}
	for i, steps := range st.Tasks {
		t := &task{id: i, steps: steps, wake: make(chan struct{})}
		sc.tasks = append(sc.tasks, t)
		go sc.runTask(t)
	}
	x.inTask = true
	simhook.OnBlock(sc.block)
	sc.arm()
	sc.tasks[0].wake <- struct{}{}
	<-sc.finish
	simhook.OnBlock(nil)
	x.inTask = false
	x.probe("par")
	x.probe(fmt.Sprintf("par_tasks_%d", len(st.Tasks)))
}
