// Package simhook is the seam between instrumented code and the simulator:
// the build inserts a call of Y or P before every statement of plainkv (and of
// the fsm internals), and the simulator decides what happens there - a
// goroutine switch, a process kill, or the end of an operation's step budget.
package simhook

import "math"

var (
	budget  int64 = math.MaxInt64
	armed   int64 = math.MaxInt64
	total   int64
	own     int64
	handler func()
	blocked func()
)

// Y is one simulated step.
func Y() {
	budget--
	if budget < 0 {
		expire()
	}
}

// P is one simulated step of plainkv itself.
func P() {
	own++
	budget--
	if budget < 0 {
		expire()
	}
}

// Own returns the number of steps of plainkv itself since process start.
func Own() int64 { return own }

func expire() {
	total += armed - budget
	armed, budget = math.MaxInt64, math.MaxInt64
	if handler != nil {
		handler()
	}
}

// Arm makes the n-th next step call f; f may arm again.
func Arm(n int64, f func()) {
	total += armed - budget
	if n < 1 {
		n = 1
	}
	armed, budget, handler = n-1, n-1, f
}

// Disarm lets steps pass freely.
func Disarm() {
	total += armed - budget
	armed, budget, handler = math.MaxInt64, math.MaxInt64, nil
}

// Steps returns the number of steps since process start.
func Steps() int64 { return total + armed - budget }

// OnBlock sets what a task that cannot proceed (a held lock) calls.
func OnBlock(f func()) { blocked = f }

// Block is called by simsync when the running task must wait.
func Block() {
	if blocked == nil {
		panic("simhook: self-deadlock: the only running task waits for a lock it can never get")
	}
	blocked()
}
