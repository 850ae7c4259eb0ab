// Package simtime stands in for the clock of package time in the instrumented
// copy of plainkv: time is the number of simulated steps, sleeping is waiting.
package simtime

import (
	"time"

	"github.com/roy2220/fsm/simhook"
)

var slept time.Duration

func Now() time.Time {
	simhook.Y()
	return time.Unix(1600000000, 0).UTC().Add(slept + time.Duration(simhook.Steps())*100)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if d > 0 {
		slept += d
	}
	simhook.Y()
}
