// Package simrand stands in for the global source of package math/rand in the
// instrumented copy of plainkv: the numbers are those of the simulated machine.
package simrand

import (
	"math/rand"

	"github.com/roy2220/fsm/simdisk"
)

type source struct{}

func (source) Int63() int64    { return int64(simdisk.Cur.Random() >> 1) }
func (source) Uint64() uint64  { return simdisk.Cur.Random() }
func (source) Seed(seed int64) {}

var r = rand.New(source{})

func Int() int                        { return r.Int() }
func Intn(n int) int                  { return r.Intn(n) }
func Int31() int32                    { return r.Int31() }
func Int31n(n int32) int32            { return r.Int31n(n) }
func Int63() int64                    { return r.Int63() }
func Int63n(n int64) int64            { return r.Int63n(n) }
func Uint32() uint32                  { return r.Uint32() }
func Uint64() uint64                  { return r.Uint64() }
func Float32() float32                { return r.Float32() }
func Float64() float64                { return r.Float64() }
func Perm(n int) []int                { return r.Perm(n) }
func Shuffle(n int, f func(i, j int)) { r.Shuffle(n, f) }
func Read(b []byte) (int, error)      { return r.Read(b) }
func Seed(seed int64)                 {}
