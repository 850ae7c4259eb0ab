// Command fnvcollide searches pairs of 8-byte strings with equal 64-bit
// FNV-1a hashes (van Oorschot-Wiener distinguished points). Offline tool; its
// result is the table collisionPairs in sim/bytes.go.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"strconv"
	"sync"
)

func f(x uint64) uint64 { // hash of the 8 bytes of x, as 8 bytes
	h := uint64(14695981039346656037)
	for i := 0; i < 8; i++ {
		h ^= x >> (8 * uint(i)) & 0xff
		h *= 1099511628211
	}
	return h
}

const dpBits = 20

type trail struct {
	start uint64
	n     uint64
}

func main() {
	want, _ := strconv.Atoi(os.Args[1])
	var mu sync.Mutex
	dps := map[uint64]trail{}
	found := 0
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g uint64) {
			defer wg.Done()
			seed := g<<56 + 12345
			for {
				seed++
				x := f(seed)
				s := x
				n := uint64(0)
				for x>>(64-dpBits) != 0 && n < 20<<dpBits {
					x = f(x)
					n++
				}
				if x>>(64-dpBits) != 0 {
					continue
				}
				mu.Lock()
				if found >= want {
					mu.Unlock()
					return
				}
				o, ok := dps[x]
				dps[x] = trail{s, n}
				mu.Unlock()
				if !ok || o.start == s {
					continue
				}
				a, an, b, bn := o.start, o.n, s, n
				for an > bn {
					a = f(a)
					an--
				}
				for bn > an {
					b = f(b)
					bn--
				}
				if a == b {
					continue
				}
				for f(a) != f(b) {
					a, b = f(a), f(b)
				}
				var p, q [8]byte
				binary.LittleEndian.PutUint64(p[:], a)
				binary.LittleEndian.PutUint64(q[:], b)
				mu.Lock()
				if found < want {
					fmt.Printf("\t{%q, %q},\n", p[:], q[:])
					found++
				}
				mu.Unlock()
			}
		}(uint64(g))
	}
	wg.Wait()
}
