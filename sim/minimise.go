package main

import (
	"sync"
	"time"

	"github.com/roy2220/fsm/simdisk"
)

// minimise shrinks a failing trace while it fails with the same class.
func minimise(p *pool, t *Trace, f *Failure, limit time.Duration) (*Trace, *Failure, int) {
	end := time.Now().Add(limit)
	best, bf, n := t.clone(), f, 0
	// try executes candidates in parallel and takes the first that fails
	try := func(c []*Trace) bool {
		for len(c) > 0 && time.Now().Before(end) {
			k := p.n
			if k > len(c) {
				k = len(c)
			}
			fl := make([]*Failure, k)
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					r, err := p.do(&request{Prop: t.Property, Run: t.Run, Trace: c[i]})
					if err == nil && r.Fail != nil && r.Fail.Class == f.Class {
						fl[i] = r.Fail
					}
				}(i)
			}
			wg.Wait()
			n += k
			for i := 0; i < k; i++ {
				if fl[i] != nil {
					best, bf = c[i], fl[i]
					return true
				}
			}
			c = c[k:]
		}
		return false
	}
	one := func(edit func(t *Trace)) bool {
		c := best.clone()
		edit(c)
		return try([]*Trace{c})
	}
	cut := func() {
		if bf.Step >= 0 && bf.Step+1 < len(best.Steps) {
			one(func(t *Trace) { t.Steps = t.Steps[:bf.Step+1] })
		}
	}
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		before := n
		size := cost(best)
		cut()
		if best.Buf != "" {
			one(func(t *Trace) { t.Buf = "" })
		}
		if best.Quiet {
			one(func(t *Trace) { t.Quiet = false })
		}
		// neutral storage
		if anyPlacement(best.Place) || best.Place.HighPad != nil {
			if !one(func(t *Trace) { t.Place = simdisk.Placement{} }) {
				for _, e := range []func(t *Trace){
					func(t *Trace) { t.Place.HighPad = nil }, func(t *Trace) { t.Place.Pads = 0 }, func(t *Trace) { t.Place.Slack = 0 },
					func(t *Trace) { t.Place.DirtyNew = 0 }, func(t *Trace) { t.Place.DirtyFree = 0 },
					func(t *Trace) { t.Place.MoveAlloc = 0 }, func(t *Trace) { t.Place.MoveFree = 0 },
				} {
					one(e)
				}
			}
		}
		// drop steps
		for chunk := len(best.Steps) / 2; chunk >= 1 && time.Now().Before(end); chunk /= 2 {
			for at := 0; at < len(best.Steps) && time.Now().Before(end); {
				var c []*Trace
				for i, o := 0, at; i < p.n && o < len(best.Steps); i, o = i+1, o+chunk {
					x := best.clone()
					e := o + chunk
					if e > len(x.Steps) {
						e = len(x.Steps)
					}
					x.Steps = append(x.Steps[:o:o], x.Steps[e:]...)
					if len(x.Steps) > 0 {
						c = append(c, x)
					}
				}
				was := len(best.Steps)
				if !try(c) {
					at += chunk * p.n
				} else if len(best.Steps) == was {
					break
				}
			}
		}
		cut()
		// shrink what steps do
		for i := 0; i < len(best.Steps) && time.Now().Before(end); i++ {
			for progress := true; progress && time.Now().Before(end); {
				progress = false
				var c []*Trace
				add := func(e func(s *Step)) {
					x := best.clone()
					e(&x.Steps[i])
					c = append(c, x)
				}
				s := &best.Steps[i]
				if s.Cnt > 1 {
					add(func(s *Step) { s.Cnt /= 2 })
					add(func(s *Step) { s.Cnt = s.Cnt * 3 / 4 })
					if s.Cnt < 400 {
						add(func(s *Step) { s.Cnt-- })
					}
				}
				if s.Fresh {
					add(func(s *Step) { s.Fresh = false })
				}
				if s.FS != 0 {
					add(func(s *Step) { s.FS = 0 })
				}
				if s.Order != "" && s.Order != "asc" {
					add(func(s *Step) { s.Order = "asc" })
				}
				if len(s.Kill)+len(s.KillIO)+len(s.KillMut) > 1 {
					for j := range s.Kill {
						j := j
						add(func(s *Step) { s.Kill, s.KillIO, s.KillMut = []int64{s.Kill[j]}, nil, nil })
					}
					for j := range s.KillIO {
						j := j
						add(func(s *Step) { s.KillIO, s.Kill, s.KillMut = []int64{s.KillIO[j]}, nil, nil })
					}
					for j := range s.KillMut {
						j := j
						add(func(s *Step) { s.KillMut, s.Kill, s.KillIO = [][2]int64{s.KillMut[j]}, nil, nil })
					}
				} else if len(s.Kill)+len(s.KillIO)+len(s.KillMut) == 1 {
					add(func(s *Step) { s.Kill, s.KillIO, s.KillMut = nil, nil, nil })
				}
				for k := range s.Tasks {
					k := k
					if n := len(s.Tasks[k]); n > 0 {
						add(func(s *Step) { s.Tasks[k] = s.Tasks[k][:n/2] })
						add(func(s *Step) { s.Tasks[k] = s.Tasks[k][n/2:] })
						for j := 0; j < n && n <= 8; j++ {
							j := j
							add(func(s *Step) { s.Tasks[k] = append(s.Tasks[k][:j:j], s.Tasks[k][j+1:]...) })
						}
					}
				}
				if n := len(s.Sched); n > 0 {
					add(func(s *Step) { s.Sched = s.Sched[:n/2] })
					add(func(s *Step) { s.Sched = s.Sched[:n-1] })
					for j := 0; j < n && n <= 16; j++ {
						j := j
						add(func(s *Step) { // merge two stretches
							g := s.Sched[j].Gap
							s.Sched = append(s.Sched[:j:j], s.Sched[j+1:]...)
							if j < len(s.Sched) {
								s.Sched[j].Gap += g
							}
						})
					}
				}
				if len(s.V) > 0 && s.V != "v:0:1" {
					add(func(s *Step) { s.V = "v:0:1" })
				}
				if len(c) > 0 {
					was := cost(best)
					if try(c) && cost(best) < was {
						progress = true
					}
				}
			}
		}
		// structures nobody uses
		if len(best.Structs) > 1 {
			for i := len(best.Structs) - 1; i > 0; i-- {
				used := false
				for j := range best.Steps {
					used = used || best.Steps[j].S >= i
					for _, tk := range best.Steps[j].Tasks {
						for k := range tk {
							used = used || tk[k].S >= i
						}
					}
				}
				if used {
					break
				}
				i := i
				one(func(t *Trace) { t.Structs = t.Structs[:i] })
			}
		}
		if cost(best) >= size || n == before {
			break
		}
	}
	return best, bf, n
}

// cost orders traces by how much there is in them.
func cost(t *Trace) int {
	n := len(t.Structs) * 3
	if anyPlacement(t.Place) || t.Place.HighPad != nil {
		n += 20
	}
	var steps func(s []Step)
	steps = func(s []Step) {
		for i := range s {
			n += 20 + s[i].Cnt + 2*len(s[i].Sched) + 2*len(s[i].Kill) + 2*len(s[i].KillIO) + 2*len(s[i].KillMut)
			if s[i].FS != 0 {
				n++
			}
			if s[i].V != "" && s[i].V != "v:0:1" {
				n++
			}
			if s[i].Order != "" && s[i].Order != "asc" {
				n++
			}
			for _, t := range s[i].Tasks {
				steps(t)
			}
		}
	}
	steps(t.Steps)
	return n
}
