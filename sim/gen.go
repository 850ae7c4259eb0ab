package main

import (
	"fmt"

	"github.com/roy2220/fsm/simdisk"
)

// universe is the set of keys a run works with: families of byte strings
// with lengths of a few classes, so that operations meet the same keys again.
type universe struct {
	fams []string
	n    int
	lens []int // classes
	seed uint64
}

func (u *universe) key(i int) string {
	i %= u.n
	h := mix(u.seed, uint64(i))
	f := u.fams[int(h%uint64(len(u.fams)))]
	l := u.length(h >> 8)
	if f == "t" || f == "s" || f == "z" {
		if l < 3 {
			l = 3
		}
	}
	n := i
	if f == "x" {
		n, l = i%8, (i/8)%300
	}
	return spec(f, uint64(n), l)
}

func (u *universe) length(h uint64) int {
	c := u.lens[int(h%uint64(len(u.lens)))]
	if c < 0 {
		return int((h >> 16) % uint64(-c))
	}
	return c
}

type gen struct {
	fresh map[int]bool // steps that certainly begin another process
	r     rng
	t     *Trace
	prop  string
	u     *universe
	vlens []int
	fsOn  bool
	fsPer int
	deep  bool
	big   bool
}

func (g *gen) add(s Step) {
	if g.fsOn && s.FS == 0 && g.r.Per(g.fsPer) {
		s.FS = g.r.Next() | 1
	}
	g.t.Steps = append(g.t.Steps, s)
}

func (g *gen) pick(a ...string) string { return a[g.r.Intn(len(a))] }

// classes of key and value lengths; negative: uniform below.
var (
	treeKeyLens = [][]int{{-12, 6}, {8}, {-40}, {100, -200}, {248, 249, 250, 251}, {255, 256, 257, 258}, {-300}, {256, -260}, {257, 300, -1200}, {240}, {250, 256, 257, 6}, {3000, -600}}
	valueLens   = [][]int{{0, 1, -8}, {-40}, {-140}, {120, 121, 122, 128, 129, 130}, {128, -130}, {129, 200, -900}, {0}, {128}, {-3000}, {1, 128, 129, 4000}}
	mapKeyLens  = [][]int{{-12, 6}, {8}, {23, 24, 25, 26}, {24}, {25}, {-40}, {-60, 24, 25}, {100}, {-300}, {3000, -600}}
	hugeLens    = []int{4095, 4096, 8192, 16383, 16384, 16385, 65500, 65535, 65536, 70000, 300000, 1 << 20, 1<<21 - 1}
)

func (g *gen) newUniverse(kind string, n int) {
	u := &universe{n: n, seed: g.r.Next()}
	all := []string{"r", "z", "s", "t", "r", "z", "o"}
	if ordered(kind) {
		all = append(all, "w", "x", "b", "m")
		u.lens = treeKeyLens[g.r.Intn(len(treeKeyLens))]
	} else {
		if n <= 800 {
			all = append(all, "l", "c", "x")
		}
		u.lens = mapKeyLens[g.r.Intn(len(mapKeyLens))]
	}
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		u.fams = append(u.fams, all[g.r.Intn(len(all))])
	}
	for _, f := range u.fams {
		if f == "w" {
			u.lens = []int{256, 257, 258, 300, -600, 1000}
		}
	}
	// keys of random families need room to be different
	g.u = u
	g.vlens = valueLens[g.r.Intn(len(valueLens))]
}

func (g *gen) hugeLen() int {
	i := g.r.Intn(len(hugeLens) + 1)
	switch {
	case i < len(hugeLens):
		return hugeLens[i]
	case g.r.Intn(4) == 0:
		return 1<<24 + 1000
	}
	return 1<<21 + g.r.Intn(300)
}

func (g *gen) value() string {
	n := g.r.Next()
	l := 0
	if g.big && g.r.Intn(60) == 0 {
		l = g.hugeLen()
	} else {
		c := g.vlens[g.r.Intn(len(g.vlens))]
		if c < 0 {
			l = g.r.Intn(-c)
		} else {
			l = c
		}
	}
	if n>>40%24 == 0 {
		return spec("y", n%100000, l)
	}
	if k := n >> 40 % 24; k < 6 {
		return spec([]string{"", "z", "s", "o", "z", "o"}[k], n%1000, l)
	}
	return spec("v", n%100000, l)
}

func (g *gen) key() string {
	if g.big && g.r.Intn(150) == 0 {
		return spec("r", g.r.Next()%4, g.hugeLen())
	}
	return g.u.key(g.r.Intn(g.u.n))
}

// placement chooses what the storage may do in this run.
func (g *gen) placement(force bool) {
	if !force && g.r.Intn(5) < 2 {
		return
	}
	p := &g.t.Place
	rate := []int{5, 50, 200, 500, 1000}
	for _, f := range []*int{&p.MoveAlloc, &p.MoveFree, &p.DirtyNew, &p.DirtyFree, &p.Slack} {
		if g.r.Intn(3) > 0 {
			*f = rate[g.r.Intn(len(rate))]
		}
	}
	if g.r.Intn(4) == 0 {
		p.Pads = 5
	}
	g.fsOn = true
	g.fsPer = []int{1000, 1000, 300}[g.r.Intn(3)]
}

// op is one point operation.
func (g *gen) op(s int, wSet, wClear int) {
	st := Step{S: s, K: g.key(), R: g.r.Intn(2) == 0, Seed: g.r.Next() & 1}
	switch w := g.r.Intn(wSet + wClear + 4); {
	case w < wSet:
		st.Op = []string{"set", "set", "setnx", "setx"}[g.r.Intn(4)]
		st.V = g.value()
	case w < wSet+wClear:
		st.Op = "clear"
	default:
		st.Op = "test"
	}
	g.add(st)
}

func (g *gen) fillStep(s, n int) Step {
	fam := g.u.fams[g.r.Intn(len(g.u.fams))]
	switch fam {
	case "x", "b", "m":
		fam = "r"
	}
	l := g.u.lens[g.r.Intn(len(g.u.lens))]
	if l > 0 && l < 6 || l < 0 && l > -6 {
		l = 8
	}
	if l < 0 {
		l = l - 5
	}
	if fam == "w" && l < 260 {
		l = 260
	}
	if fam == "l" && n > 300 {
		n = 300
	}
	v := g.vlens[g.r.Intn(len(g.vlens))]
	return Step{Op: "fill", S: s, Fam: fam, N0: uint64(g.r.Intn(3) * 1000), Cnt: n, Len: l, VLen: v, Order: g.pick("asc", "desc", "rand", "rand", "ends", "mid"), Seed: g.r.Next() % 1000}
}

func (g *gen) fill(s, n int) { g.add(g.fillStep(s, n)) }

func (g *gen) sweep(s int, what string) {
	st := Step{Op: "sweep", S: s, K: what, Mod: 2 + g.r.Intn(9), N0: g.r.Next() % 1000, Order: g.pick("asc", "desc", "rand", "ends"), Seed: g.r.Next() % 1000}
	st.Rem = 1 + g.r.Intn(st.Mod)
	st.Fam = g.pick("", "", "block", "keepblock")
	if st.Fam != "" {
		st.Rem = g.r.Intn(st.Mod)
	}
	st.VLen = g.vlens[g.r.Intn(len(g.vlens))]
	if what == "set" && g.r.Intn(3) == 0 {
		st.VLen = []int{0, 128, 129, 1}[g.r.Intn(4)]
	}
	g.add(st)
}

// churn is a random walk of the number of records over a universe of its own.
func (g *gen) churn(s, n int) {
	fam := "r"
	lens := g.u.lens
	if g.r.Intn(2) == 0 {
		// short and long keys: what a separator takes in a page changes a lot
		lens = [][]int{{-6, 240, 254}, {1, 254}, {-7, 200, 252, -255}, {4, 247, 300}, {2, 2, 2, 250}}[g.r.Intn(5)]
	} else if g.r.Intn(3) == 0 {
		fam = "s"
	}
	vlens := g.vlens
	if g.r.Intn(2) == 0 {
		vlens = [][]int{{-129}, {0}, {128, 0}, {128}, {-20}}[g.r.Intn(5)]
	}
	st := Step{Op: "churn", S: s, Fam: fam, N0: g.r.Next() % 100000, Mod: n + g.r.Intn(n+1), Lens: lens, VLens: vlens}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		st.Seed = g.r.Next() % 100000
		st.Cnt = 1 + n/2 + g.r.Intn(n)
		st.Rem = []int{95, 85, 60, 50, 40, 30, 15}[g.r.Intn(7)]
		if i > 1 && g.r.Intn(2) == 0 {
			st.Rem = 90
		}
		g.add(st)
	}
}

func (g *gen) drain(s int) {
	g.add(Step{Op: "drain", S: s, Order: g.pick("asc", "desc", "rand", "ends", "mid"), Seed: g.r.Next() % 1000})
}

func (g *gen) verify(s int) { g.add(Step{Op: "verify", S: s, Seed: g.r.Next() % 1000}) }

func (g *gen) reopen(s int) { g.add(Step{Op: "reopen", S: s}) }

// history is a swarm of phases on one structure; extra adds the property's
// own steps between them.
func (g *gen) history(s, budget int, reopens bool, extra func()) {
	for budget > 0 {
		n := 1 + g.r.Intn(budget/2+10)
		switch k := g.r.Intn(14); {
		case k >= 12:
			if n < 3000 {
				g.churn(s, n)
				budget -= 2 * n
			}
			budget -= 10
		case k < 3:
			g.fill(s, n)
			budget -= n
		case k < 7:
			a, b := 1+g.r.Intn(12), 1+g.r.Intn(8)
			if n > 300 {
				n = 300
			}
			for i := 0; i < n; i++ {
				g.op(s, a, b)
				if extra != nil && g.r.Intn(60) == 0 {
					extra()
				}
			}
			budget -= n
		case k < 8:
			g.sweep(s, "clear")
			budget -= 50
		case k < 9:
			g.sweep(s, "set")
			budget -= 100
		case k < 10:
			if g.r.Intn(3) == 0 {
				g.drain(s)
			}
			budget -= 10
		default:
			if reopens {
				g.reopen(s)
			}
			budget -= 10
		}
		if extra != nil {
			extra()
		}
	}
}

func kindFor(prop string, r *rng) string {
	switch prop {
	case "C01", "C02", "C03", "C11", "C13":
		return "od"
	case "C04", "C05", "C06", "C12":
		return "d"
	}
	if r.Intn(2) == 0 {
		return "od"
	}
	return "d"
}

// oraclesFor tells what a property's runs look at.
func oraclesFor(prop string) oracles {
	switch prop {
	case "C01", "C04":
		return oracles{point: true}
	case "C02":
		return oracles{rng: true}
	case "C03", "C06":
		return oracles{contents: true, reopen: true}
	case "C05":
		return oracles{scan: true}
	case "C07":
		return oracles{point: true, contents: true, rng: true, scan: true, reopen: true}
	case "C08":
		return oracles{buffers: true, point: true, contents: true, rng: true, scan: true}
	case "C09":
		return oracles{space: true}
	case "C10":
		return oracles{stats: true, reopen: true}
	case "C11":
		return oracles{balance: true}
	case "C12":
		return oracles{table: true}
	case "C13":
		return oracles{iter: true}
	case "C14":
		return oracles{}
	case "C15":
		return oracles{point: true, contents: true, rng: true, scan: true}
	case "C16":
		return oracles{}
	case "C17":
		return oracles{point: true, contents: true, reopen: true}
	case "C18":
		return oracles{point: true, contents: true, rng: true, scan: true, reopen: true}
	case "C19":
		return oracles{}
	case "C20":
		return oracles{cost: true}
	}
	panic("bad trace: property " + prop)
}

func generate(prop string, seed uint64, run int) *Trace {
	g := &gen{prop: prop, t: &Trace{Property: prop, Seed: seed, Run: run}}
	g.r.S = mix(mix(seed, uint64(run)), hashBytes([]byte(prop)))
	g.r.Next()
	kind := kindFor(prop, &g.r)
	g.t.Structs = []StructDef{{kind, "db"}}
	// sizes are stratified by run number so that every batch has all of them
	size := []int{40, 150, 400, 1000, 400, 150, 1500, 700}[run%8]
	switch run % 64 {
	case 13:
		size = 9000
		g.t.Kind = "large"
	case 45:
		size = 4000
	}
	huge := run%128 == 77 && (!ordered(kind) || run%512 == 77)
	g.newUniverse(kind, 1+g.r.Intn(size))
	g.big = run%5 == 1
	switch prop {
	case "C01", "C02", "C04", "C08":
		if g.r.Intn(3) == 0 {
			g.t.Buf = "reuse"
		}
	}
	switch prop {
	case "C01", "C04":
		g.placement(false)
		if kind == "od" && run%9 == 4 {
			g.pries(0, size)
			break
		}
		if huge {
			g.huge(0)
			break
		}
		g.history(0, size, true, func() {
			if g.r.Intn(6) == 0 {
				g.verify(0)
			}
		})
		g.verify(0)
	case "C02":
		g.placement(false)
		if kind == "od" && run%9 == 4 {
			g.pries(0, size)
			g.add(Step{Op: "ranges", S: 0, Seed: g.r.Next() % 100000, Cnt: 12})
			break
		}
		q := func() { g.add(Step{Op: "ranges", S: 0, Seed: g.r.Next() % 100000, Cnt: 1 + g.r.Intn(12)}) }
		g.history(0, size, run%3 == 0, q)
		q()
		g.verify(0)
	case "C03", "C06":
		g.placement(false)
		if run%50 == 9 {
			g.often(0, 260+g.r.Intn(40))
			break
		}
		if huge {
			g.huge(0)
			break
		}
		for n := 1 + g.r.Intn(5); n > 0; n-- {
			if g.r.Intn(5) > 0 {
				g.history(0, size/2, true, nil)
			}
			for c := 1 + g.r.Intn(3); c > 0; c-- {
				g.reopen(0)
			}
			g.verify(0)
		}
		if run%4 == 3 {
			g.add(Step{Op: "otherproc", S: 0})
			g.verify(0)
		}
	case "C05":
		g.placement(false)
		if huge {
			g.scans(40000)
			break
		}
		g.scans(size)
	case "C07":
		g.placement(true)
		if run%6 == 2 && kind == "od" || run%12 == 3 {
			g.t.Kind = "beyond 4 GiB"
			g.t.Place.HighPad = [][]int64{{4 << 30}, {4 << 30, 2 << 30}, {4 << 30, 2 << 30, 1 << 30}, {4 << 30, 4 << 30}, {4 << 30, 4 << 30, 4 << 30}}[g.r.Intn(5)]
		}
		if huge {
			g.huge(0)
			break
		}
		if kind == "od" && run%9 == 4 {
			g.pries(0, size)
			break
		}
		if g.t.Place.HighPad != nil && g.r.Intn(2) == 0 {
			g.fill(0, size/2)
			for i := 1 + g.r.Intn(3); i > 0; i-- {
				g.churn(0, 300+size/2)
				g.reopen(0)
			}
			g.verify(0)
			break
		}
		g.history(0, size, true, func() {
			switch g.r.Intn(12) {
			case 0:
				g.verify(0)
			case 1:
				if ordered(kind) {
					g.add(Step{Op: "iters", Seed: g.r.Next() % 100000})
				}
			}
		})
		g.verify(0)
	case "C08":
		g.placement(false)
		g.history(0, size, true, func() {
			switch k := g.r.Intn(6); {
			case k == 0:
				g.verify(0)
			case k == 1 && ordered(kind):
				g.add(Step{Op: "ranges", Seed: g.r.Next() % 100000, Cnt: 3})
			case k == 2 && ordered(kind):
				g.add(Step{Op: "iters", Seed: g.r.Next() % 100000, Max: 20})
			case k == 1:
				if g.r.Intn(2) == 0 {
					g.add(Step{Op: "scanopen"})
				}
				g.add(Step{Op: "scanstep", N0: uint64(g.r.Intn(4)), Cnt: 1 + g.r.Intn(20)})
			}
		})
		g.add(Step{Op: "close"})
		g.verify(0)
	case "C09":
		g.placement(false)
		if huge {
			g.huge(0)
			g.drain(0)
			break
		}
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			g.history(0, size/2+20, true, nil)
			if g.r.Intn(3) > 0 {
				for c := g.r.Intn(6); c > 0; c-- {
					g.reopen(0)
				}
			}
			g.drain(0)
		}
		g.reopen(0)
		g.drain(0)
	case "C10":
		g.placement(false)
		if kind == "od" && run%9 == 4 {
			g.pries(0, size)
			break
		}
		if huge {
			g.huge(0)
			break
		}
		g.history(0, size, true, func() {
			if g.r.Intn(8) == 0 {
				g.add(Step{Op: "walk"})
			}
		})
		g.add(Step{Op: "walk"})
		g.reopen(0)
	case "C11":
		if kind == "od" && run%3 == 1 {
			g.placement(false)
			g.pries(0, size)
			g.drain(0)
			break
		}
		g.balance(size)
	case "C12":
		g.placement(false)
		if huge {
			g.huge(0)
			g.drain(0)
			break
		}
		g.history(0, size, true, nil)
		g.drain(0)
	case "C13":
		g.placement(false)
		g.history(0, size, false, func() {
			if g.r.Intn(3) > 0 {
				g.add(Step{Op: "iters", Seed: g.r.Next() % 100000, Max: 30 + g.r.Intn(200)})
			}
		})
		g.add(Step{Op: "iters", Seed: g.r.Next() % 100000})
	case "C14":
		g.ioFaults(kind, size)
	case "C15":
		g.parallel(run)
	case "C16":
		g.kills(kind, size)
	case "C17":
		g.upgrades(size, huge)
	case "C18":
		g.shared(size)
	case "C19":
		g.dumps(size)
	case "C20":
		g.costs(run)
	default:
		panic("bad trace: property " + prop)
	}
	g.t.Quiet = prop != "C20" && mix(mix(seed, uint64(run)), 77)%6 == 0
	for i := range g.t.Steps {
		g.t.Steps[i].Fresh = mix(mix(seed, uint64(run)), uint64(i))&1 == 0 || g.fresh[i]
	}
	return g.t
}

// huge takes a dictionary through several directory table sizes and back.
func (g *gen) huge(s int) {
	g.t.Kind = "huge"
	g.vlens = []int{0, -6}
	n := 56000 + g.r.Intn(30000)
	st := Step{Op: "fill", S: s, Fam: g.pick("s", "r", "t"), Cnt: n, Len: 8, VLen: -4, Order: g.pick("asc", "rand"), Seed: g.r.Next() % 1000}
	if ordered(g.t.Structs[s].Kind) && g.r.Intn(2) == 0 {
		// a high tree
		st.Cnt, st.Len, st.Fam, st.Order = 9000+g.r.Intn(12000), []int{240, 250, 254, 260}[g.r.Intn(4)], g.pick("r", "s", "t"), g.pick("asc", "desc", "rand")
	}
	// in parts, so that sessions begin at any size
	all := st.Cnt
	for done := 0; done < all; done += st.Cnt {
		st.N0, st.Cnt = uint64(done), all-done
		if g.r.Intn(3) > 0 {
			st.Cnt = 1 + g.r.Intn(all-done)
		}
		g.add(st)
		if g.r.Intn(2) == 0 {
			g.reopen(s)
		}
	}
	for i := 0; i < 30; i++ {
		g.op(s, 5, 3)
	}
	g.verify(s)
	g.add(Step{Op: "sweep", S: s, K: "clear", Mod: 10, Rem: 5 + g.r.Intn(5), Order: g.pick("asc", "rand")})
	if g.r.Intn(2) == 0 {
		g.reopen(s)
	}
	if g.r.Intn(3) == 0 {
		st.N0, st.Cnt = 0, all*2/3+g.r.Intn(all/3)
		g.add(st)
	}
	g.verify(s)
}

// pries builds a tree of some height and works on its nodes' lines.
func (g *gen) pries(s, size int) {
	l := [][]int{{-250}, {250, 256, 257}, {-20}, {100, -200}, {8, 256}, {257, -30}, {240}}[g.r.Intn(7)]
	g.u.lens, g.u.fams = l, []string{g.pick("r", "z", "s", "r")}
	g.vlens = [][]int{{-128}, {128}, {0}, {128, 0, -40}}[g.r.Intn(4)]
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		g.fill(s, 100+size+g.r.Intn(200+size))
	}
	if g.r.Intn(3) == 0 {
		g.churn(s, size)
	}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		g.add(Step{Op: "pry", S: s, Seed: g.r.Next() % 1000000, Cnt: 3 + g.r.Intn(12)})
		switch g.r.Intn(5) {
		case 0:
			g.sweep(s, "clear")
		case 1:
			g.add(Step{Op: "walk", S: s})
		case 2:
			g.verify(s)
		}
	}
	g.add(Step{Op: "walk", S: s})
	g.verify(s)
}

// often has very many sessions.
func (g *gen) often(s, n int) {
	g.t.Kind = "many sessions"
	g.fill(s, 1+g.r.Intn(60))
	for i := 0; i < n; i++ {
		g.reopen(s)
		if g.r.Intn(3) == 0 {
			g.op(s, 3, 2)
		}
	}
	g.verify(s)
}

func (g *gen) scans(size int) {
	s := 0
	open := func() { g.add(Step{Op: "scanopen"}) }
	step := func() {
		n := 1 + g.r.Intn(30)
		switch g.r.Intn(6) {
		case 0:
			n = 1 + g.r.Intn(size+1)
		case 1:
			n = 1
		}
		g.add(Step{Op: "scanstep", N0: uint64(g.r.Intn(3)), Cnt: n})
	}
	grow := g.r.Intn(3) > 0 // most runs never remove while scanning
	if g.r.Intn(6) > 0 {
		g.fill(s, 1+g.r.Intn(size))
	}
	if g.r.Intn(3) == 0 {
		g.sweep(s, "clear")
	}
	g.verify(s)
	open()
	for n := 20 + g.r.Intn(40); n > 0; n-- {
		switch k := g.r.Intn(10); {
		case k < 4:
			step()
		case k < 5:
			open()
		case k < 7:
			g.fill(s, 1+g.r.Intn(size/3+2))
		case k < 8:
			if grow {
				g.sweep(s, "set")
			} else {
				g.sweep(s, "clear")
			}
		default:
			for i := 0; i < 10; i++ {
				if grow {
					g.op(s, 8, 0)
				} else {
					g.op(s, 5, 6)
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		g.add(Step{Op: "scanstep", N0: uint64(i)})
	}
	g.verify(s)
}

func (g *gen) balance(size int) {
	g.placement(false)
	if g.r.Intn(2) == 0 {
		g.u.lens = []int{200, 256, -256}
	}
	switch g.r.Intn(4) {
	case 0: // grow one way, shrink another
		g.fill(0, size*2)
		g.add(Step{Op: "walk"})
		for i := 1 + g.r.Intn(4); i > 0; i-- {
			g.sweep(0, "clear")
			g.add(Step{Op: "walk"})
		}
	case 1: // values shrink and grow
		g.vlens = []int{128, -129}
		g.fill(0, size)
		for i := 1 + g.r.Intn(4); i > 0; i-- {
			g.add(Step{Op: "sweep", K: "set", Mod: 5, Rem: 1 + g.r.Intn(5), VLen: []int{0, 128, -20}[g.r.Intn(3)], Order: g.pick("asc", "desc", "rand")})
			g.add(Step{Op: "walk"})
		}
	case 2: // a moving window of keys
		l := 100 + g.r.Intn(150)
		n := 0
		for i := 0; i < 8; i++ {
			c := 1 + g.r.Intn(size/4+10)
			g.add(Step{Op: "fill", Fam: "s", N0: uint64(n), Cnt: c, Len: l, VLen: -100, Order: "asc"})
			n += c
			g.add(Step{Op: "sweep", K: "clear", Fam: g.pick("block", "keepblock"), Mod: 3, Rem: 0, Order: "asc"})
		}
		g.add(Step{Op: "walk"})
	default:
		g.history(0, size, true, func() {
			if g.r.Intn(8) == 0 {
				g.add(Step{Op: "walk"})
			}
		})
	}
	if g.r.Intn(2) == 0 {
		g.add(Step{Op: "sweep", K: "clear", Mod: 20, Rem: 19, Order: g.pick("asc", "desc", "rand")})
		g.add(Step{Op: "walk"})
	}
	g.drain(0)
}

const (
	eIO     = 5
	eNOMEM  = 12
	eACCES  = 13
	eNOSPC  = 28
	eMFILE  = 24
	eINTR   = 4
	eROFS   = 30
	eDQUOT  = 122
	eFBIG   = 27
	eAGAIN  = 11
	eNODEV  = 19
	eINVAL  = 22
	eBADF   = 9
	eTXTBSY = 26
)

func (g *gen) fault(kind string, maxNth int) simdisk.IOFault {
	f := simdisk.IOFault{Kind: kind, Nth: g.r.Intn(maxNth)}
	var e []int
	switch kind {
	case "open", "create":
		e = []int{eACCES, eMFILE, eIO, eROFS, eINTR, eNOSPC}
	case "read":
		e = []int{eIO, eINTR, eAGAIN}
		f.Partial = g.r.Intn(2) * g.r.Intn(5000)
	case "write":
		e = []int{eNOSPC, eIO, eDQUOT, eFBIG}
		f.Partial = g.r.Intn(2) * g.r.Intn(5000)
	case "trunc", "grow", "alloc":
		e = []int{eFBIG, eNOSPC, eIO, eINVAL, eROFS}
	case "mmap", "growmap":
		e = []int{eNOMEM, eAGAIN, eNODEV}
	case "munmap":
		e = []int{eINVAL, eNOMEM}
	default:
		e = []int{eIO, eINTR, eNOSPC}
	}
	f.Errno = e[g.r.Intn(len(e))]
	f.Repeat = g.r.Intn(4) == 0
	return f
}

func (g *gen) ioFaults(kind string, size int) {
	if g.r.Intn(3) == 0 {
		g.placement(false)
	}
	if g.r.Intn(4) > 0 {
		g.history(0, size/3+5, true, nil)
	}
	for n := 1 + g.r.Intn(5); n > 0; n-- {
		switch k := g.r.Intn(10); {
		case k < 4:
			g.add(Step{Op: "openio", Seed: g.r.Next() % 1000, IO: []simdisk.IOFault{g.fault(g.pick("open", "create", "read", "read", "trunc", "mmap", "munmap", "write", "grow", "growmap"), 3)}})
		case k < 6:
			g.add(Step{Op: "closeio", IO: []simdisk.IOFault{g.fault(g.pick("write", "write", "munmap", "close", "trunc", "mmap", "sync", "alloc", "grow"), 3)}})
		case k < 8:
			st := g.fillStep(0, 50+g.r.Intn(500))
			st.Op = "opio"
			if st.Len < 0 {
				st.Len = 30
			}
			st.VLen = []int{100, 3000, 20000, 100000}[g.r.Intn(4)]
			st.Cnt = 1 + 4000000/(st.VLen+8200)
			if st.Cnt > 1500 {
				st.Cnt = 1500
			}
			st.IO = []simdisk.IOFault{g.fault(g.pick("grow", "growmap"), 1)}
			if g.r.Intn(2) == 0 {
				// at any allocation of any operation
				st.IO = []simdisk.IOFault{g.fault("alloc", 5)}
				st.Max = g.r.Intn(1 + st.Cnt/(1+g.r.Intn(40)))
			}
			g.add(st)
		default:
			g.add(Step{Op: g.pick("missing", "foreign", "foreign", "readonly"), Seed: g.r.Next() % 1000})
		}
		if g.r.Intn(2) == 0 {
			g.fill(0, 1+g.r.Intn(60))
		}
		if g.r.Intn(3) == 0 {
			g.reopen(0)
		}
	}
}

func (g *gen) schedule(tasks, total int) []Switch {
	max := []int{3, 12, 30, 200, 1000, 6000}[g.r.Intn(6)]
	n := 10 + g.r.Intn(600)
	if max < 30 {
		n += 2000 // in lockstep, nearly
	}
	var s []Switch
	for i := 0; i < n; i++ {
		gap := 1 + g.r.Intn(max)
		if g.r.Intn(10) == 0 {
			gap = 1 + g.r.Intn(20000)
		}
		s = append(s, Switch{int64(gap), g.r.Intn(tasks)})
	}
	return s
}

func (g *gen) parallel(run int) {
	g.placement(false)
	n := 2 + g.r.Intn(3)
	cold := -1
	readers := run%2 == 0
	large := run%24 == 7
	g.t.Structs = nil
	if readers {
		k := 1 + g.r.Intn(2)
		for i := 0; i < k; i++ {
			g.t.Structs = append(g.t.Structs, StructDef{g.pick("od", "d"), fmt.Sprintf("db%d", i)})
		}
	} else {
		same := g.pick("od", "d", "")
		if large {
			same = g.pick("d", "d", "od")
		}
		for i := 0; i < n; i++ {
			kd := same
			if kd == "" {
				kd = g.pick("od", "d")
			}
			g.t.Structs = append(g.t.Structs, StructDef{kd, fmt.Sprintf("db%d", i)})
		}
	}
	var us []*universe
	var vl [][]int
	for i, d := range g.t.Structs {
		g.newUniverse(d.Kind, 5+g.r.Intn(300))
		us, vl = append(us, g.u), append(vl, g.vlens)
		if large {
			// of more than one slot directory, if it is a hash map
			st := g.fillStep(i, 6700+g.r.Intn(4000))
			st.Fam, st.Len, st.VLen = g.pick("s", "r", "t"), 8, -4*i-g.r.Intn(9)
			g.add(st)
		} else if readers || g.r.Intn(3) > 0 {
			g.fill(i, 10+g.r.Intn(500))
		}
		if large || len(g.t.Steps) > 0 && g.t.Steps[len(g.t.Steps)-1].S == i {
			for j := 0; j < 30; j++ {
				g.op(i, 5, 1)
			}
			g.add(Step{Op: "open", S: i})
		}
	}
	if g.r.Intn(2) == 0 {
		// whatever is done on the first use in a process, or of a dictionary,
		// is then done inside the tasks
		for i := range g.t.Structs {
			g.add(Step{Op: "close", S: i})
		}
		for i := range g.t.Structs {
			if readers || g.r.Intn(4) > 0 {
				g.add(Step{Op: "open", S: i})
				if i == 0 {
					cold = len(g.t.Steps) - 1
				}
			}
		}
	}
	par := Step{Op: "par"}
	all := g.t.Steps
	for i := 0; i < n; i++ {
		g.t.Steps = nil
		for j := 4 + g.r.Intn(30); j > 0; j-- {
			s := i
			if readers {
				s = g.r.Intn(len(g.t.Structs))
			}
			g.u, g.vlens = us[s], vl[s]
			od := g.t.Structs[s].Kind == "od"
			switch k := g.r.Intn(10); {
			case k < 6 && !readers:
				g.op(s, 6, 3)
			case k < 7:
				g.add(Step{Op: "test", S: s, K: g.key(), R: true})
			case od && k < 9:
				g.add(Step{Op: "ranges", S: s, Cnt: 1 + g.r.Intn(3), Seed: g.r.Next() % 100000})
			case od:
				g.add(Step{Op: "iters", S: s, Max: 20, Seed: g.r.Next() % 100000})
			case !readers && k == 9:
				g.reopen(s)
			default:
				g.add(Step{Op: "scan", S: s})
			}
		}
		par.Tasks = append(par.Tasks, g.t.Steps)
	}
	g.t.Steps = all
	par.Sched = g.schedule(n, 0)
	g.t.Kind = "separate dictionaries"
	if readers {
		g.t.Kind = "concurrent readers"
		for i := range par.Tasks {
			for j := range par.Tasks[i] {
				par.Tasks[i][j].FS = 0
			}
		}
	}
	g.t.Steps = append(g.t.Steps, par)
	for i := range g.t.Structs {
		g.verify(i)
	}
	if cold >= 0 {
		g.fresh = map[int]bool{cold: true}
	}
}

// kills takes a dictionary through sessions and kills the process at
// instants inside operations, Open and Close.
func (g *gen) kills(kind string, size int) {
	if g.r.Intn(3) == 0 {
		g.placement(false)
		g.t.Place.Pads = 0
	}
	if size > 1500 {
		size = 1500
	}
	g.big = false
	kill := func(s Step, max int64) Step {
		for n := 1 + g.r.Intn(4); n > 0; n-- {
			m := max
			for j := g.r.Intn(4); j > 0; j-- {
				m /= 4
			}
			s.Kill = append(s.Kill, 1+int64(g.r.Next()%uint64(m+1)))
		}
		if s.Op == "reopen" || s.Op == "close" || s.Op == "open" || g.r.Intn(3) == 0 {
			for n := 1 + g.r.Intn(3); n > 0; n-- {
				s.KillIO = append(s.KillIO, int64(g.r.Intn(36)))
			}
		}
		if g.r.Intn(2) == 0 {
			// around the storage's own work: what an operation allocates
			// first may take the place of something just released
			for n := 1 + g.r.Intn(5); n > 0; n-- {
				s.KillMut = append(s.KillMut, [2]int64{int64(g.r.Intn(1 + g.r.Intn(6))), 1 + int64(g.r.Intn(1+g.r.Intn(80)))})
			}
		}
		return s
	}
	if g.r.Intn(3) == 0 {
		g.add(kill(Step{Op: "open"}, 4000))
	}
	// blocks of their own leave the file larger than what it uses, so that an
	// open after a kill finds the allocation state of the last Close
	roomy := func() {
		for n := 1 + g.r.Intn(5); n > 0; n-- {
			l := []int{40000, 70000, 140000, 270000, 530000}[g.r.Intn(5)]
			g.add(Step{Op: "set", K: g.u.key(g.r.Intn(g.u.n)), V: spec("v", g.r.Next()%1000, l)})
		}
	}
	room := g.r.Intn(3) > 0
	if room && g.r.Intn(2) == 0 {
		g.fill(0, 1+g.r.Intn(size))
		roomy()
		g.add(Step{Op: "reopen"})
	}
	for sess := 1 + g.r.Intn(3); sess > 0; sess-- {
		if room && g.r.Intn(2) == 0 {
			roomy()
		}
		for n := 1 + g.r.Intn(4); n > 0; n-- {
			switch g.r.Intn(4) {
			case 0:
				g.add(kill(g.fillStep(0, 1+g.r.Intn(size)), 1_500_000))
			case 1:
				for i := 0; i < 6; i++ {
					g.op(0, 5, 3)
					p := &g.t.Steps[len(g.t.Steps)-1]
					*p = kill(*p, 4000)
				}
			case 2:
				g.sweep(0, g.pick("clear", "set"))
				p := &g.t.Steps[len(g.t.Steps)-1]
				*p = kill(*p, 500_000)
			default:
				g.fill(0, 1+g.r.Intn(size))
			}
		}
		g.add(kill(Step{Op: g.pick("reopen", "reopen", "close")}, 12000))
		if g.r.Intn(3) == 0 {
			g.add(kill(Step{Op: "open"}, 6000))
		}
	}
	g.verify(0)
}

func (g *gen) upgrades(size int, huge bool) {
	if g.r.Intn(3) == 0 {
		g.placement(false)
	}
	if huge {
		g.add(Step{Op: "open", Impl: "base"})
		n := len(g.t.Steps)
		g.huge(0)
		// reopen with the current code
		st := append([]Step{}, g.t.Steps[n+1:]...)
		g.t.Steps = append(g.t.Steps[:n+1], Step{Op: "reopen"})
		g.t.Steps = append(g.t.Steps, st...)
		return
	}
	g.add(Step{Op: "open", Impl: "base"})
	for n := 1 + g.r.Intn(4); n > 0; n-- {
		g.history(0, size/2+10, false, nil)
		impl := ""
		if g.r.Intn(4) == 0 {
			impl = "base"
		}
		_ = impl
		g.add(Step{Op: "reopen"})
		g.verify(0)
	}
	g.history(0, size/3, true, nil)
	g.verify(0)
}

func (g *gen) shared(size int) {
	g.placement(false)
	n := 2 + g.r.Intn(3)
	g.t.Structs = nil
	var us []*universe
	var vl [][]int
	for i := 0; i < n; i++ {
		k := g.pick("bt", "hm")
		g.t.Structs = append(g.t.Structs, StructDef{k, "shared"})
		g.newUniverse(k, 1+g.r.Intn(size))
		us, vl = append(us, g.u), append(vl, g.vlens)
	}
	if size >= 4000 {
		// a high tree or a table of several directories
		s := g.r.Intn(n)
		if ordered(g.t.Structs[s].Kind) {
			g.add(Step{Op: "fill", S: s, Fam: g.pick("r", "s", "t"), Cnt: []int{9000, 26000, 32000}[g.r.Intn(3)] + g.r.Intn(20000), Len: []int{250, 256, 258}[g.r.Intn(3)], VLen: []int{129, 40, 100, 128, 300}[g.r.Intn(5)], Order: g.pick("rand", "mid", "rand", "asc")})
		} else {
			g.add(Step{Op: "fill", S: s, Fam: "r", Cnt: 6000 + g.r.Intn(60000), Len: 8, VLen: g.r.Intn(20), Order: "asc"})
		}
		switch g.r.Intn(4) {
		case 0, 1:
			g.add(Step{Op: "destroy", S: s})
		case 2:
			g.add(Step{Op: "storeload", S: s})
		}
		size = 1000
	}
	hold := g.r.Intn(2) == 0
	for b := 12 + g.r.Intn(30); b > 0; b-- {
		s := g.r.Intn(n)
		g.u, g.vlens = us[s], vl[s]
		if hold && g.r.Intn(2) == 0 {
			// iterations over one structure go on while others change
			if ordered(g.t.Structs[s].Kind) {
				g.add(Step{Op: "itopen", S: s, Lo: "-", Hi: "+", Desc: g.r.Intn(2) == 0})
			} else {
				g.add(Step{Op: "scanopen", S: s})
			}
			for i := 3 + g.r.Intn(12); i > 0; i-- {
				if j := g.r.Intn(n); j != s {
					g.u, g.vlens = us[j], vl[j]
					switch g.r.Intn(8) {
					case 0:
						g.fill(j, 1+g.r.Intn(size/4+3))
					case 1:
						g.add(Step{Op: "storeload", S: j})
					case 2:
						g.sweep(j, g.pick("set", "clear"))
					case 3:
						g.add(Step{Op: "destroy", S: j})
					default:
						g.op(j, 6, 4)
					}
				}
				if ordered(g.t.Structs[s].Kind) {
					g.add(Step{Op: "itstep", S: s, Cnt: 1 + g.r.Intn(20), N0: uint64(g.r.Intn(3))})
				} else {
					g.add(Step{Op: "scanstep", S: s, Cnt: 1 + g.r.Intn(20), N0: uint64(g.r.Intn(3))})
				}
			}
			continue
		}
		switch k := g.r.Intn(14); {
		case k < 3:
			g.fill(s, 1+g.r.Intn(size/2+3))
		case k < 8:
			for i := 0; i < 20; i++ {
				j := g.r.Intn(n)
				g.u, g.vlens = us[j], vl[j]
				g.op(j, 6, 4)
			}
		case k < 9:
			g.sweep(s, g.pick("set", "clear"))
		case k < 10:
			g.add(Step{Op: "storeload", S: s})
		case k < 11:
			g.reopen(s)
		case k < 12:
			g.add(Step{Op: "destroy", S: s})
		case k < 13 && ordered(g.t.Structs[s].Kind):
			g.add(Step{Op: "ranges", S: s, Seed: g.r.Next() % 100000, Cnt: 3})
		default:
			g.verify(s)
		}
	}
	for i := 0; i < n; i++ {
		g.verify(i)
	}
	s := g.r.Intn(n)
	g.add(Step{Op: "destroy", S: s})
	for i := 0; i < n; i++ {
		g.verify(i)
	}
}

func (g *gen) dumps(size int) {
	g.placement(false)
	g.t.Structs = []StructDef{{"bt", "shared"}}
	g.newUniverse("bt", 1+g.r.Intn(size))
	if g.r.Intn(2) == 0 { // high trees of few records
		g.u.lens = []int{250, 256, -256}
	}
	d := func() { g.add(Step{Op: "fprint", Cnt: g.r.Intn(8), Seed: g.r.Next() % 100000}) }
	d()
	g.history(0, size, true, func() {
		if g.r.Intn(3) == 0 {
			d()
		}
	})
	d()
	g.verify(0)
	d()
}

// costs measures calls on dictionaries of very different sizes.
func (g *gen) costs(run int) {
	g.placement(false)
	n := []int{300, 2500, 1000, 9000}[run%4]
	switch run % 64 {
	case 30:
		n = 60000
	case 61:
		n = 30000
	}
	if run%1024 == 542 {
		n = 300000
	}
	g.u.fams = []string{g.pick("r", "r", "z", "s", "t")}
	g.u.lens = [][]int{{8}, {-20}, {30}, {20, 100}, {-300}, {260}, {400, 12}, {8, 9, 10}}[g.r.Intn(8)]
	g.vlens = [][]int{{0}, {-20}, {128}, {-129}, {200}, {-600}, {8}}[g.r.Intn(7)]
	cost := func() { g.add(Step{Op: "cost", Cnt: 60, Fam: g.u.fams[0], Seed: g.r.Next() % 100000}) }
	g.fill(0, n)
	cost()
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		switch g.r.Intn(5) {
		case 0:
			g.sweep(0, "clear")
		case 1:
			g.sweep(0, "set")
		case 2:
			g.fill(0, 1+g.r.Intn(n))
		case 3:
			g.churn(0, 100+n/4)
		case 4:
			g.reopen(0)
		}
		if g.r.Intn(3) > 0 {
			cost()
		}
	}
	if g.r.Intn(3) == 0 {
		g.drain(0)
	}
	g.reopen(0)
	cost()
}
