package main

import (
	"bytes"
	"sort"

	"github.com/roy2220/fsm/simdisk"
	base "verif/sim/base"
	"verif/sim/base/bptree"
)

// pry works on the seams of a tree: again and again it looks at the nodes in
// the file, brings a node close to the load at which it is split or merged,
// and then crosses that line with one operation, in many cases such that the
// leaf underneath crosses one of its own with the same operation. Histories
// drawn without regard to the nodes hardly ever do that.
type pry struct {
	x    *Exec
	s    *structure
	r    rng
	root *bptree.Node
	n    uint64
}

func (x *Exec) pry(s *structure, st *Step) {
	if s.def.Kind != "od" {
		return
	}
	p := &pry{x: x, s: s, r: rng{S: mix(st.Seed, 4711)}}
	for i := 0; i < st.Cnt && x.fail == nil; i++ {
		if !p.look() {
			return
		}
		switch p.r.Intn(8) {
		case 0:
			p.anyLeaf()
		case 1:
			p.thin()
		default:
			p.seam()
		}
		if p.r.Intn(8) == 0 {
			x.verify(s, p.r.Next()%1000)
		}
	}
	if x.fail == nil {
		x.ensure(s, "")
	}
}

// look reads the nodes.
func (p *pry) look() bool {
	x, s := p.x, p.s
	img, ok := x.image(s)
	if !ok || x.fail != nil {
		return false
	}
	p.root = nil
	x.elsewhere(func(w *simdisk.World) {
		w.Put("image", img)
		if fl := x.guard(func() {
			od, err := base.OpenOrderedDict("image", false)
			if err != nil {
				panic(err)
			}
			p.root = od.Nodes()
		}); fl != nil {
			p.root = nil
		}
	})
	if p.root == nil {
		// not in the released version's format: nothing to go by
		x.probe("pry_unreadable")
		x.ensure(s, "")
		return false
	}
	x.probe("pry")
	return x.ensure(s, "")
}

func (p *pry) fresh(n int) []byte {
	p.n++
	return valueFor(p.r.Next(), int(p.n), n)
}

// the inner nodes, the root first.
func (p *pry) inner() (l []*bptree.Node) {
	var visit func(n *bptree.Node)
	visit = func(n *bptree.Node) {
		if n.Kids != nil {
			l = append(l, n)
			for _, k := range n.Kids {
				visit(k)
			}
		}
	}
	visit(p.root)
	return
}

func leftmost(n *bptree.Node) *bptree.Node {
	for n.Kids != nil {
		n = n.Kids[0]
	}
	return n
}

func (p *pry) leafs() (l []*bptree.Node) {
	var visit func(n *bptree.Node)
	visit = func(n *bptree.Node) {
		if n.Kids == nil {
			l = append(l, n)
		}
		for _, k := range n.Kids {
			visit(k)
		}
	}
	visit(p.root)
	return
}

func (p *pry) set(k, v []byte) bool { return p.x.bulkSet(p.s, k, v) }

func (p *pry) clear(k []byte) bool { return p.x.bulkClear(p.s, k) }

// between is a key of about n bytes between a and b, nil if there is none;
// n = 0: a short one.
func (p *pry) between(a, b []byte, n int) []byte {
	// the common part and one byte more
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	var c [][]byte
	if i < len(b) {
		lo := -1
		if i < len(a) {
			lo = int(a[i])
		}
		if lo+1 < int(b[i]) {
			c = append(c, append(append([]byte(nil), b[:i]...), byte(lo+1+p.r.Intn(int(b[i])-lo-1))))
		}
		if i+1 < len(b) {
			c = append(c, append([]byte(nil), b[:i+1]...))
		}
	}
	if len(c) == 0 || p.r.Intn(4) == 0 {
		// longer than a
		c = append(c, append(append([]byte(nil), a...), byte(p.r.Intn(256))))
	}
	k := c[p.r.Intn(len(c))]
	for len(k) < n {
		k = append(k, byte(p.r.Next()>>uint(8*(len(k)&3))))
	}
	if bytes.Compare(k, a) <= 0 || bytes.Compare(k, b) >= 0 {
		return nil
	}
	if _, ok := p.s.m.m[string(k)]; ok {
		return nil
	}
	return k
}

// rec is what pry knows of the records of a leaf after its own operations.
type rec struct {
	k    []byte
	size int
	val  int
}

func recsOf(l *bptree.Node) (r []rec, load int) {
	for i, k := range l.Keys {
		r = append(r, rec{k, l.Sizes[i], l.Vals[i]})
	}
	return r, l.Load
}

func nodeKey(n int) int {
	if n > 257 {
		return 257
	}
	return n
}

// second makes the second key of the leaf one of about n bytes.
func (p *pry) second(rs []rec, n int) ([]rec, int) {
	if len(rs) < 2 {
		return rs, 0
	}
	k := p.between(rs[0].k, rs[1].k, n)
	if k == nil {
		return rs, 0
	}
	v := p.r.Intn(3) * 4
	if !p.set(k, p.fresh(v)) {
		return rs, 0
	}
	size := rs[0].size - nodeKey(len(rs[0].k)) - rs[0].val + nodeKey(len(k)) + v
	rs = append(rs[:1:1], append([]rec{{k, size, v}}, rs[1:]...)...)
	return rs, size
}

// trim takes the leaf down until the removal of its first record brings it
// below the line, or up until one more brings it above.
func (p *pry) trim(l *bptree.Node, rs []rec, load int, want int) ([]rec, int) {
	if want < 0 {
		for i := 0; i < 200 && len(rs) > 3 && p.x.fail == nil; i++ {
			j := 2 + p.r.Intn(len(rs)-2)
			sz := rs[j].size
			if load-sz < l.Under {
				// a shorter value instead
				if rs[j].val > 1 && load-rs[j].val >= l.Under {
					if !p.set(rs[j].k, nil) {
						return rs, load
					}
					load -= rs[j].val
					rs[j].size -= rs[j].val
					rs[j].val = 0
				}
				if load-rs[0].size < l.Under || i > 60 {
					break
				}
				continue
			}
			if !p.clear(rs[j].k) {
				return rs, load
			}
			load -= sz
			rs = append(rs[:j:j], rs[j+1:]...)
			if load-rs[0].size < l.Under && p.r.Intn(3) == 0 {
				break
			}
		}
		return rs, load
	}
	for i := 0; i < 200 && len(rs) > 3 && p.x.fail == nil; i++ {
		j := 1 + p.r.Intn(len(rs)-2)
		room := l.Over - load
		if room < 12 {
			break
		}
		n := 4 + p.r.Intn(250)
		k := p.between(rs[j].k, rs[j+1].k, n)
		if k == nil {
			continue
		}
		v := p.r.Intn(100)
		sz := 8 + nodeKey(len(k)) + v
		if sz > room {
			if i > 60 {
				break
			}
			continue
		}
		if !p.set(k, p.fresh(v)) {
			return rs, load
		}
		load += sz
		rs = append(rs[:j+1:j+1], append([]rec{{k, sz, v}}, rs[j+1:]...)...)
	}
	return rs, load
}

// cross is the operation that crosses the line.
func (p *pry) cross(rs []rec, want int) {
	if len(rs) < 2 || p.x.fail != nil {
		return
	}
	b := p.s.d.Stats()
	switch {
	case want < 0:
		p.x.point(p.s, "clear", rs[0].k, nil, p.r.Intn(2) == 0)
	case p.r.Intn(2) == 0:
		p.x.point(p.s, "set", rs[p.r.Intn(len(rs))].k, p.fresh(100+p.r.Intn(40)), p.r.Intn(2) == 0)
	default:
		j := p.r.Intn(len(rs) - 1)
		if k := p.between(rs[j].k, rs[j+1].k, []int{1, 20, 250, 256, 257, 300}[p.r.Intn(6)]); k != nil {
			p.x.point(p.s, "set", k, p.fresh(p.r.Intn(140)), false)
		}
	}
	p.x.probe("pry_cross")
	if p.x.fail == nil {
		a := p.s.d.Stats()
		if a.NonLeafs != b.NonLeafs {
			p.x.probe("pry_inner")
			if a.Leafs != b.Leafs {
				p.x.probe("pry_inner_leaf")
			}
			if a.NonLeafs > b.NonLeafs && want < 0 {
				p.x.probe("pry_inner_grows")
			}
			if a.NonLeafs > b.NonLeafs && a.Leafs < b.Leafs {
				p.x.probe("pry_inner_grows_leaf_goes")
			}
		}
		if a.Height != b.Height {
			p.x.probe("pry_height")
		}
		p.x.checkStateNow(p.s)
	}
}

// anyLeaf takes some leafs next to each other to their lines.
func (p *pry) anyLeaf() {
	ls := p.leafs()
	i := p.r.Intn(len(ls))
	n := 1 + p.r.Intn(3)
	type job struct {
		rs   []rec
		want int
	}
	var jobs []job
	for ; n > 0 && i < len(ls) && p.x.fail == nil; n, i = n-1, i+1 {
		want := 1 - 2*p.r.Intn(2)
		rs, load := recsOf(ls[i])
		if p.r.Intn(2) == 0 {
			var d int
			rs, d = p.second(rs, []int{0, 20, 256, 257}[p.r.Intn(4)])
			load += d
		}
		rs, _ = p.trim(ls[i], rs, load, want)
		jobs = append(jobs, job{rs, want})
	}
	for len(jobs) > 0 && p.x.fail == nil {
		j := p.r.Intn(len(jobs))
		p.cross(jobs[j].rs, jobs[j].want)
		jobs = append(jobs[:j], jobs[j+1:]...)
	}
}

// thin takes many leafs of a part of the tree down to the line without
// crossing it.
func (p *pry) thin() {
	ls := p.leafs()
	i, n := p.r.Intn(len(ls)), 1+p.r.Intn(12)
	for ; n > 0 && i < len(ls) && p.x.fail == nil; n, i = n-1, i+1 {
		rs, load := recsOf(ls[i])
		p.trim(ls[i], rs, load, -1)
	}
}

// seam takes an inner node to its line by the lengths of its separators, and
// crosses it with the first record of a leaf.
func (p *pry) seam() {
	in := p.inner()
	if len(in) == 0 {
		p.anyLeaf()
		return
	}
	over := p.r.Intn(5) > 1
	dist := func(n *bptree.Node) int {
		if over {
			return n.Over - n.Load
		}
		return n.Load - n.Under
	}
	nd := in[p.r.Intn(len(in))]
	switch p.r.Intn(4) {
	case 0: // the closest
		c := append([]*bptree.Node(nil), in...)
		sort.SliceStable(c, func(i, j int) bool { return dist(c[i]) < dist(c[j]) })
		nd = c[p.r.Intn(1+len(c)/4)]
	case 1: // a high one
		nd = in[0]
		if k := nd.Kids[p.r.Intn(len(nd.Kids))]; k.Kids != nil && p.r.Intn(3) > 0 {
			nd = k
		}
	}
	if p.r.Intn(2) == 0 {
		// its neighbours first, which then cannot help
		for _, par := range in {
			for i, k := range par.Kids {
				if k != nd {
					continue
				}
				if p.r.Intn(3) == 0 {
					p.toLine(par, p.r.Intn(2) == 0, false)
				}
				for _, j := range [][]int{{i - 1}, {i + 1}, {i + 1}, {i - 1, i + 1}}[p.r.Intn(4)] {
					if j >= 0 && j < len(par.Kids) {
						p.toLine(par.Kids[j], over, false)
					}
				}
			}
		}
	}
	p.toLine(nd, over, p.r.Intn(6) > 0)
}

// toLine changes separators of an inner node until it is close to its line,
// and crosses it.
func (p *pry) toLine(nd *bptree.Node, over, cross bool) {
	load := nd.Load
	todo := make([]int, 0, len(nd.Kids))
	for c := 1; c < len(nd.Kids); c++ {
		todo = append(todo, c)
	}
	switch p.r.Intn(3) {
	case 0:
		for i := len(todo) - 1; i > 0; i-- {
			j := p.r.Intn(i + 1)
			todo[i], todo[j] = todo[j], todo[i]
		}
	case 1:
		for i := range todo {
			todo[i] = len(nd.Kids) - 1 - i
		}
	}
	for len(todo) > 0 && p.x.fail == nil {
		c := todo[0]
		todo = todo[1:]
		l := leftmost(nd.Kids[c])
		rs, ll := recsOf(l)
		if len(rs) < 3 {
			continue
		}
		n := 0
		if over {
			n = 200 + p.r.Intn(58)
			if room := nd.Over - load - 12; room > 20 && room < 200 && p.r.Intn(2) == 0 {
				n = room - 1
			}
		}
		grow := len(rs[1].k) - len(rs[0].k)
		if over && nodeKey(len(rs[1].k)) < n || !over && len(rs[1].k) > 12 {
			var d int
			rs, d = p.second(rs, n)
			ll += d
			grow = nodeKey(len(rs[1].k)) - nodeKey(len(rs[0].k))
		}
		if over && grow <= 0 || !over && grow >= 0 {
			continue
		}
		last := over && load+grow > nd.Over || !over && load+grow < nd.Under
		if last && !cross {
			return
		}
		if last {
			p.x.probe("pry_seam")
			if p.r.Intn(4) > 0 {
				rs, ll = p.trim(l, rs, ll, -1)
				if ll-rs[0].size < l.Under {
					p.x.probe("pry_seam_leaf")
				}
			}
			if p.r.Intn(3) > 0 {
				// a neighbour that cannot help
				for i, o := range p.leafs() {
					if o == l {
						ls := p.leafs()
						for _, j := range []int{i - 1, i + 1} {
							if j >= 0 && j < len(ls) && p.r.Intn(5) > 0 {
								ors, ol := recsOf(ls[j])
								want := -1
								if p.r.Intn(5) == 0 {
									want = 1
								}
								p.trim(ls[j], ors, ol, want)
							}
						}
						break
					}
				}
			}
			p.cross(rs, -1)
			return
		}
		// keep the leaf away from its own line
		for i := 1; ll-rs[0].size < l.Under && i < 60 && p.x.fail == nil; i++ {
			j := 1 + p.r.Intn(len(rs)-2)
			k := p.between(rs[j].k, rs[j+1].k, 100)
			if k == nil {
				continue
			}
			if !p.set(k, p.fresh(120)) {
				return
			}
			ll += 8 + nodeKey(len(k)) + 120
			rs = append(rs[:j+1:j+1], append([]rec{{k, 8 + nodeKey(len(k)) + 120, 120}}, rs[j+1:]...)...)
		}
		if !p.clear(rs[0].k) {
			return
		}
		load += grow
	}
}
