package bptree

import "bytes"

// Shape is the structure of a tree as found in the file. This file is not
// part of the released version; it lets the simulator look at file images
// with the released version's reader.
type Shape struct {
	Height, Leafs, NonLeafs, Records, Payload int
	Levels                                    []int // nodes per level, root first
	MinLeaf                                   int   // smallest load of a leaf, with more than one leaf
	Overloaded                                int   // nodes above their load limit
	Bad                                       string
}

// Walk visits the whole tree.
func (bpt *BPTree) Walk() (s Shape) {
	s.Height = bpt.height
	s.Levels = make([]int, bpt.height)
	var leafs []int64
	var last []byte
	first := true
	var visit func(addr int64, depth int)
	visit = func(addr int64, depth int) {
		s.Levels[depth-1]++
		if depth < bpt.height {
			s.NonLeafs++
			if bpt.getNonLeafController(addr).GetLoadSize() > nonLeafOverloadThreshold {
				s.Overloaded++
			}
			n := bpt.getNonLeafController(addr).NumberOfChildren()
			for i := 0; i < n; i++ {
				visit(bpt.getNonLeafController(addr).GetChildAddr(i), depth+1)
			}
			return
		}
		s.Leafs++
		leafs = append(leafs, addr)
		lc := bpt.getLeafController(addr)
		if l := lc.GetLoadSize(); s.Leafs == 1 || l < s.MinLeaf {
			s.MinLeaf = l
		}
		if lc.GetLoadSize() > leafOverloadThreshold {
			s.Overloaded++
		}
		n := lc.NumberOfRecords()
		for i := 0; i < n; i++ {
			k := keyFactory{bpt.fileStorage}.ReadKeyAll(lc.GetKey(i))
			v := valueFactory{bpt.fileStorage}.ReadValueAll(lc.GetValue(i))
			s.Records++
			s.Payload += len(k) + len(v)
			if !first && bytes.Compare(last, k) >= 0 {
				s.Bad = "keys out of order"
			}
			first, last = false, k
		}
	}
	visit(bpt.rootAddr, 1)
	n := len(leafs)
	if bpt.leafList.HeadAddr() != leafs[0] || bpt.leafList.TailAddr() != leafs[n-1] {
		s.Bad = "the leaf list's ends are not the tree's"
	}
	for i, a := range leafs {
		h := leafHeader(bpt.getLeafController(a))
		if i+1 < n && h.NextAddr() != leafs[i+1] || i > 0 && h.PrevAddr() != leafs[i-1] {
			s.Bad = "the leaf list's order is not the tree's"
		}
	}
	return
}
