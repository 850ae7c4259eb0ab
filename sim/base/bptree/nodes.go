package bptree

// Node is a node of a tree as found in the file (not part of the released
// version).
type Node struct {
	Load  int
	Over  int // load above which it is split
	Under int // load below which it is merged
	Kids  []*Node
	Seps  []int    // bytes a child takes in the node
	Keys  [][]byte // of a leaf
	Sizes []int    // bytes a record takes in the leaf
	Vals  []int    // bytes its value takes
}

// Nodes reads the whole tree.
func (bpt *BPTree) Nodes() *Node {
	var visit func(addr int64, depth int) *Node
	visit = func(addr int64, depth int) *Node {
		if depth < bpt.height {
			nlc := bpt.getNonLeafController(addr)
			nd := &Node{Load: nlc.GetLoadSize(), Over: nonLeafOverloadThreshold, Under: nonLeafUnderloadThreshold}
			n := nlc.NumberOfChildren()
			for i := 0; i < n; i++ {
				sep := 0
				if i > 0 {
					sep = nonLeafChildHeaderSize + len(nlc.GetKey(i))
				}
				nd.Seps = append(nd.Seps, sep)
				nd.Kids = append(nd.Kids, visit(nlc.GetChildAddr(i), depth+1))
			}
			return nd
		}
		lc := bpt.getLeafController(addr)
		nd := &Node{Load: lc.GetLoadSize(), Over: leafOverloadThreshold, Under: leafUnderloadThreshold}
		n := lc.NumberOfRecords()
		for i := 0; i < n; i++ {
			nd.Keys = append(nd.Keys, keyFactory{bpt.fileStorage}.ReadKeyAll(lc.GetKey(i)))
			nd.Sizes = append(nd.Sizes, recordHeaderSize+len(lc.GetKey(i))+len(lc.GetValue(i)))
			nd.Vals = append(nd.Vals, len(lc.GetValue(i)))
		}
		return nd
	}
	return visit(bpt.rootAddr, 1)
}
