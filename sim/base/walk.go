package plainkv

import (
	"verif/sim/base/bptree"
	"verif/sim/base/hashmap"
)

// Walk visits the tree (not part of the released version).
func (od *OrderedDict) Walk() bptree.Shape { return od.bpTree.Walk() }

// Nodes reads the tree (not part of the released version).
func (od *OrderedDict) Nodes() *bptree.Node { return od.bpTree.Nodes() }

// Walk visits the map (not part of the released version).
func (d *Dict) Walk() hashmap.Shape { return d.hashMap.Walk() }
