package hashmap

// Shape is the structure of a map as found in the file (not part of the
// released version).
type Shape struct {
	Slots, Dirs, Items, Payload int
	Used, Longest               int // slots in use, items in the longest
	Bad                         string
}

// Walk visits the whole map.
func (hm *HashMap) Walk() (s Shape) {
	s.Slots, s.Dirs = hm.slotCount, hm.slotDirCount
	for i := 0; i < hm.slotCount; i++ {
		items := unpackSlot(hm.loadSlot(hm.locateSlotAddr(i).Get(hm.fileStorage)))
		if len(items) > 0 {
			s.Used++
		}
		if len(items) > s.Longest {
			s.Longest = len(items)
		}
		for j := range items {
			s.Items++
			s.Payload += len(items[j].Key) + len(items[j].Value)
			if hm.calculateSlotIndex(sumKey(items[j].Key)) != i {
				s.Bad = "an item is in a slot it does not belong to"
			}
		}
	}
	return
}
