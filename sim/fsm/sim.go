package fsm

import (
	"encoding/binary"

	"github.com/roy2220/fsm/simdisk"
	"github.com/roy2220/fsm/simhook"
)

// simState ties a file storage to the simulated machine.
type simState struct {
	w   *simdisk.World
	ino *simdisk.Inode
}

func mmap(file *simdisk.File, offset int64, length int) ([]byte, error) {
	return simdisk.Mmap(file, offset, length)
}

func munmap(buffer []byte) error { return simdisk.Munmap(buffer) }

// Open opens a file storage on the given file.
func (fs *FileStorage) Open(fileName string, createFileIfNotExists bool) error {
	simhook.Y()
	w := simdisk.Cur
	if err := fs.realOpen(fileName, createFileIfNotExists); err != nil {
		return err
	}
	ino := fs.spaceMapper.File.Ino
	fs.sim = simState{w, ino}
	ino.Reported, ino.Storage = nil, fs
	if ino.Fresh {
		ino.Fresh = false
		for _, n := range w.Place.HighPad {
			b, _ := fs.buddy.MustAllocateBlock(int(n))
			ino.Pads = append(ino.Pads, b)
			w.N.HighPads++
		}
	}
	return nil
}

// Close closes the file storage.
func (fs *FileStorage) Close() error {
	simhook.Y()
	return fs.realClose()
}

func (fs *FileStorage) move() {
	if fs.spaceMapper.buffer != nil {
		fs.spaceMapper.buffer = simdisk.Move(fs.spaceMapper.buffer)
	}
}

func (s *simState) note(a, b int64) {
	h := s.ino.Events
	h = (h ^ uint64(a)) * 0x100000001b3
	h = (h ^ uint64(b)) * 0x100000001b3
	s.ino.Events = h ^ h>>29
}

func fill(b []byte, r *simdisk.RNG) {
	var p uint64
	switch k := r.Intn(4); k {
	case 0:
		p = ^uint64(0)
	case 1:
		p = 0x0101010101010101 * uint64(r.Intn(255)+1)
	default:
		p = r.Next()
	}
	i := 0
	for ; i+8 <= len(b); i += 8 {
		binary.LittleEndian.PutUint64(b[i:], p)
	}
	for ; i < len(b); i++ {
		b[i] = byte(p)
		p >>= 8
	}
}

func (fs *FileStorage) alloc(size int, aligned bool) (int64, []byte) {
	simhook.Y()
	w, ino := fs.sim.w, fs.sim.ino
	w.Spacing++
	defer func() { w.Spacing-- }()
	r := &ino.RNG
	asked := size
	ino.Muts++
	if w.OnMut != nil {
		w.OnMut(ino)
	}
	if ino.Active {
		if r.Per(w.Place.Pads) {
			b, _ := fs.buddy.MustAllocateBlock(4096 << uint(r.Intn(7)))
			ino.Pads = append(ino.Pads, b)
			w.N.Pads++
		}
		if !aligned && r.Per(w.Place.Slack) {
			size += r.Intn(300)
			w.N.Slack++
		}
	}
	if err := w.FailAlloc(ino); err != nil {
		panic(err) // as when the file cannot grow
	}
	var space int64
	var acc []byte
	if aligned {
		space, acc = fs.realAllocateAlignedSpace(size)
	} else {
		space, acc = fs.realAllocateSpace(size)
	}
	w.N.Allocs++
	if ino.Live != nil {
		if _, ok := ino.Live[space]; ok {
			panic("fsm handed out space that is in use")
		}
		ino.Add(space, simdisk.Alloc{Asked: asked, Size: len(acc), Aligned: aligned, Owner: ino.Owner})
	}
	ino.Worked(space)
	if ino.Active {
		if r.Per(w.Place.MoveAlloc) {
			fs.move()
			acc = fs.spaceMapper.buffer[space : space+int64(len(acc))]
			w.N.MoveAlloc++
		}
		if r.Per(w.Place.DirtyNew) {
			fill(acc, r)
			w.N.DirtyNew++
		}
	}
	fs.sim.note(space, int64(asked))
	return space, acc[:len(acc):len(acc)]
}

func (fs *FileStorage) free(space int64, aligned bool) {
	simhook.Y()
	w, ino := fs.sim.w, fs.sim.ino
	w.Spacing++
	defer func() { w.Spacing-- }()
	r := &ino.RNG
	ino.Muts++
	if w.OnMut != nil {
		w.OnMut(ino)
	}
	ino.Worked(space)
	if ino.Live != nil {
		a, ok := ino.Live[space]
		if !ok || a.Aligned != aligned {
			w.Breach("released", "release of space %d that is not held (aligned=%v)", space, aligned)
		}
		if a.Owner != ino.Owner {
			w.Breach("foreign", "release of space %d, which another structure of the storage holds", space)
		}
		ino.Del(space, a)
		if ino.Active && r.Per(w.Place.DirtyFree) {
			if aligned {
				fill(fs.realAccessAlignedSpace(space), r)
			} else {
				fill(fs.realAccessSpace(space), r)
			}
			w.N.DirtyFree++
		}
	}
	if aligned {
		fs.realFreeAlignedSpace(space)
	} else {
		fs.realFreeSpace(space)
	}
	w.N.Frees++
	if ino.Active && r.Per(w.Place.MoveFree) {
		fs.move()
		w.N.MoveFree++
	}
	fs.sim.note(^space, 0)
}

func (fs *FileStorage) access(space int64, aligned bool) []byte {
	ino := fs.sim.ino
	if ino.Live != nil {
		a, ok := ino.Live[space]
		if !ok || a.Aligned != aligned {
			fs.sim.w.Breach("released", "access to space %d that is not held (aligned=%v)", space, aligned)
		}
		if a.Owner != ino.Owner {
			fs.sim.w.Breach("foreign", "access to space %d, which another structure of the storage holds", space)
		}
	}
	ino.Worked(space)
	var acc []byte
	if aligned {
		acc = fs.realAccessAlignedSpace(space)
	} else {
		acc = fs.realAccessSpace(space)
	}
	return acc[:len(acc):len(acc)]
}

// AllocateSpace allocates space with the given size on the file.
func (fs *FileStorage) AllocateSpace(spaceSize int) (int64, []byte) {
	return fs.alloc(spaceSize, false)
}

// FreeSpace releases the given space back to the file.
func (fs *FileStorage) FreeSpace(space int64) { fs.free(space, false) }

// AccessSpace returns an ephemeral accessor of the given space on the file.
func (fs *FileStorage) AccessSpace(space int64) []byte { return fs.access(space, false) }

// AllocateAlignedSpace allocates aligned space, aka a block.
func (fs *FileStorage) AllocateAlignedSpace(blockSize int) (int64, []byte) {
	return fs.alloc(blockSize, true)
}

// FreeAlignedSpace releases the given aligned space.
func (fs *FileStorage) FreeAlignedSpace(block int64) { fs.free(block, true) }

// AccessAlignedSpace returns an ephemeral accessor of the given aligned space.
func (fs *FileStorage) AccessAlignedSpace(block int64) []byte { return fs.access(block, true) }

// Header is what a file says about itself, for the judge of a kill.
type Header struct {
	Primary int64
	Raw     []byte // the header
	Bitmap  []byte // the allocation bitmap as an open would read it; nil when it is cut off
}

// HeaderSize is the size of a file's header.
const HeaderSize = fileHeaderSize

// ParseHeader reads the header of a file's content.
func ParseHeader(content []byte) (Header, bool) {
	var fh fileHeader
	if len(content) < fileHeaderSize || fh.Deserialize(content[:fileHeaderSize]) != nil {
		return Header{}, false
	}
	h := Header{Primary: fh.PrimarySpace, Raw: content[:fileHeaderSize]}
	if b, n := int64(fileHeaderSize)+fh.UsedSpaceSize, fh.BlockAllocationBitmapSize; fh.UsedSpaceSize >= 0 && n >= 0 && b+n >= 0 && b+n <= int64(len(content)) {
		h.Bitmap = content[b : b+n]
	}
	return h, true
}
