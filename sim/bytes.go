package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"strconv"
	"strings"

	"github.com/roy2220/fsm/simdisk"
)

type rng = simdisk.RNG

func mix(a, b uint64) uint64 {
	r := rng{S: a ^ (b * 0x9e3779b97f4a7c15)}
	r.Next()
	return r.Next()
}

// A key or value is written in traces as "family:n:len":
//
//	r  n-th pseudo-random byte string of the length
//	z  'A'..., then n as 8 big-endian bytes (long shared prefix, ordered)
//	t  n as decimal digits, left padded with '0' to the length (dense, ordered)
//	s  n as 8 big-endian bytes first, then filler (differs early, ordered)
//	x  len times the letter 'a'+n (prefixes of one another)
//	w  249 shared bytes, then n as decimal, then filler (differs right after an in-node prefix)
//	o  one byte differs, anywhere
//	y  one byte repeated (mostly 0x00 or 0xff)
//	b  bytes 0x00 / 0xff mixes
//	l  n-th key whose hash has the same low 14 bits
//	c  n-th member of a family of full hash collisions (pairs 2i, 2i+1), padded to the length
//	m  the bytes "MIN_KEY", "MAX_KEY" (a copy, not the sentinel) and near ones
//	h  hex bytes
func makeBytes(spec string) []byte {
	if spec == "" {
		return nil
	}
	p := strings.SplitN(spec, ":", 3)
	if p[0] == "h" {
		b, err := hex.DecodeString(p[1])
		if err != nil {
			panic("bad trace: " + spec)
		}
		return b
	}
	n, err1 := strconv.ParseUint(p[1], 10, 64)
	l, err2 := strconv.Atoi(p[2])
	if err1 != nil || err2 != nil {
		panic("bad trace: " + spec)
	}
	return famBytes(p[0], n, l)
}

func spec(fam string, n uint64, l int) string { return fmt.Sprintf("%s:%d:%d", fam, n, l) }

func famBytes(fam string, n uint64, l int) []byte {
	b := make([]byte, l)
	switch fam {
	case "r", "v":
		r := rng{S: n*0x2545f4914f6cdd1d + uint64(l)}
		i := 0
		for ; i+8 <= l; i += 8 {
			binary.LittleEndian.PutUint64(b[i:], r.Next())
		}
		if i < l {
			x := r.Next()
			for ; i < l; i++ {
				b[i] = byte(x)
				x >>= 8
			}
		}
	case "z":
		for i := range b {
			b[i] = 'A'
		}
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], n)
		if l >= 8 {
			copy(b[l-8:], t[:])
		} else {
			copy(b, t[8-l:])
		}
	case "s":
		for i := range b {
			b[i] = 'k'
		}
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], n)
		if l >= 8 {
			copy(b, t[:])
		} else {
			copy(b, t[8-l:])
		}
	case "t":
		for i := range b {
			b[i] = '0'
		}
		s := strconv.FormatUint(n, 10)
		if len(s) > l {
			s = s[len(s)-l:]
		}
		copy(b[l-len(s):], s)
	case "x":
		for i := range b {
			b[i] = 'a' + byte(n%8)
		}
	case "w":
		for i := range b {
			b[i] = 'w'
		}
		if l > 249 {
			copy(b[249:], fmt.Sprintf("%06d", n))
		} else {
			copy(b, fmt.Sprintf("%06d", n))
		}
	case "o":
		for i := range b {
			b[i] = 'A'
		}
		if l > 0 {
			b[n%uint64(l)] = byte('A' + n/uint64(l)*37 + 1)
		}
	case "y":
		c := []byte{0, 0, 0xff, 1, 8, 0x0a, byte(n / 7), 0x7f}[n%8]
		for i := range b {
			b[i] = c
		}
	case "b":
		r := rng{S: n}
		for i := range b {
			switch r.Intn(5) {
			case 0:
				b[i] = 0xff
			case 1:
				b[i] = 1
			default:
				b[i] = 0
			}
			if i > 12 && r.Intn(3) > 0 {
				break
			}
		}
	case "l":
		return lowCollision(int(n), l)
	case "c":
		return fullCollision(int(n), l)
	case "m":
		s := []string{"MIN_KEY", "MAX_KEY", "MIN_KEX", "MIN_KEZ", "MAX_KEX", "MAX_KEZ", "MIN_KE", "MAX_KEY\x00"}[n%8]
		return []byte(s)
	default:
		panic("bad trace: family " + fam)
	}
	return b
}

func sum64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

var lowKeys = map[[2]int][]byte{}

// lowCollision gives keys whose hashes agree in the low 14 bits.
func lowCollision(n, l int) []byte {
	if l < 8 {
		l = 8
	}
	b, ok := lowKeys[[2]int{n, l}]
	if !ok {
		b = make([]byte, l)
		for i := range b {
			b[i] = 'L'
		}
		binary.BigEndian.PutUint32(b, uint32(n))
		h := sum64(b[:l-4])
		for c := uint32(0); ; c++ {
			g := h
			for k := 24; k >= 0; k -= 8 {
				g = (g ^ uint64(byte(c>>uint(k)))) * 0x100000001b3
			}
			if g&0x3fff == 0x155 {
				binary.BigEndian.PutUint32(b[l-4:], c)
				break
			}
		}
		if len(lowKeys) > 100000 {
			lowKeys = map[[2]int][]byte{}
		}
		lowKeys[[2]int{n, l}] = b
	}
	return append([]byte(nil), b...)
}

// collisionPairs are pairs of byte strings with the same 64-bit FNV-1a hash
// (found offline, tools/fnvcollide.go); any common suffix keeps the collision.
var collisionPairs = [][2]string{
	{"U\xc9p\x9d\xbb\xa7D\xb4", "\x0ecyI\xed$\x04\xa9"},
	{"\x85\xa7FP\x14R+^", "0SZJ\xf3\xed\r\x7f"},
	{"\xc4|ׄ\xfe&S\xd6", "\xd2\xf7\"~\xadW\xaaM"},
	{"\rU^Opa\x1a\xfc", "\aP-\xfdp\xfak\\"},
	{"X$\x17\xdd\\S\x81\xdc", "\xa8\xa8\xe3\x81\x19\x95W\xd7"},
	{"\xbd2\xe0\x81\x10\xb4l\xc6", "\x13\x92n\xe2\xe9\xd4!A"},
	{"\\\xe5ڼ\xb9\xec\xbe\xdf", "8(Fj\xd98\x06 "},
	{"%P\xbe\x99ݘR\xd9", "\xbc\x89\xe2g\x14\xcd#|"},
	{"#\x06\xc8\x1c\xf0\xed\xae\x8d", "\x85\xcb\xd8bvtP}"},
	{"{[\x00\x13\x03K\x90w", "Ď+%\xb4\x87t\x8d"},
	{"\x15\x9b\x9c\xfc\x88\x0f\xbc\x99", "\x8c#\xd39P\xbf\xb8~"},
	{"\xcc\x14\xed\xe6bKE(", "\xca\v\x18db\xb2\x96\x88"},
}

func fullCollision(n, l int) []byte {
	if len(collisionPairs) == 0 {
		return famBytes("r", uint64(n), l)
	}
	p := collisionPairs[(n/2)%len(collisionPairs)]
	s := p[n%2]
	b := make([]byte, 0, l)
	b = append(b, s...)
	for i := 0; len(b) < l; i++ {
		b = append(b, byte('c'+n/2/len(collisionPairs)))
	}
	return b
}
