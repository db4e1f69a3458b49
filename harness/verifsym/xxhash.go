//sym:into ripsrc/verifsym

package verifsym

import "math/bits"

const (
	xp1 uint64 = 11400714785074694791
	xp2 uint64 = 14029467366897019727
	xp3 uint64 = 1609587929392839161
	xp4 uint64 = 9650029242287828579
	xp5 uint64 = 2870177450012600261
)

func xround(acc, in uint64) uint64 {
	acc += in * xp2
	return bits.RotateLeft64(acc, 31) * xp1
}

func xmerge(acc, v uint64) uint64 {
	acc ^= xround(0, v)
	return acc*xp1 + xp4
}

func u64(b []byte) uint64 {
	r := uint64(0)
	for i := 7; i >= 0; i-- {
		r = r<<8 | uint64(b[i])
	}
	return r
}

// XXHash is xxhash64 of known bytes.
func XXHash(b []byte) uint64 {
	n := len(b)
	var h uint64
	if n >= 32 {
		p1 := xp1
		v1, v2, v3, v4 := p1+xp2, xp2, uint64(0), -p1
		for len(b) >= 32 {
			v1, v2, v3, v4 = xround(v1, u64(b)), xround(v2, u64(b[8:])), xround(v3, u64(b[16:])), xround(v4, u64(b[24:]))
			b = b[32:]
		}
		h = bits.RotateLeft64(v1, 1) + bits.RotateLeft64(v2, 7) + bits.RotateLeft64(v3, 12) + bits.RotateLeft64(v4, 18)
		h = xmerge(xmerge(xmerge(xmerge(h, v1), v2), v3), v4)
	} else {
		h = xp5
	}
	h += uint64(n)
	for len(b) >= 8 {
		h ^= xround(0, u64(b))
		h = bits.RotateLeft64(h, 27)*xp1 + xp4
		b = b[8:]
	}
	if len(b) >= 4 {
		h ^= (uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24) * xp1
		h = bits.RotateLeft64(h, 23)*xp2 + xp3
		b = b[4:]
	}
	for _, c := range b {
		h ^= uint64(c) * xp5
		h = bits.RotateLeft64(h, 11) * xp1
	}
	h ^= h >> 33
	h *= xp2
	h ^= h >> 29
	h *= xp3
	h ^= h >> 32
	return h
}

var hashFresh uint64

// FreshHash makes every hash differ from all others from here on, for checks
// that have nothing to do with stored lines.
func FreshHash() { hashFresh = 1 << 63 }

// WeakHash is the number of values that hashes have, when not zero, in which
// case every input has the value the solver likes.
var WeakHash uint64
var weakIn []string
var weakOut []uint64

func weak(b []byte) uint64 {
	s := string(b)
	for i, x := range weakIn {
		if len(x) == len(s) && x == s {
			return weakOut[i]
		}
	}
	h := uint64(Choose("hash", int(WeakHash)))
	weakIn, weakOut = append(weakIn, s), append(weakOut, h)
	return h
}

// VSum64String is the hash of a string.
//
//sym:subst github.com/cespare/xxhash.Sum64String
func VSum64String(s string) uint64 { return VSum64([]byte(s)) }

// VSum64 hashes known bytes as they are; short unknown ones by a function
// that, like the real one on such inputs, separates them.
//
//sym:subst github.com/cespare/xxhash.Sum64
func VSum64(b []byte) uint64 {
	if WeakHash != 0 {
		return weak(b)
	}
	if hashFresh != 0 && Symbolic() {
		hashFresh++
		return hashFresh
	}
	if IsConcrete(b) || !Symbolic() {
		return XXHash(b)
	}
	if len(b) > 7 {
		Unsupported("hash of a long line that is not known")
	}
	h := uint64(len(b))
	for _, c := range b {
		h = h<<8 | uint64(c)
	}
	return h
}
