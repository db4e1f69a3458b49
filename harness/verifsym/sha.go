//sym:into ripsrc/verifsym

package verifsym

import (
	"crypto/sha256"
	"hash"
)

type shaHash struct{ b []byte }

func (h *shaHash) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *shaHash) Reset()                      { h.b = nil }
func (h *shaHash) Size() int                   { return 32 }
func (h *shaHash) BlockSize() int              { return 64 }

// Known bytes are hashed as they are; unknown ones by a function that
// separates short texts.
func (h *shaHash) Sum(p []byte) []byte {
	if IsConcrete(h.b) {
		s := sha256.Sum256(h.b)
		return append(p, s[:]...)
	}
	var s [32]byte
	s[0] = byte(len(h.b))
	for i, c := range h.b {
		k := 1 + i%31
		s[k] = s[k]*31 + c
	}
	return append(p, s[:]...)
}

//sym:subst crypto/sha256.New
func newSha256() hash.Hash { return &shaHash{} }
