package zzstub

import "github.com/effective-security/xdb/internal/zzsym"

// Hash64 models a 64-bit non-cryptographic hash as an injective uninterpreted function of the
// bytes written.
type Hash64 struct{ b []byte }

// iface matches the results of the modelled constructors.
type iface interface {
	Write(p []byte) (int, error)
	Sum(b []byte) []byte
	Reset()
	Size() int
	BlockSize() int
	Sum64() uint64
}

func NewHash64() iface { return &Hash64{} }

func (h *Hash64) Write(p []byte) (int, error) {
	h.b = append(h.b, p...)
	return len(p), nil
}
func (h *Hash64) Sum64() uint64 { return zzsym.Hash(h.b) }
func (h *Hash64) Sum(b []byte) []byte {
	v := h.Sum64()
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(v>>uint(i)))
	}
	return b
}
func (h *Hash64) Reset()         { h.b = nil }
func (h *Hash64) Size() int      { return 8 }
func (h *Hash64) BlockSize() int { return 1 }

// The other 64-bit and longer hashes are such functions as well, each a different one.

func MurmurSum64(b []byte) uint64 { return zzsym.Hash(b) }

func MurmurSum64WithSeed(b []byte, seed uint32) uint64 {
	if seed == 0 {
		return zzsym.Hash(b)
	}
	return tagged('m', seed, b)
}

func MurmurSum128(b []byte) (uint64, uint64) { return zzsym.Hash(b), tagged('M', 0, b) }

func Sum256(b []byte) (r [32]byte) {
	for i := uint32(0); i < 4; i++ {
		v := tagged('s', i, b)
		for k := uint32(0); k < 8; k++ {
			r[8*i+k] = byte(v >> (56 - 8*k))
		}
	}
	return r
}

func tagged(kind byte, n uint32, b []byte) uint64 {
	return zzsym.Hash(append([]byte{kind, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 0xff, 0xfe}, b...))
}

// NewFnv64 and NewFnv64a.
func NewFnv64() iface  { return &Hash64{b: []byte{'f', 0, 0, 0, 0, 0xff, 0xfe}} }
func NewFnv64a() iface { return &Hash64{b: []byte{'F', 0, 0, 0, 0, 0xff, 0xfe}} }
