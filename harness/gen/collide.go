package gen

import (
	"encoding/binary"
	"math/bits"
	"math/rand"
)

const (
	xp1 uint64 = 11400714785074694791
	xp2 uint64 = 14029467366897019727
)

func xround(acc, in uint64) uint64 {
	acc += in * xp2
	return bits.RotateLeft64(acc, 31) * xp1
}

// Colliding builds two different values that, after prefix bytes of common
// text, have the same 64-bit xxhash: what a hash-keyed cache must not mix up.
func Colliding(r *rand.Rand, prefix string, tailLen int) (a, b string) {
	const alpha = "abcdefghijklmnopqrstuvwxyz0123456789"
	word := func(n int) string {
		o := make([]byte, n)
		for i := range o {
			o[i] = alpha[r.Intn(len(alpha))]
		}
		return string(o)
	}
	pad := word(32 - len(prefix)%32)
	head := prefix + pad
	v := xp1
	v += xp2 // lane 0 of seed 0
	for i := 0; i+32 <= len(head); i += 32 {
		v = xround(v, binary.LittleEndian.Uint64([]byte(head[i:])))
	}
	inv := uint64(1) // xp2^-1 mod 2^64
	for i := 0; i < 6; i++ {
		inv *= 2 - xp2*inv
	}
	rest1, rest2, tail := word(24), word(24), word(tailLen)
	a1, b1 := word(8), word(8)
	acc1 := xround(v, binary.LittleEndian.Uint64([]byte(a1)))
	for {
		a2 := word(8)
		if a2 == a1 {
			continue
		}
		acc2 := xround(v, binary.LittleEndian.Uint64([]byte(a2)))
		var b2 [8]byte
		binary.LittleEndian.PutUint64(b2[:], binary.LittleEndian.Uint64([]byte(b1))+(acc1-acc2)*inv)
		ok := true
		for _, c := range b2 {
			ok = ok && c >= ' ' && c < 0x7f && c != '=' && c != '\\'
		}
		if ok {
			return pad + a1 + rest1 + b1 + rest2 + tail, pad + a2 + rest1 + string(b2[:]) + rest2 + tail
		}
	}
}
