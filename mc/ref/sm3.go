// Package ref holds independent, deliberately plain reference models written
// from the standards (GB/T 32905, GB/T 32918, RFC 2268, RFC 7292), without
// sharing code with the repository.
package ref

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
)

func rotl(x uint32, n int) uint32 { n &= 31; return x<<uint(n) | x>>uint((32-n)&31) }

// SM3State is a chaining value; used to precompute long messages.
type SM3State [8]uint32

var SM3IV = SM3State{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

// Compress is CF of GB/T 32905 section 5.3.3.
func (v *SM3State) Compress(blk []byte) {
	var w [68]uint32
	var w1 [64]uint32
	for i := 0; i < 16; i++ {
		w[i] = binary.BigEndian.Uint32(blk[4*i:])
	}
	p1 := func(x uint32) uint32 { return x ^ rotl(x, 15) ^ rotl(x, 23) }
	p0 := func(x uint32) uint32 { return x ^ rotl(x, 9) ^ rotl(x, 17) }
	for j := 16; j < 68; j++ {
		w[j] = p1(w[j-16]^w[j-9]^rotl(w[j-3], 15)) ^ rotl(w[j-13], 7) ^ w[j-6]
	}
	for j := 0; j < 64; j++ {
		w1[j] = w[j] ^ w[j+4]
	}
	a, b, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		var t, ff, gg uint32
		if j < 16 {
			t = 0x79cc4519
			ff = a ^ b ^ c
			gg = e ^ f ^ g
		} else {
			t = 0x7a879d8a
			ff = a&b | a&c | b&c
			gg = e&f | ^e&g
		}
		ss1 := rotl(rotl(a, 12)+e+rotl(t, j), 7)
		ss2 := ss1 ^ rotl(a, 12)
		tt1 := ff + d + ss2 + w1[j]
		tt2 := gg + h + ss1 + w[j]
		d, c, b, a = c, rotl(b, 9), a, tt1
		h, g, f, e = g, rotl(f, 19), e, p0(tt2)
	}
	for i, x := range []uint32{a, b, c, d, e, f, g, h} {
		v[i] ^= x
	}
}

// SM3 pads the whole message and hashes it.
func SM3(parts ...[]byte) []byte {
	var m []byte
	for _, p := range parts {
		m = append(m, p...)
	}
	n := uint64(len(m)) * 8
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], n)
	m = append(m, l[:]...)
	v := SM3IV
	for i := 0; i < len(m); i += 64 {
		v.Compress(m[i : i+64])
	}
	return v.Bytes()
}

func (v SM3State) Bytes() []byte {
	out := make([]byte, 32)
	for i, x := range v {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return out
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func must(ok bool, what string) error {
	if !ok {
		return errors.New(what)
	}
	return nil
}
