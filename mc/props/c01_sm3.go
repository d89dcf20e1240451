// Package props holds the properties and their harnesses, one file each.
package props

import (
	"bytes"
	"encoding/hex"
	"syscall"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm3"
)

// SM3 of n zero bytes, computed with OpenSSL (openssl dgst -sm3).
var zeroDigests = []struct {
	n int64
	h string
}{
	{1<<29 - 1, "1c4679f9e1f0dcbe86f8cd17b4df4fa26c84cde56f68b1b0b71ceb50c404b442"},
	{1 << 29, "7927ca8884a535d9a4d80986f7c478a790013ee370836dfb86a36b4443c86533"},
	{1<<29 + 64, "1b83e0a9694d780f5bab41811caf3b40f519888e7a0c7746c0fa3150b4f71ba1"},
	{1<<32 - 1, "0bc60a3a810c54e68e6413a624c2c1b473ae550dab8ec46930ad6dfc844ee0c2"},
	{1 << 32, "d8f3cf34d17be16481b6f9c26c37e189730f291bfe9f251f35f35a94de15790e"},
	{1<<32 + 65, "d0cfc51f07b2d257373cb6b29a1c7f2deb8b7e365c3202a3335a00a78a927344"},
}

func init() {
	engine.Register(&engine.Prop{ID: "C01", Harnesses: []engine.Harness{
		{Name: "large", Rule: "SM3 of 2^29-1 .. 2^32+65 zero bytes, one stream per unit with Sum at every checkpoint, and one-shot Sum of the same lengths, against OpenSSL's digests", Run: c01Large},
		{Name: "lengths", Rule: "every message length 0..4607 (quick) or 0..24575 (thorough) x 5 contents: Sum and New/Write/Sum equal the reference", Run: c01Lengths},
		{Name: "bits", Rule: "every single-bit message (only that bit set, and only that bit clear) of lengths around the padding and block boundaries", Run: c01Bits},
		{Name: "powers", Rule: "lengths 2^k-1, 2^k, 2^k+1, 2^k+64 for k up to 23 (quick) or 27 (thorough), non-constant content", Run: c01Powers},
		{Name: "blocks", Rule: "two-block messages: every pair of block contents from an alphabet of extreme words, so that every boolean and addition stage meets all-zero, all-one and carry-chain words", Run: c01Blocks},
	}, Assume: []string{"The reference SM3 is written from GB/T 32905-2016 and self-tested against the standard's vectors before every run."}})
}

func c01Large(t *engine.T) {
	mode := t.Pick("mode", 2)
	which := t.Pick("len", len(zeroDigests))
	t.Begin()
	z := zeroDigests[which]
	if mode == 0 {
		// streams: one that passes every checkpoint below 2^30, one for 2^32
		if which != 0 && which != 3 {
			return
		}
		d := sm3.New()
		chunk := make([]byte, 1<<20+13)
		var n int64
		for i := which; i < which+3; i++ {
			for n < zeroDigests[i].n {
				k := zeroDigests[i].n - n
				if k > int64(len(chunk)) {
					k = int64(len(chunk))
				}
				if m, err := d.Write(chunk[:k]); m != int(k) || err != nil {
					t.Fail("write", "Write returned %d, %v for %d bytes", m, err, k)
				}
				n += k
				t.Beat()
			}
			got := hex.EncodeToString(d.Sum(nil))
			t.Step(1)
			t.Check(got == zeroDigests[i].h, "large-stream", "SM3 of %d zero bytes: %s, OpenSSL says %s", n, got, zeroDigests[i].h)
		}
		t.Outcome("stream to %d bytes equals OpenSSL", n)
		return
	}
	if which == 1 || which == 3 {
		return // covered by the stream; one-shot on the other four
	}
	m, err := syscall.Mmap(-1, 0, int(z.n), syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		t.Outcome("no address space for %d bytes: %v", z.n, err)
		return
	}
	got := hex.EncodeToString(sm3.Sum(m))
	syscall.Munmap(m)
	t.Step(1)
	t.Check(got == z.h, "large-oneshot", "Sum of %d zero bytes: %s, OpenSSL says %s", z.n, got, z.h)
	t.Outcome("Sum(%d bytes) equals OpenSSL", z.n)
}

func c01One(t *engine.T, m []byte) {
	want := ref.SM3(m)
	in := append(make([]byte, 0, len(m)), m...)
	got := sm3.Sum(in)
	t.Step(2)
	t.Check(bytes.Equal(got, want), "sum", "Sum of %d bytes %.40x..: %x, reference %x", len(m), m, got, want)
	d := sm3.New()
	n, err := d.Write(in)
	t.Check(n == len(m) && err == nil, "write", "Write(%d bytes) = %d, %v", len(m), n, err)
	got = d.Sum(nil)
	t.Check(bytes.Equal(got, want), "stream", "New/Write/Sum of %d bytes %.40x..: %x, reference %x", len(m), m, got, want)
	t.Check(bytes.Equal(in, m), "input-modified", "hashing changed its input of %d bytes", len(m))
}

func c01Lengths(t *engine.T) {
	p := t.Pick("pattern", 5)
	g := t.Pick("group", t.Size(72, 384))
	t.Begin()
	for n := g * 64; n < g*64+64; n++ {
		c01One(t, kit.Pattern(p, n))
	}
	t.Outcome("lengths %d..%d pattern %d equal", g*64, g*64+63, p)
}

func c01Bits(t *engine.T) {
	lens := []int{1, 8, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 192}
	n := lens[t.Pick("len", len(lens))]
	clear := t.Pick("clear", 2)
	t.Begin()
	for bit := 0; bit < n*8; bit++ {
		m := make([]byte, n)
		if clear == 1 {
			for i := range m {
				m[i] = 0xff
			}
		}
		m[bit/8] ^= 0x80 >> (bit % 8)
		c01One(t, m)
	}
	t.Outcome("%d-byte messages, each bit, clear=%d", n, clear)
}

func c01Powers(t *engine.T) {
	k := t.Pick("k", t.Size(13, 17)) + 11
	off := []int{-1, 0, 1, 64}[t.Pick("off", 4)]
	t.Begin()
	m := kit.Pattern(0, 1<<k+off)
	c01One(t, m)
	t.Outcome("2^%d%+d bytes equal", k, off)
}

func c01Blocks(t *engine.T) {
	words := [][]byte{{0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 0, 0, 1}, {0x7f, 0xff, 0xff, 0xff}, {0xaa, 0xaa, 0xaa, 0xaa}, {0x55, 0x55, 0x55, 0x55}, {0x01, 0x23, 0x45, 0x67}}
	a := t.Pick("a", len(words))
	b := t.Pick("b", len(words))
	t.Begin()
	// block = b everywhere except word i = a
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			m := bytes.Repeat(words[b], 32)
			copy(m[4*i:], words[a])
			copy(m[64+4*j:], words[a])
			c01One(t, m)
		}
	}
	t.Outcome("words %x in %x", words[a], words[b])
}
