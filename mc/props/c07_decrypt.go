package props

import (
	"bytes"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	engine.Register(&engine.Prop{ID: "C07", Harnesses: []engine.Harness{
		{Name: "bitflips", Rule: "every single-bit change of ciphertexts of 0, 1, 8 and 40 bytes under 3 keys: an error and no plaintext", Run: c07Flips},
		{Name: "lengths", Rule: "every truncation from either end, every short input of 0..110 bytes of 5 contents, extensions", Run: c07Lengths},
		{Name: "points", Rule: "fully consistent ciphertexts over points that are not allowed as C1: off the curve, of order 2 on a twin curve, (0,0), coordinates >= p, negated and other points, compressed prefixes", Run: c07Points},
		{Name: "parts", Rule: "parts of two ciphertexts combined in every way (prefix, C1, C3, C2 from either, order C1C2C3 too), wrong private keys, each byte replaced by 4 values", Run: c07Parts},
		{Name: "pairs", Rule: "every pair of byte positions changed together (each by one of two values; quick: C1|C3 boundary and C3, C2 region; thorough: whole ciphertext)", Run: c07Pairs},
	}})
}

// judge compares Decryt with the reference on any input.
func judge(t *engine.T, key string, d *big.Int, ct []byte) bool {
	want, werr := ref.Decrypt(d, ct)
	in := kit.Clone(ct)
	if in == nil {
		in = []byte{}
	}
	got, err := sm2.Decryt(kit.Priv(d), in)
	t.Step(1)
	t.Check((err == nil) == (werr == nil), key, "Decryt(%x) error %v, reference error %v", ct, err, werr)
	t.Check(bytes.Equal(in, ct), "input-modified", "Decryt changed its input %x", ct)
	if err != nil {
		t.Check(len(got) == 0, "plaintext-with-error", "Decryt(%x) = %x together with error %v", ct, got, err)
		return false
	}
	t.Check(bytes.Equal(got, want), key, "Decryt(%x) = %x, reference %x", ct, got, want)
	return true
}

func c07Base(ki, n int) (*big.Int, []byte) {
	d := kit.Keys[[]int{0, 4, 2}[ki]].D
	ct, ok := ref.EncryptK(kit.PubPoint(d), kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21"), kit.Pattern(0, n))
	if !ok {
		panic("base ciphertext")
	}
	return d, ct
}

var c07Lens = []int{0, 1, 8, 40}

func c07Flips(t *engine.T) {
	ki := t.Pick("key", 3)
	n := c07Lens[t.Pick("len", 4)]
	at := t.Pick("byte", 137)
	t.Begin()
	d, ct := c07Base(ki, n)
	if at >= len(ct) {
		return
	}
	for bit := 0; bit < 8; bit++ {
		m := kit.Clone(ct)
		m[at] ^= 1 << bit
		t.Check(!judge(t, "bitflip", d, m), "bitflip", "accepted %x, bit %d of byte %d changed", m, bit, at)
	}
	t.Outcome("key %d len %d byte %d: 8 changes rejected", ki, n, at)
}

func c07Lengths(t *engine.T) {
	what := t.Pick("what", 4)
	n := t.Pick("n", 140)
	ki := t.Pick("key", 3)
	t.Begin()
	d, ct := c07Base(ki, 40)
	switch what {
	case 0:
		if n < len(ct) {
			t.Check(!judge(t, "truncated", d, ct[:n]), "truncated", "accepted the first %d of %d bytes", n, len(ct))
		}
	case 1:
		if n > 0 && n <= len(ct) {
			t.Check(!judge(t, "truncated", d, ct[n:]), "truncated", "accepted without the first %d bytes", n)
			m := kit.Clone(ct[n:])
			if len(m) > 0 {
				m[0] = 4
				judge(t, "truncated", d, m)
			}
		}
	case 2:
		for p := 0; p < 5; p++ {
			m := kit.Pattern(p, n)
			judge(t, "short", d, m)
			if n > 0 {
				m[0] = 4
				judge(t, "short", d, m)
			}
		}
		if n == 0 {
			judge(t, "short", d, nil)
		}
	case 3:
		t.Check(!judge(t, "extended", d, append(kit.Clone(ct), make([]byte, n+1)...)), "extended", "accepted with %d extra bytes", n+1)
		// an empty message's ciphertext with bytes appended
		_, c0 := c07Base(ki, 0)
		t.Check(judge(t, "empty", d, c0), "empty", "valid ciphertext of the empty message rejected")
		t.Check(!judge(t, "extended", d, append(c0, kit.Pattern(0, n+1)...)), "extended", "accepted with %d bytes appended to an empty message's ciphertext", n+1)
	}
	t.Outcome("what %d n %d key %d", what, n, ki)
}

// forge builds a ciphertext whose parts are consistent for C1 = p although p
// may not be allowed; sh is the shared point.
func forge(enc []byte, shx, shy []byte, msg []byte) []byte {
	ks := ref.KDF(append(kit.Clone(shx), shy...), len(msg))
	out := append([]byte{4}, enc...)
	out = append(out, ref.SM3(shx, msg, shy)...)
	for i := range msg {
		out = append(out, ks[i]^msg[i])
	}
	return out
}

func c07Points(t *engine.T) {
	kind := t.Pick("kind", 8)
	i := t.Pick("i", 8)
	ki := t.Pick("key", len(kit.Keys))
	mlen := []int{0, 16, 33}[t.Pick("mlen", 3)]
	t.Begin()
	d := kit.Keys[ki].D
	msg := kit.Pattern(0, mlen)
	cnt := 0
	expect := func(ct []byte, want bool) {
		got := judge(t, "points", d, ct)
		t.Check(got == want, "points", "kind %d: accepted=%v for %x", kind, got, ct)
		cnt++
	}
	b32 := func(x *big.Int) []byte { return ref.B32(x) }
	lim := new(big.Int).Lsh(ref.One, 256)
	switch kind {
	case 0: // small x, y off the curve; shared point by the same addition formulas
		p := ref.Point{X: kit.B(int64(i)), Y: kit.B(int64(i*i + 1))}
		if ref.OnCurve(p) {
			return
		}
		q := ref.Mul(d, p)
		if q.Inf() {
			expect(forge(append(b32(p.X), b32(p.Y)...), make([]byte, 32), make([]byte, 32), msg), false)
			return
		}
		expect(forge(append(b32(p.X), b32(p.Y)...), b32(q.X), b32(q.Y), msg), false)
	case 1: // order 2: y = 0; for odd d the shared point is C1 itself
		x := []*big.Int{kit.B(0), kit.B(1), kit.B(5), new(big.Int).Sub(ref.P, ref.One), ref.Gx, kit.B(0x1234), new(big.Int).Lsh(ref.One, 200), kit.B(77)}[i]
		enc := append(b32(x), make([]byte, 32)...)
		if ref.OnCurve(ref.Point{X: x, Y: new(big.Int)}) {
			return
		}
		expect(forge(enc, b32(x), make([]byte, 32), msg), false)
		expect(forge(enc, make([]byte, 32), make([]byte, 32), msg), false)
	case 2: // points of twin curves: same x, y changed
		p := ref.MulG(kit.B(int64(i + 2)))
		y := new(big.Int).Add(p.Y, ref.One)
		y.Mod(y, ref.P)
		q := ref.Mul(d, ref.Point{X: p.X, Y: y})
		if q.Inf() {
			return
		}
		expect(forge(append(b32(p.X), b32(y)...), b32(q.X), b32(q.Y), msg), false)
		// coordinates exchanged
		if !ref.OnCurve(ref.Point{X: p.Y, Y: p.X}) {
			q = ref.Mul(d, ref.Point{X: p.Y, Y: p.X})
			if !q.Inf() {
				expect(forge(append(b32(p.Y), b32(p.X)...), b32(q.X), b32(q.Y), msg), false)
			}
		}
	case 3: // x or y not reduced: valid point with x+p or y+p in 32 bytes
		x := kit.B(int64(i * 1000))
		for {
			q, ok := ref.Lift(x)
			if ok {
				sh := ref.Mul(d, q)
				xp := new(big.Int).Add(x, ref.P)
				if xp.Cmp(lim) < 0 {
					if mlen > 0 || true {
						// the canonical encoding is fine, the other is not
						good := forge(append(b32(q.X), b32(q.Y)...), b32(sh.X), b32(sh.Y), msg)
						_, err := ref.Decrypt(d, good)
						expect(good, err == nil)
					}
					expect(forge(append(b32(xp), b32(q.Y)...), b32(sh.X), b32(sh.Y), msg), false)
				}
				break
			}
			x.Add(x, ref.One)
		}
	case 4: // (0,0) and p-multiples as infinity
		encs := [][]byte{make([]byte, 64), append(b32(ref.P), b32(ref.P)...), append(make([]byte, 32), b32(ref.P)...), append(b32(ref.P), make([]byte, 32)...),
			append(kit.Pattern(2, 32), kit.Pattern(2, 32)...), append(b32(ref.N), b32(ref.N)...), append(make([]byte, 32), b32(kit.B(1))...), append(b32(kit.B(1)), make([]byte, 32)...)}
		expect(forge(encs[i], make([]byte, 32), make([]byte, 32), msg), false)
		expect(forge(encs[i], encs[i][:32], encs[i][32:], msg), false)
		expect(forge(encs[i], nil, nil, msg), false)
	case 5: // negated C1: valid point, other key stream
		p := ref.MulG(kit.B(int64(i + 2)))
		sh := ref.Mul(d, p)
		n := ref.Neg(p)
		expect(forge(append(b32(n.X), b32(n.Y)...), b32(sh.X), b32(sh.Y), msg), false)
		good := forge(append(b32(n.X), b32(n.Y)...), b32(sh.X), b32(ref.Neg(sh).Y), msg)
		_, err := ref.Decrypt(d, good)
		expect(good, err == nil)
	case 6: // other prefixes
		p := ref.MulG(kit.B(int64(i + 2)))
		sh := ref.Mul(d, p)
		good := forge(append(b32(p.X), b32(p.Y)...), b32(sh.X), b32(sh.Y), msg)
		good[0] = []byte{0, 1, 2, 3, 5, 6, 7, 0x30}[i]
		expect(good, false)
		// compressed form: prefix 02/03, x only
		comp := append([]byte{2 + byte(p.Y.Bit(0))}, good[1:33]...)
		comp = append(comp, good[65:]...)
		expect(comp, false)
		// raw C1||C3||C2 without the prefix
		expect(good[1:], false)
	case 7: // key stream all zero: the standard says error
		if mlen != 16 || ki > 4 {
			return
		}
		m := []int64{351, 587, 1107, 1797, 2242, 2428, 3356, 3466}[i]
		c1 := ref.Mul(inv(d), ref.MulG(kit.B(m)))
		sh := ref.MulG(kit.B(m))
		expect(forge(append(b32(c1.X), b32(c1.Y)...), b32(sh.X), b32(sh.Y), []byte{0x41}), false)
		expect(forge(append(b32(c1.X), b32(c1.Y)...), b32(sh.X), b32(sh.Y), []byte{0x41, 0x42}), true)
	}
	t.Outcome("kind %d i %d key %s len %d: %d ciphertexts", kind, i, kit.Keys[ki].Name, mlen, cnt)
}

func c07Parts(t *engine.T) {
	what := t.Pick("what", 3)
	i := t.Pick("i", 137)
	t.Begin()
	d := kit.Keys[0].D
	pub := kit.PubPoint(d)
	a, _ := ref.EncryptK(pub, kit.B(12345), kit.Pattern(0, 40))
	b, _ := ref.EncryptK(pub, kit.B(54321), kit.Pattern(3, 40))
	switch what {
	case 0:
		if i >= 8 {
			return
		}
		sel := func(bit int, lo, hi int) []byte {
			if i>>bit&1 == 1 {
				return b[lo:hi]
			}
			return a[lo:hi]
		}
		c1, c3, c2 := sel(0, 1, 65), sel(1, 65, 97), sel(2, 97, 137)
		judge(t, "mixed", d, bytes.Join([][]byte{{4}, c1, c3, c2}, nil))
		judge(t, "mixed", d, bytes.Join([][]byte{{4}, c1, c2, c3}, nil))
		judge(t, "mixed", d, bytes.Join([][]byte{{4}, c3, c2, c1}, nil))
		judge(t, "mixed", d, bytes.Join([][]byte{{4}, c1, c3}, nil))
		judge(t, "mixed", d, bytes.Join([][]byte{{4}, c1, c3, c2, c2}, nil))
		judge(t, "mixed", d, bytes.Join([][]byte{{4}, c1, c3, c3, c2}, nil))
	case 1:
		if i >= len(kit.Keys) {
			return
		}
		ok := judge(t, "wrong-key", kit.Keys[i].D, a)
		t.Check(ok == (i == 0), "wrong-key", "key %s decrypts: %v", kit.Keys[i].Name, ok)
	case 2:
		for _, v := range []byte{0, 0xff, 0x80, a[i] + 1} {
			m := kit.Clone(a)
			m[i] = v
			judge(t, "byte", d, m)
		}
	}
	t.Outcome("what %d i %d", what, i)
}

func c07Pairs(t *engine.T) {
	lo := t.Size(60, 0)
	n := 117
	i := lo + t.Pick("i", n-lo)
	j := lo + t.Pick("j", n-lo)
	if j <= i {
		j = i + 1 + (j-lo)%3
	}
	t.Begin()
	d := kit.Keys[0].D
	ct, _ := ref.EncryptK(kit.PubPoint(d), kit.B(999), kit.Pattern(0, 20))
	if j >= n {
		return
	}
	for _, x := range []byte{1, 0x80} {
		m := kit.Clone(ct)
		m[i] ^= x
		m[j] ^= x
		t.Check(!judge(t, "pair", d, m), "pair", "bytes %d and %d changed: accepted", i, j)
	}
	t.State("%d %d", i, j)
}
