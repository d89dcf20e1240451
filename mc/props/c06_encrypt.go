package props

import (
	"bytes"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	engine.Register(&engine.Prop{ID: "C06", Harnesses: []engine.Harness{
		{Name: "lengths", Rule: "every message length 0..130 (quick) or 0..600 (thorough) x 17 keys (quick: rotating for lengths > 66): both directions with the reference, 97+len bytes, C1 on the curve", Run: c06Lengths},
		{Name: "coords", Rule: "every pair (C1, shared point) from 14x14 points whose coordinates have leading zero bytes or not, x 4 message lengths, under nonce control; reference ciphertexts in any case", Run: c06Coords},
		{Name: "tiny", Rule: "C1, shared point or key with an x or y of every length 1..31 bytes, both signs, x 4 message lengths: standard ciphertexts decrypt; under nonce control the ciphertext is the standard's", Run: c06Tiny},
		{Name: "redraw", Rule: "nonces whose key stream for the message is all zero (1- and 2-byte messages): every sequence of up to 3 such draws before a good one; the result is a ciphertext the reference accepts", Run: c06Redraw},
		{Name: "large", Rule: "lengths around the key-stream counter's byte boundaries (255, 256, 65535, 65536 blocks) and contents", Run: c06Large},
		{Name: "streams", Rule: "every nonce k = 1..16000 (quick) or 1..200000 (thorough) under 2 keys: standard ciphertexts of messages of 1, 2 and 33 bytes decrypt (this covers key streams and hashes that begin or end with one or two zero bytes); every 8th nonce also in the other direction", Run: c06Streams},
		{Name: "content", Bound: 2, Deep: 3, Rule: "17 keys x deviations in content (5), stream (4), length (8): round trip; the same stream gives the same ciphertext", Run: c06Content},
	}})
}

// checkCT verifies a ciphertext of msg made by the code.
func checkCT(t *engine.T, d *big.Int, ct, msg []byte) {
	t.Check(len(ct) == 97+len(msg) && ct[0] == 4, "format", "ciphertext of %d bytes has %d bytes, first %.1x", len(msg), len(ct), ct)
	got, err := ref.Decrypt(d, ct)
	t.Check(err == nil && bytes.Equal(got, msg), "ref-decrypt", "the reference decrypts %.300x to %.100x, %v; message %.100x", ct, got, err, msg)
	got, err = sm2.Decryt(kit.Priv(d), ct)
	t.Step(2)
	t.Check(err == nil && bytes.Equal(got, msg), "roundtrip", "Decryt(Encryt(m)) = %.100x, %v for the %d-byte message %.100x, d=%x, ciphertext %.300x", got, err, len(msg), msg, d, ct)
}

func checkRefCT(t *engine.T, d, k *big.Int, msg []byte) bool {
	ct, ok := ref.EncryptK(kit.PubPoint(d), k, msg)
	if !ok {
		return false
	}
	got, err := sm2.Decryt(kit.Priv(d), ct)
	t.Step(1)
	t.Check(err == nil && bytes.Equal(got, msg), "interop", "Decryt of a standard ciphertext (d=%x k=%x m=%.80x) = %.80x, %v", d, k, msg, got, err)
	return true
}

func c06Lengths(t *engine.T) {
	n := t.Pick("len", t.Size(131, 601))
	kn := len(kit.Keys)
	if n > 66 {
		kn = 2
	}
	ki := t.Pick("key", kn)
	t.Begin()
	if n > 66 {
		ki = (ki*7 + n) % len(kit.Keys)
	}
	d := kit.Keys[ki].D
	msg := kit.Pattern(n%5, n)
	saved := kit.Clone(msg)
	ct, err := sm2.Encryt(kit.NewRand("c06"), kit.Pub(kit.PubPoint(d)), msg)
	t.Step(1)
	t.Check(err == nil, "encrypt", "Encryt(%d bytes): %v", n, err)
	t.Check(bytes.Equal(saved, msg), "input-modified", "Encryt changed the message")
	checkCT(t, d, ct, msg)
	checkRefCT(t, d, kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21"), msg)
	t.Outcome("key %s %d bytes both ways", kit.Keys[ki].Name, n)
}

var shortMult = []int64{1, 2, 107, 119, 206, 327, 659, 1270, 17883, 60190, 193197, 252436, 278982, 304071}

func c06Coords(t *engine.T) {
	a := shortMult[t.Pick("c1", len(shortMult))]
	b := shortMult[t.Pick("shared", len(shortMult))]
	t.Begin()
	// C1 = aG, shared = d*aG = bG
	d := modN(new(big.Int).Mul(kit.B(b), inv(kit.B(a))))
	if d.Cmp(kit.NSub(2)) > 0 {
		return
	}
	exact := 0
	for _, n := range []int{0, 1, 32, 33, 64} {
		msg := kit.Pattern(0, n)
		checkRefCT(t, d, kit.B(a), msg)
		if !kit.NonceControl() {
			continue
		}
		ct, err := sm2.Encryt(&kit.Script{Data: kit.NonceBytes(kit.B(a)), Next: kit.NewRand("co")}, kit.Pub(kit.PubPoint(d)), msg)
		t.Step(1)
		t.Check(err == nil, "encrypt", "%v", err)
		checkCT(t, d, ct, msg)
		if want, ok := ref.EncryptK(kit.PubPoint(d), kit.B(a), msg); ok && bytes.Equal(want, ct) {
			exact++
		}
	}
	t.Outcome("C1=%dG shared=%dG: exact %d of 5", a, b, exact)
}

func c06Redraw(t *engine.T) {
	two := t.Pick("two", 2)
	ki := t.Pick("key", 3)
	var seq []int
	for len(seq) < t.Size(3, 4) {
		c := t.Pick("draw", 4)
		if c == 3 {
			break
		}
		seq = append(seq, c)
	}
	t.Begin()
	d := kit.Keys[[]int{0, 1, 4}[ki]].D
	mults := []int64{351, 587, 2428}
	n := 1
	if two == 1 {
		mults = []int64{9842, 35398, 110359}
		n = 2
	}
	var data []byte
	for _, c := range seq {
		k := modN(new(big.Int).Mul(kit.B(mults[c]), inv(d)))
		if _, ok := ref.EncryptK(kit.PubPoint(d), k, make([]byte, n)); ok {
			t.Fail("harness", "key stream is not zero")
		}
		data = append(data, kit.NonceBytes(k)...)
	}
	data = append(data, kit.NonceBytes(kit.H("4C62EEFD6ECFC2B95B92FD6C3D9575148AFA17425546D49018E5388D49DD7B4F"))...)
	pub := kit.Pub(kit.PubPoint(d))
	for _, m := range [][]byte{make([]byte, n), kit.Pattern(2, n), kit.Pattern(0, n+1)} {
		ct, err := sm2.Encryt(&kit.Script{Data: data, Next: kit.NewRand("rd")}, pub, m)
		t.Step(1)
		t.Check(err == nil, "encrypt", "%v", err)
		checkCT(t, d, ct, m)
		if len(m) == n {
			t.Check(!bytes.Equal(ct[97:], m), "zero-keystream", "draws %v: message sent in clear", seq)
		}
	}
	// every draw degenerate: the source runs dry, no ciphertext
	if len(seq) > 0 && kit.NonceControl() {
		ct, err := sm2.Encryt(&kit.Script{Data: data[:len(data)-40]}, pub, kit.Pattern(2, n))
		t.Step(1)
		t.Check(err != nil && ct == nil, "zero-keystream", "only zero-key-stream nonces %v: got ciphertext %x, %v", seq, ct, err)
	}
	t.Outcome("%d-byte message draws %v", n, seq)
}

func c06Large(t *engine.T) {
	lens := []int{255 * 32, 255*32 + 1, 256 * 32, 256*32 + 1, 257 * 32, 1 << 16, 1<<16 + 5, 65535 * 32, 65535*32 + 1, 65536*32 + 31, 65537 * 32, 3 << 20}
	n := lens[t.Pick("len", len(lens)-t.Size(1, 0))]
	p := t.Pick("content", 2)
	t.Begin()
	d := kit.Keys[4*p].D
	msg := kit.Pattern(p, n)
	ct, err := sm2.Encryt(kit.NewRand("big"), kit.Pub(kit.PubPoint(d)), msg)
	t.Check(err == nil, "encrypt", "%v", err)
	t.Step(1)
	checkCT(t, d, ct, msg)
	t.Outcome("%d bytes content %d", n, p)
}

func c06Content(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	p := t.Choose("content", 5)
	st := t.Choose("stream", 4)
	n := []int{16, 0, 1, 31, 32, 33, 96, 255}[t.Choose("len", 8)]
	t.Begin()
	d := kit.Keys[ki].D
	msg := kit.Pattern(p, n)
	mk := func() interface{ Read([]byte) (int, error) } {
		return [](interface{ Read([]byte) (int, error) }){kit.NewRand("ct"), &kit.Const{C: 0x11}, &kit.Const{C: 0xff}, &kit.Chunked{R: kit.NewRand("ct2"), Max: 3, Zero: 2}}[st]
	}
	a, err := sm2.Encryt(mk(), kit.Pub(kit.PubPoint(d)), msg)
	t.Check(err == nil, "encrypt", "%v", err)
	b, err := sm2.Encryt(mk(), kit.Pub(kit.PubPoint(d)), msg)
	t.Step(2)
	t.Check(err == nil && bytes.Equal(a, b), "determinism", "same stream, different ciphertexts")
	checkCT(t, d, a, msg)
	t.Outcome("key %s content %d len %d stream %d", kit.Keys[ki].Name, p, n, st)
}

func c06Streams(t *engine.T) {
	const per = 40
	blk := t.Pick("block", t.Size(400, 5000))
	ki := t.Pick("key", 2)
	t.Begin()
	d := kit.Keys[[]int{4, 5}[ki]].D
	lead, trail, skipped := 0, 0, 0
	for i := 0; i < per; i++ {
		k := kit.B(int64(blk*per + i + 1))
		for _, n := range []int{1, 2, 33} {
			msg := kit.Pattern(3, n)
			if !checkRefCT(t, d, k, msg) {
				skipped++
			}
		}
		ct, ok := ref.EncryptK(kit.PubPoint(d), k, make([]byte, 33))
		if ok && ct[97] == 0 {
			lead++
		}
		if ok && ct[len(ct)-1] == 0 {
			trail++
		}
		if i%8 == 0 && kit.NonceControl() {
			msg := kit.Pattern(2, 1+i%3)
			ct, err := sm2.Encryt(&kit.Script{Data: kit.NonceBytes(k), Next: kit.NewRand("st")}, kit.Pub(kit.PubPoint(d)), msg)
			t.Step(1)
			t.Check(err == nil, "encrypt", "%v", err)
			checkCT(t, d, ct, msg)
		}
	}
	t.Outcome("nonces %d.. key %d: %d key streams begin and %d end with a zero byte, %d degenerate", blk*per+1, ki, lead, trail, skipped)
}
