package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	engine.Register(&engine.Prop{ID: "C05", Harnesses: []engine.Harness{
		{Name: "bitflips", Rule: "every single-bit change of the DER signature, and of r and s, x keys: each verification form agrees with the reference (strict DER parser + standard's verification)", Run: c05Flips},
		{Name: "range", Rule: "every pair over 15 r values x 15 s values (0, negatives, n-multiples added, exchanged, complements) x 4 keys x RS and DER forms", Run: c05Range},
		{Name: "der", Rule: "structurally altered encodings of a valid signature (padding, long-form and indefinite lengths, negative, missing and extra elements, wrong tags, trailing bytes, every truncation) x 4 keys", Run: c05DER},
		{Name: "binding", Rule: "every single-bit change of message, user ID and digest, other public keys, user ID and message exchanged, default user ID given explicitly", Run: c05Binding},
		{Name: "points", Rule: "keys constructed so that sG+tP is a doubling, the point at infinity, has x=0, x in [n,p) or x with leading zeros, or r+s=n, over extreme e: verdict equals the reference's", Run: c05Points},
		{Name: "coords", Rule: "signatures constructed so that the key, tP or sG+tP has an x or y of every length 1..31 bytes, both signs, x 3 pairs (s, t): accepted, and refused for another digest", Run: c05Coords},
		{Name: "aliases", Rule: "valid signatures constructed for every (r,s) over 9x9 small and large values, and every (r+a*n, s+b*n), a,b in -2..3, and every (r+-1, s+-1, r+2^256, s+2^256): the digest forms agree with the reference", Run: c05Aliases},
		{Name: "unchecked", Rule: "every (r, s) over 14 x 14 values, 12 out of range each (0, negatives, n-multiples added, n-complements), with digests constructed for a verifier that checks no range, in 4 readings of an out-of-range number, x 4 keys: the digest forms agree with the reference", Run: c05Unchecked},
		{Name: "lengths", Rule: "digests of every length 0..140 and 14 longer ones up to 70001 x 3 fillings: the signature over all of it (as an integer) is accepted, and refused when its first, middle or last byte changes or it is cut or extended", Run: c05Lengths},
		{Name: "negated", Rule: "every key of the alphabet and its negative (same x), and keys with the same y, in the orders +--+ and -++- x 3 user IDs x 2 messages: each accepts its own signature and refuses the other's, in message and digest forms", Run: c05Negated},
		{Name: "long", Rule: "messages of sizes up to 2^21 (quick) or 2^24 (thorough) around powers of two and ten, changed at the ends, around every power of two, and in length: judged as by the reference", Run: c05Long},
	}, Assume: []string{"Public keys are points of the curve; keys that are not are rejected when they are parsed (C10)."}})
}

// agree compares all forms of a digest verification with the reference.
func agree(t *engine.T, key string, p *sm2.PublicKey, digest, der []byte, r, s *big.Int) bool {
	want := false
	rr, ss := r, s
	ok := true
	if der != nil {
		rr, ss, ok = parseSig(der)
	}
	if ok {
		want = ref.VerifyDigest(kit.PointOf(p), digest, rr, ss)
	}
	verifyAll(t, key, p, nil, nil, digest, der, r, s, want, true)
	return want
}

type baseSig struct {
	d      *big.Int
	priv   *sm2.PrivateKey
	msg    []byte
	uid    []byte
	digest []byte
	r, s   *big.Int
}

func base(ki int) baseSig {
	ki = []int{0, 4, 5, 1}[ki]
	d := kit.Keys[ki].D
	b := baseSig{d: d, priv: kit.Priv(d), msg: []byte("to be verified"), uid: []byte("someone")}
	b.digest = ref.Digest(kit.PubPoint(d), b.uid, b.msg)
	var ok bool
	b.r, b.s, ok = ref.SignK(d, kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21"), b.digest)
	if !ok {
		panic("base signature")
	}
	return b
}

func c05Flips(t *engine.T) {
	b := base(t.Pick("key", 4))
	what := t.Pick("what", 3)
	at := t.Pick("byte", 72)
	t.Begin()
	pub := &b.priv.PublicKey
	der := ref.DERSig(b.r, b.s)
	acc := 0
	switch what {
	case 0:
		if at >= len(der) {
			return
		}
		for bit := 0; bit < 8; bit++ {
			m := kit.Clone(der)
			m[at] ^= 1 << bit
			r, s, ok := parseSig(m)
			want := ok && ref.VerifyDigest(kit.PointOf(pub), b.digest, r, s)
			for _, f := range verifyForms {
				if !f.der || bit%2 == 1 && f.name[0] == 'P' {
					continue
				}
				in := b.msg
				if f.digest {
					in = b.digest
				}
				got := f.call(pub, in, b.uid, m, nil, nil)
				t.Step(1)
				t.Check(got == want, "bitflip", "%s of %x (bit %d of byte %d changed) = %v, reference %v", f.name, m, bit, at, got, want)
			}
			if want {
				acc++
			}
		}
	default:
		if at >= 33 {
			return
		}
		for bit := 0; bit < 8; bit++ {
			r, s := new(big.Int).Set(b.r), new(big.Int).Set(b.s)
			x := r
			if what == 2 {
				x = s
			}
			n := at*8 + bit
			x.SetBit(x, n, 1-x.Bit(n))
			want := ref.VerifyDigest(kit.PointOf(pub), b.digest, r, s)
			for _, f := range verifyForms {
				if f.der || bit%2 == 1 && f.name[0] == 'P' {
					continue
				}
				in := b.msg
				if f.digest {
					in = b.digest
				}
				got := f.call(pub, in, b.uid, nil, new(big.Int).Set(r), new(big.Int).Set(s))
				t.Step(1)
				t.Check(got == want, "bitflip", "%s with bit %d of component %d changed = %v, reference %v", f.name, n, what, got, want)
			}
		}
	}
	t.Outcome("part %d byte %d: 8 changes judged as by the reference (%d accepted)", what, at, acc)
}

func variants(x, other *big.Int) []*big.Int {
	n := ref.N
	add := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
	return []*big.Int{x, kit.B(0), kit.B(1), kit.NSub(1), n, kit.NSub(-1), add(x, n), add(x, new(big.Int).Lsh(n, 1)), new(big.Int).Neg(x), kit.B(-1),
		new(big.Int).Sub(n, x), new(big.Int).Sub(x, n), other, new(big.Int).Sub(n, other), add(x, new(big.Int).Lsh(n, 256)), new(big.Int).Sub(new(big.Int).Lsh(ref.One, 256), ref.One)}
}

func c05Range(t *engine.T) {
	b := base(t.Pick("key", 4))
	ri := t.Pick("r", 16)
	si := t.Pick("s", 16)
	t.Begin()
	r, s := variants(b.r, b.s)[ri], variants(b.s, b.r)[si]
	pub := &b.priv.PublicKey
	want := ref.VerifyDigest(kit.PointOf(pub), b.digest, r, s)
	verifyAll(t, "range", pub, b.msg, b.uid, b.digest, ref.DERSig(r, s), r, s, want, false)
	if ri == 0 && si == 0 {
		t.Check(want, "harness", "base signature invalid")
	}
	// forgeries against a digest of zero or n
	for _, e := range [][]byte{make([]byte, 32), ref.B32(ref.N)} {
		agree(t, "range", pub, e, nil, r, s)
	}
	t.Outcome("r=%s s=%s -> %v", short(r), short(s), want)
}

func c05DER(t *engine.T) {
	b := base(t.Pick("key", 4))
	kind := t.Pick("kind", 33)
	t.Begin()
	pub := &b.priv.PublicKey
	r, s := ref.DERInt(b.r), ref.DERInt(b.s)
	good := ref.DERSig(b.r, b.s)
	pad := func(x []byte) []byte { // non-minimal integer
		return append([]byte{2, byte(len(x) - 1), 0}, x[2:]...)
	}
	longLen := func(tlv []byte, k int) []byte { // long-form length
		out := []byte{tlv[0], 0x80 | byte(k)}
		for i := k - 1; i >= 1; i-- {
			out = append(out, 0)
		}
		return append(append(out, tlv[1]), tlv[2:]...)
	}
	var cases [][]byte
	switch kind {
	case 0:
		cases = [][]byte{good}
	case 1:
		cases = [][]byte{append(kit.Clone(good), 0), append(kit.Clone(good), 0xff), append(kit.Clone(good), good...), append(kit.Clone(good), 5, 0)}
	case 2:
		cases = [][]byte{ref.Seq(pad(r), s), ref.Seq(r, pad(s)), ref.Seq(pad(r), pad(s)), ref.Seq(pad(pad(r)), s)}
	case 3:
		cases = [][]byte{longLen(good, 1), longLen(good, 2), ref.Seq(longLen(r, 1), s), ref.Seq(r, longLen(s, 1)), ref.Seq(r, longLen(s, 2))}
	case 4:
		cases = [][]byte{append(append([]byte{0x30, 0x80}, good[2:]...), 0, 0), append([]byte{0x30, 0x80}, good[2:]...)}
	case 5:
		cases = [][]byte{ref.Seq(r, s, r), ref.Seq(r, s, ref.Null()), ref.Seq(r), ref.Seq(s), ref.Seq(), ref.Seq(s, r), ref.Seq(r, r), ref.Seq(r, s, []byte{0})}
	case 6:
		cases = [][]byte{ref.Set(r, s), ref.TLV(0x10, r, s), ref.TLV(0x70, r, s), ref.TLV(0xb0, r, s), ref.Oct(good), ref.Seq(good), ref.TLV(0x31, r, s), ref.Ctx(0, r, s)}
	case 7:
		for _, tag := range []byte{0x03, 0x04, 0x0a, 0x22, 0x82, 0x42} {
			x := kit.Clone(r)
			x[0] = tag
			y := kit.Clone(s)
			y[0] = tag
			cases = append(cases, ref.Seq(x, s), ref.Seq(r, y))
		}
	case 8:
		cases = [][]byte{{}, {0}, {0x30}, {0x30, 0}, {0x30, 0x80}, {0x30, 0x84}, {0x30, 0x84, 0xff, 0xff, 0xff, 0xff}, {0x30, 0x82, 0, 0}, {0x30, 2, 2, 0}, {0x30, 4, 2, 0, 2, 0}, {0x30, 6, 2, 1, 0, 2, 1, 0}, {0x30, 6, 2, 1, 1, 2, 1, 1}, nil}
	case 9: // negative encodings of the same residue
		cases = [][]byte{ref.DERSig(new(big.Int).Sub(b.r, ref.N), b.s), ref.DERSig(b.r, new(big.Int).Sub(b.s, ref.N)), ref.DERSig(new(big.Int).Neg(b.r), b.s), ref.DERSig(b.r, new(big.Int).Neg(b.s))}
	case 10: // components without their sign byte, read as negative or unsigned
		strip := func(x *big.Int) []byte { return append([]byte{2, 32}, ref.B32(x)...) }
		cases = [][]byte{ref.Seq(strip(b.r), s), ref.Seq(r, strip(b.s)), ref.Seq(strip(b.r), strip(b.s)), append(ref.B32(b.r), ref.B32(b.s)...)}
	case 11: // huge
		h := new(big.Int).Add(b.r, new(big.Int).Lsh(ref.N, 4096))
		cases = [][]byte{ref.DERSig(h, b.s), ref.DERSig(b.s, h), ref.DERSig(h, h), ref.DERSig(new(big.Int).Lsh(ref.One, 80000), b.s)}
	case 12: // wrapped
		cases = [][]byte{ref.Seq(ref.Seq(r), s), ref.Seq(ref.Seq(r, s)), append(ref.Null(), good...), append([]byte{0x30, byte(len(good))}, good[1:]...)}
	default:
		n := (kind - 13) * 4
		for i := n; i < n+4 && i < len(good); i++ {
			cases = append(cases, good[:i], good[i:])
			x := kit.Clone(good[:i])
			if i >= 2 {
				x[1] = byte(i - 2)
				cases = append(cases, x)
			}
		}
	}
	acc := 0
	for _, c := range cases {
		if c == nil {
			c = []byte{}
		}
		rr, ss, ok := parseSig(c)
		want := ok && ref.VerifyDigest(kit.PointOf(pub), b.digest, rr, ss)
		verifyAll(t, "der", pub, b.msg, b.uid, b.digest, c, nil, nil, want, false)
		gr, gs, err := sm2.UnmarshalSign(c)
		t.Step(1)
		t.Check((err == nil) == ok, "unmarshal-strict", "UnmarshalSign(%.80x) error %v, reference parser ok=%v", c, err, ok)
		if ok {
			t.Check(gr.Cmp(rr) == 0 && gs.Cmp(ss) == 0, "unmarshal-value", "UnmarshalSign(%.80x) = %x,%x want %x,%x", c, gr, gs, rr, ss)
		}
		if want {
			acc++
		}
	}
	t.Outcome("kind %d: %d encodings, %d accepted", kind, len(cases), acc)
}

func c05Binding(t *engine.T) {
	b := base(t.Pick("key", 4))
	what := t.Pick("what", 7)
	t.Begin()
	pub := &b.priv.PublicKey
	der := ref.DERSig(b.r, b.s)
	n := 0
	rej := func(p *sm2.PublicKey, msg, uid, digest []byte) {
		want := false
		if digest == nil {
			want = ref.VerifyDigest(kit.PointOf(p), ref.Digest(kit.PointOf(p), uid, msg), b.r, b.s)
		} else {
			want = ref.VerifyDigest(kit.PointOf(p), digest, b.r, b.s)
		}
		verifyAll(t, "binding", p, msg, uid, digest, der, b.r, b.s, want, digest != nil)
		n++
	}
	switch what {
	case 0:
		for i := 0; i < len(b.msg)*8; i += 1 {
			m := kit.Clone(b.msg)
			m[i/8] ^= 1 << (i % 8)
			rej(pub, m, b.uid, nil)
		}
	case 1:
		for i := 0; i < len(b.uid)*8; i++ {
			u := kit.Clone(b.uid)
			u[i/8] ^= 1 << (i % 8)
			rej(pub, b.msg, u, nil)
		}
	case 2:
		for i := 0; i < 256; i++ {
			e := kit.Clone(b.digest)
			e[i/8] ^= 1 << (i % 8)
			rej(pub, nil, nil, e)
		}
	case 3:
		for i := range kit.Keys {
			p := kit.Pub(kit.PubPoint(kit.Keys[i].D))
			rej(p, b.msg, b.uid, nil)
			rej(p, nil, nil, b.digest)
		}
		rej(kit.Pub(ref.Neg(kit.PointOf(pub))), b.msg, b.uid, nil)
	case 4:
		rej(pub, b.uid, b.msg, nil)
		rej(pub, b.msg, nil, nil)
		rej(pub, b.msg, []byte{}, nil)
		rej(pub, b.msg, ref.DefaultUID, nil)
		rej(pub, nil, b.uid, nil)
		rej(pub, append(kit.Clone(b.uid), b.msg...), nil, nil)
		rej(pub, append(kit.Clone(b.msg), 0), b.uid, nil)
		rej(pub, b.msg, append(kit.Clone(b.uid), 0), nil)
		rej(pub, b.digest, b.uid, nil)
		for i := range b.msg {
			rej(pub, b.msg[:i], b.uid, nil)
			rej(pub, b.msg[i:], append(kit.Clone(b.uid), b.msg[:i]...), nil)
		}
	case 5: // empty user ID is the default one
		for _, uids := range [][2][]byte{{nil, ref.DefaultUID}, {{}, ref.DefaultUID}, {nil, {}}} {
			dg := ref.Digest(kit.PointOf(pub), uids[0], b.msg)
			r, s, _ := ref.SignK(b.d, kit.B(77), dg)
			verifyAll(t, "default-uid", pub, b.msg, uids[1], dg, ref.DERSig(r, s), r, s, true, false)
			verifyAll(t, "default-uid", pub, b.msg, uids[0], dg, ref.DERSig(r, s), r, s, true, false)
			n++
		}
	case 6: // digests of other lengths are integers: leading zeros do not matter, truncations do
		rej(pub, nil, nil, append([]byte{0}, b.digest...))
		rej(pub, nil, nil, append([]byte{1}, b.digest...))
		rej(pub, nil, nil, append(kit.Clone(b.digest), 0))
		rej(pub, nil, nil, b.digest[:31])
		rej(pub, nil, nil, b.digest[1:])
		rej(pub, nil, nil, []byte{})
		e := new(big.Int).SetBytes(b.digest)
		rej(pub, nil, nil, new(big.Int).Add(e, ref.N).Bytes())
	}
	t.Outcome("binding %d: %d variations judged as by the reference", what, n)
}

func c05Points(t *engine.T) {
	kind := t.Pick("kind", 8)
	i := t.Pick("i", 8)
	j := t.Pick("j", 5)
	t.Begin()
	scal := []*big.Int{kit.B(1), kit.B(2), kit.NSub(1), kit.NSub(2), kit.H("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8"), new(big.Int).Lsh(ref.One, 255), kit.B(107), kit.B(0x10001)}
	a := scal[i]
	es := []*big.Int{kit.B(0), kit.B(1), kit.NSub(1), ref.N, new(big.Int).Sub(new(big.Int).Lsh(ref.One, 256), ref.One)}
	e := es[j]
	nsubs := 0
	acc := 0
	check := func(p ref.Point, e, r, s *big.Int) {
		if p.Inf() {
			return
		}
		pub := kit.Pub(p)
		if agree(t, "points", pub, ref.B32(e), nil, r, s) {
			acc++
		}
		agree(t, "points", pub, ref.B32(e), ref.DERSig(r, s), nil, nil)
		nsubs++
	}
	keyFor := func(q ref.Point, s, tt *big.Int) ref.Point { // P with sG+tP = Q
		return ref.Mul(inv(tt), ref.Add(q, ref.Neg(ref.MulG(s))))
	}
	switch kind {
	case 0: // doubling: s = t*d
		d := kit.Keys[j+3].D
		s := modN(new(big.Int).Mul(a, d))
		r := modN(new(big.Int).Sub(a, s))
		if s.Sign() == 0 || r.Sign() == 0 {
			return
		}
		q := ref.MulG(modN(new(big.Int).Lsh(s, 1)))
		check(kit.PubPoint(d), modN(new(big.Int).Sub(r, q.X)), r, s)
	case 1: // infinity: s = -t*d; r = e would pass if infinity were (0,0)
		d := kit.Keys[j+3].D
		s := modN(new(big.Int).Neg(new(big.Int).Mul(a, d)))
		r := modN(new(big.Int).Sub(a, s))
		if s.Sign() == 0 || r.Sign() == 0 {
			return
		}
		check(kit.PubPoint(d), r, r, s)
		check(kit.PubPoint(d), modN(new(big.Int).Sub(r, s)), r, s)
	case 2: // x(Q) = 0
		q, ok := ref.Lift(kit.B(0))
		if !ok {
			t.Fail("harness", "no point with x=0")
		}
		if j%2 == 1 {
			q = ref.Neg(q)
		}
		r := modN(new(big.Int).Set(e))
		if r.Sign() == 0 {
			r = kit.B(5)
			e = kit.B(5)
		}
		s := a
		tt := modN(new(big.Int).Add(r, s))
		if tt.Sign() == 0 {
			return
		}
		check(keyFor(q, s, tt), e, r, s)
	case 3: // x(Q) >= n
		x := new(big.Int).Add(ref.N, kit.B(int64(j*50)))
		var q ref.Point
		for {
			var ok bool
			if q, ok = ref.Lift(x); ok {
				break
			}
			x.Add(x, ref.One)
		}
		for _, e := range es {
			r := modN(new(big.Int).Add(e, q.X))
			tt := modN(new(big.Int).Add(r, a))
			if r.Sign() == 0 || tt.Sign() == 0 {
				continue
			}
			check(keyFor(q, a, tt), e, r, a)
		}
	case 4: // r + s = n: t = 0
		q := ref.MulG(a)
		r := modN(new(big.Int).Neg(a))
		ee := modN(new(big.Int).Sub(r, q.X))
		check(kit.PubPoint(kit.Keys[j].D), ee, r, a)
	case 5: // e + x wraps around n, or reaches it
		q := ref.MulG(a)
		for _, e := range append(es, modN(new(big.Int).Neg(q.X)), modN(new(big.Int).Sub(kit.B(1), q.X)), modN(new(big.Int).Sub(kit.B(-1), q.X))) {
			r := modN(new(big.Int).Add(e, q.X))
			s := kit.Keys[j].D
			tt := modN(new(big.Int).Add(r, s))
			if tt.Sign() == 0 {
				continue
			}
			check(keyFor(q, s, tt), e, r, s) // includes r = 0, to be rejected
		}
	case 7: // infinity in the message forms: t = e/(1+d), s = -t*d, so r = e
		d := kit.Keys[[]int{0, 3, 4, 9, 6}[j]].D
		pub := kit.Pub(kit.PubPoint(d))
		msg := []byte{byte(i)}
		dg := ref.Digest(kit.PubPoint(d), nil, msg)
		tt := modN(new(big.Int).Mul(new(big.Int).SetBytes(dg), inv(new(big.Int).Add(d, ref.One))))
		s := modN(new(big.Int).Neg(new(big.Int).Mul(tt, d)))
		r := modN(new(big.Int).Sub(tt, s))
		want := ref.VerifyDigest(kit.PointOf(pub), dg, r, s)
		verifyAll(t, "points", pub, msg, nil, dg, ref.DERSig(r, s), r, s, want, false)
		nsubs++
	case 6: // x(Q) with leading zero bytes; key with coordinates with leading zeros
		q := ref.MulG(kit.B([]int64{327, 17883, 107, 193197, 278982}[j]))
		for _, e := range es[:3] {
			r := modN(new(big.Int).Add(e, q.X))
			tt := modN(new(big.Int).Add(r, a))
			if r.Sign() == 0 || tt.Sign() == 0 {
				continue
			}
			check(keyFor(q, a, tt), e, r, a)
		}
	}
	t.Outcome("kind %d scalar %s: %d constructed cases, %d accepted by both", kind, short(a), nsubs, acc)
}

// c05Aliases: with r and s small, r+n and s+n are still 256-bit numbers, so a
// bound on the size does not stand in for the range check.
func c05Aliases(t *engine.T) {
	l := func(n uint, add int64) *big.Int {
		x := new(big.Int).Lsh(ref.One, n)
		return x.Add(x, kit.B(add))
	}
	vals := []*big.Int{kit.B(1), kit.B(2), kit.B(200), l(64, 3), l(192, -1), l(223, 5), new(big.Int).Sub(l(256, -1), ref.N), new(big.Int).Sub(l(256, 0), ref.N), kit.NSub(1)}
	r := vals[t.Pick("r", len(vals))]
	s := vals[t.Pick("s", len(vals))]
	k := []*big.Int{kit.B(3), kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")}[t.Pick("k", t.Size(1, 2))]
	t.Begin()
	den := modN(new(big.Int).Add(r, s))
	if den.Sign() == 0 {
		return
	}
	d := modN(new(big.Int).Mul(modN(new(big.Int).Sub(k, s)), inv(den)))
	if d.Sign() == 0 || d.Cmp(kit.NSub(1)) >= 0 {
		return
	}
	digest := ref.B32(modN(new(big.Int).Sub(r, ref.MulG(k).X)))
	pub := kit.Pub(kit.PubPoint(d))
	acc := 0
	try := func(rr, ss *big.Int) {
		if agree(t, "aliases", pub, digest, ref.DERSig(rr, ss), rr, ss) {
			acc++
		}
	}
	shift := func(x *big.Int, a int64) *big.Int { return new(big.Int).Add(x, new(big.Int).Mul(kit.B(a), ref.N)) }
	for a := int64(-2); a <= 3; a++ {
		for b := int64(-2); b <= 3; b++ {
			try(shift(r, a), shift(s, b))
		}
	}
	one := ref.One
	for _, dl := range []*big.Int{one, new(big.Int).Neg(one), l(256, 0), l(264, 0), l(255, 0)} {
		try(new(big.Int).Add(r, dl), s)
		try(r, new(big.Int).Add(s, dl))
		try(new(big.Int).Add(r, dl), new(big.Int).Sub(s, dl))
	}
	t.Check(acc == 1, "harness", "%d of the forms of one signature accepted by the reference", acc)
	t.Outcome("r=%s s=%s: of 51 aliases only the canonical one accepted", short(r), short(s))
}

// c05Unchecked: digests for which (r, s) would satisfy the equation if the
// code did not look at their range.
func c05Unchecked(t *engine.T) {
	b := base(t.Pick("key", 4))
	vals := func(x *big.Int) []*big.Int {
		l := []*big.Int{x, kit.B(1), kit.B(0), kit.B(-1), new(big.Int).Neg(x), new(big.Int).Sub(x, ref.N), new(big.Int).Add(x, ref.N), new(big.Int).Set(ref.N), new(big.Int).Neg(ref.N),
			new(big.Int).Add(ref.N, ref.One), new(big.Int).Sub(new(big.Int).Neg(x), ref.N), new(big.Int).Lsh(ref.One, 256), new(big.Int).Add(new(big.Int).Lsh(ref.One, 256), x), new(big.Int).Lsh(ref.N, 1)}
		return l
	}
	ri, si := t.Pick("r", 14), t.Pick("s", 14)
	t.Begin()
	r, s := vals(b.r)[ri], vals(b.s)[si]
	low := new(big.Int).Sub(new(big.Int).Lsh(ref.One, 256), ref.One)
	read := []func(*big.Int) *big.Int{
		func(x *big.Int) *big.Int { return modN(new(big.Int).Set(x)) },
		func(x *big.Int) *big.Int { return new(big.Int).Abs(x) },
		func(x *big.Int) *big.Int { return new(big.Int).And(new(big.Int).Abs(x), low) },
		func(x *big.Int) *big.Int { return modN(new(big.Int).Sub(ref.N, x)) },
	}
	pp := kit.PubPoint(b.d)
	pub := kit.Pub(pp)
	n, acc := 0, 0
	seen := map[string]bool{}
	for _, f := range read {
		for _, g := range read {
			S := modN(f(s))
			T := modN(g(new(big.Int).Add(r, s)))
			q := ref.Add(ref.MulG(S), ref.Mul(T, pp))
			x := kit.B(0)
			if !q.Inf() {
				x = q.X
			}
			for _, h := range read {
				e := modN(new(big.Int).Sub(h(r), x))
				if seen[e.String()] {
					continue
				}
				seen[e.String()] = true
				if agree(t, "unchecked", pub, ref.B32(e), ref.DERSig(r, s), r, s) {
					acc++
				}
				n++
			}
		}
	}
	t.Check(acc == 0 || ri < 2 && si < 2, "harness", "the reference accepts r=%s s=%s", r, s)
	t.Outcome("r=%s s=%s: %d digests, %d accepted by both", short(r), short(s), n, acc)
}

// sameY gives the other points with the y of p, if there are any: x^3-3x is
// the same for the three roots.
func sameY(p ref.Point) []ref.Point {
	// x^2+x*x0+x0^2-3 = 0
	x0 := p.X
	d := new(big.Int).Mul(x0, x0)
	d.Mul(d, big.NewInt(-3)).Add(d, big.NewInt(12)).Mod(d, ref.P)
	r := new(big.Int).ModSqrt(d, ref.P)
	if r == nil {
		return nil
	}
	half := new(big.Int).ModInverse(big.NewInt(2), ref.P)
	var out []ref.Point
	for _, sg := range []int64{1, -1} {
		x := new(big.Int).Mul(r, big.NewInt(sg))
		x.Sub(x, x0).Mul(x, half).Mod(x, ref.P)
		q := ref.Point{X: x, Y: new(big.Int).Set(p.Y)}
		if ref.OnCurve(q) && !q.Equal(p) {
			out = append(out, q)
		}
	}
	return out
}

func c05Negated(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	order := []int{6, 9}[t.Pick("order", 2)]
	uid := [][]byte{nil, []byte("someone"), kit.Pattern(1, 64)}[t.Pick("uid", 3)]
	msg := [][]byte{{}, []byte("to be verified")}[t.Pick("msg", 2)]
	t.Begin()
	d := kit.Keys[ki].D
	ds := []*big.Int{d, new(big.Int).Sub(ref.N, d)}
	var pubs []*sm2.PublicKey
	var pts []ref.Point
	var dg [][]byte
	var rs, ss []*big.Int
	for i, dd := range ds {
		if dd.Cmp(kit.NSub(1)) == 0 { // no signatures with it
			dd = ds[0]
		}
		pt := ref.MulG(ds[i])
		pts = append(pts, pt)
		pubs = append(pubs, kit.Pub(pt))
		e := ref.Digest(pt, uid, msg)
		dg = append(dg, e)
		r, s, ok := ref.SignK(dd, kit.B(int64(1000+ki)), e)
		if !ok {
			t.Fail("setup", "no signature")
		}
		rs, ss = append(rs, r), append(ss, s)
	}
	for _, q := range sameY(pts[0]) {
		pts = append(pts, q)
		pubs = append(pubs, kit.Pub(q))
		dg = append(dg, ref.Digest(q, uid, msg))
		rs, ss = append(rs, rs[0]), append(ss, ss[0])
	}
	for step := 0; step < 4; step++ {
		i := order >> step & 1
		for _, k := range []int{i, i + 2} {
			if k >= len(pubs) {
				continue
			}
			got, err := pubs[k].SM3Digest(msg, uid)
			t.Step(1)
			t.Check(err == nil && string(got) == string(dg[k]), "digest", "step %d of order %d: SM3Digest for (%x,%x) = %x, %v; reference %x", step, order, pts[k].X, pts[k].Y, got, err, dg[k])
			for j := range rs {
				want := ref.VerifyDigest(pts[k], dg[k], rs[j], ss[j])
				verifyAll(t, "negated", pubs[k], msg, uid, dg[k], ref.DERSig(rs[j], ss[j]), rs[j], ss[j], want, false)
			}
		}
	}
	t.State("%d %d %d %d %d", ki, order, len(uid), len(msg), len(pubs))
}

func c05Long(t *engine.T) {
	n := limitsOf(64, t.Size(1<<21+1, 1<<24+1))
	size := n[t.Pick("size", len(n))]
	t.Begin()
	b := base(0)
	pub := &b.priv.PublicKey
	msg := kit.Stream("long message", size)
	dg := ref.Digest(kit.PointOf(pub), b.uid, msg)
	r, s, ok := ref.SignK(b.d, kit.B(int64(size)), dg)
	t.Check(ok, "setup", "no signature")
	der := ref.DERSig(r, s)
	judge := func(what string, m []byte, want bool) {
		got := []bool{sm2.Verify(pub, m, b.uid, der), pub.VerifyRS(m, b.uid, new(big.Int).Set(r), new(big.Int).Set(s))}
		t.Step(2)
		t.Check(got[0] == want && got[1] == want, "long", "message of %d bytes, %s: Verify and VerifyRS %v, want %v", size, what, got, want)
	}
	judge("unchanged", msg, true)
	at := []int{0, size / 2, size - 1}
	for p := 64; p < size; p *= 4 {
		at = append(at, p)
	}
	for _, i := range at {
		msg[i] ^= 0x10
		judge("a byte changed", msg, false)
		msg[i] ^= 0x10
	}
	judge("shortened", msg[:size-1], false)
	judge("without its first byte", msg[1:], false)
	judge("extended", append(kit.Clone(msg), 0), false)
	t.State("%d", size)
}

// c05Lengths: the digest forms take the whole digest, whatever its length.
func c05Lengths(t *engine.T) {
	n := t.Pick("length", 155)
	fill := t.Pick("fill", 3)
	t.Begin()
	if n > 140 {
		n = []int{159, 160, 192, 200, 255, 256, 257, 511, 512, 1000, 1024, 4096, 65536, 70001}[n-141]
	}
	b := base(1)
	pub := &b.priv.PublicKey
	dg := kit.Pattern(1, n)
	switch fill {
	case 1:
		dg = bytes.Repeat([]byte{0xff}, n)
	case 2:
		dg = kit.Stream("c05len", n)
	}
	r, s, ok := ref.SignK(b.d, kit.B(4711), dg)
	if !ok {
		t.Outcome("degenerate")
		return
	}
	der := ref.DERSig(r, s)
	judge := func(what string, d []byte) {
		want := ref.VerifyDigest(kit.PointOf(pub), d, r, s)
		t.Step(2)
		got := sm2.VerifyDigest(pub, d, der)
		t.Check(got == want, "lengths", "digest of %d bytes, %s: VerifyDigest = %v, reference %v", n, what, got, want)
		got = pub.VerifyDigestRS(d, r, s)
		t.Check(got == want, "lengths", "digest of %d bytes, %s: VerifyDigestRS = %v, reference %v", n, what, got, want)
	}
	judge("signed", dg)
	for _, i := range []int{0, n / 2, n - 32, n - 1} {
		if i >= 0 && i < n {
			c := kit.Clone(dg)
			c[i] ^= 1
			judge(fmt.Sprintf("byte %d changed", i), c)
		}
	}
	judge("extended", append(kit.Clone(dg), 0))
	judge("with a leading zero", append([]byte{0}, dg...))
	if n > 0 {
		judge("cut at the end", dg[:n-1])
		judge("cut at the start", dg[1:])
	}
	// and a signature made over it
	r, s, err := b.priv.SignDigestRS(kit.NewRand("c05len"), kit.Clone(dg))
	t.Check(err == nil && ref.VerifyDigest(kit.PointOf(pub), dg, r, s), "lengths", "digest of %d bytes: signed with error %v, or not a valid signature over all of it", n, err)
	t.Step(1)
	t.State("%d %d", n, fill)
	t.Outcome("fill %d", fill)
}
