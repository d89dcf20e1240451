package props

import (
	"bytes"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	engine.Register(&engine.Prop{ID: "C03", Harnesses: []engine.Harness{
		{Name: "matrix", Bound: 1, Deep: 2, Rule: "17 keys x 8 signing forms x deviations in message (8), user ID (8), random stream (4), key object (3): all 8 verification forms and the reference verifier accept", Run: c03Matrix},
		{Name: "extreme", Rule: "for every (r,s) over 13x13 extreme values x 2 nonces, the key and digest that give exactly that signature: signing yields a valid signature, MarshalSign/UnmarshalSign round-trip it, all digest forms accept it", Run: c03Extreme},
		{Name: "generated", Rule: "keys from GenerateKey over 24 (quick) or 200 (thorough) streams, including crafted ones: public key = d*G, d in [1,n-2], signatures made with it verify under its public key", Run: c03Generated},
		{Name: "coords", Rule: "keys with an x or y of every length 1..31 bytes, both signs, x 3 user IDs x 3 messages: the digest is the standard's", Run: c03Coords},
		{Name: "uidlen", Rule: "every user ID length 0..40 and every power-of-two boundary up to 8191: sign with the code, verify with the reference, and the reverse", Run: c03UID},
		{Name: "negated", Rule: "every key of the alphabet and its negative (same x), used in the orders +--+ and -++- x 3 user IDs x 8 forms: the reference accepts each signature under the right key", Run: c03Negated},
		{Name: "long", Rule: "messages of sizes up to 2^21 (quick) or 2^24 (thorough) around powers of two and ten: digest as the reference's, signed with the code and judged by the reference, and the reverse", Run: c03Long},
	}, Assume: []string{"User IDs are at most 8191 bytes, the limit of the standard's 16-bit ENTL field."}})
}

func c03Matrix(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	fi := t.Pick("form", len(signForms))
	msg := sm2Msgs[t.Choose("msg", len(sm2Msgs))]
	uid := sm2UIDs[t.Choose("uid", len(sm2UIDs))]
	st := t.Choose("stream", 4)
	obj := t.Choose("keyobj", 3)
	t.Begin()
	priv, nk := keyOf(ki)
	f := signForms[fi]
	digest := ref.Digest(kit.PubPoint(nk.D), uid, msg)
	got, err := priv.PublicKey.SM3Digest(msg, uid)
	t.Step(1)
	t.Check(err == nil && bytes.Equal(got, digest), "digest", "SM3Digest(key %s, %d-byte msg, %d-byte uid) = %x, %v; reference %x", nk.Name, len(msg), len(uid), got, err, digest)
	in := msg
	if f.digest {
		in = digest
	}
	var rd = [](interface {
		Read([]byte) (int, error)
	}){kit.NewRand("c03"), &kit.Const{C: 0}, &kit.Const{C: 0xff}, &kit.Chunked{R: kit.NewRand("c03b"), Max: 7}}[st]
	der, r, s := doSign(t, f, rd, priv, in, uid)
	pub := &priv.PublicKey
	switch obj {
	case 1:
		pub = priv.Public().(*sm2.PublicKey)
	case 2:
		pub = kit.Pub(kit.PubPoint(nk.D))
	}
	t.Check(ref.VerifyDigest(kit.PubPoint(nk.D), digest, r, s), "ref-reject", "%s with key %s: the reference rejects (%x,%x) for digest %x", f.name, nk.Name, r, s, digest)
	verifyAll(t, "reject-valid", pub, msg, uid, digest, der, r, s, true, false)
	t.Outcome("%s key=%s |m|=%d |uid|=%d r=%s accepted by 8 forms", f.name, nk.Name, len(msg), len(uid), short(r))
}

func extremes() []*big.Int {
	l := func(n uint, add int64) *big.Int {
		x := new(big.Int).Lsh(ref.One, n)
		return x.Add(x, kit.B(add))
	}
	return []*big.Int{kit.B(1), kit.B(2), kit.B(127), kit.B(128), kit.B(255), kit.B(256), l(64, 0), l(247, -1), l(247, 0), l(248, -1), l(248, 0), l(255, 0), kit.NSub(1)}
}

func c03Extreme(t *engine.T) {
	ex := extremes()
	r := ex[t.Pick("r", len(ex))]
	s := ex[t.Pick("s", len(ex))]
	k := []*big.Int{kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21"), kit.B(3)}[t.Pick("k", 2)]
	t.Begin()
	// d = (k-s)/(s+r), e = r - x(kG)
	den := new(big.Int).Add(s, r)
	den.Mod(den, ref.N)
	if den.Sign() == 0 {
		return
	}
	d := new(big.Int).Sub(k, s)
	d.Mul(d, new(big.Int).ModInverse(den, ref.N)).Mod(d, ref.N)
	if d.Sign() == 0 || d.Cmp(kit.NSub(1)) >= 0 || new(big.Int).Add(r, k).Cmp(ref.N) == 0 {
		return
	}
	e := new(big.Int).Sub(r, ref.MulG(k).X)
	e.Mod(e, ref.N)
	digest := ref.B32(e)
	priv := kit.Priv(d)
	t.Check(ref.VerifyDigest(kit.PubPoint(d), digest, r, s), "harness", "constructed signature is not valid")
	der, err := sm2.MarshalSign(r, s)
	t.Check(err == nil && bytes.Equal(der, ref.DERSig(r, s)), "marshal", "MarshalSign(%x,%x) = %x, %v", r, s, der, err)
	r2, s2, err := sm2.UnmarshalSign(der)
	t.Check(err == nil && r2.Cmp(r) == 0 && s2.Cmp(s) == 0, "unmarshal", "UnmarshalSign(%x) = %x,%x,%v", der, r2, s2, err)
	verifyAll(t, "reject-valid", &priv.PublicKey, nil, nil, digest, der, r, s, true, true)
	hit := 0
	for fi := 4; fi < 8; fi++ {
		_, gr, gs := doSign(t, signForms[fi], &kit.Script{Data: kit.NonceBytes(k), Next: kit.NewRand("x")}, priv, digest, nil)
		checkSig(t, d, digest, gr, gs)
		if gr.Cmp(r) == 0 && gs.Cmp(s) == 0 {
			hit++
		}
		if fi == 4 {
			verifyAll(t, "reject-valid", &priv.PublicKey, nil, nil, digest, nil, gr, gs, true, true)
		}
	}
	t.Outcome("r=%s s=%s signed as such by %d forms, accepted", short(r), short(s), hit)
}

func craftedKeyStreams() [][]byte {
	var out [][]byte
	for _, v := range []*big.Int{kit.B(0), kit.B(1), kit.B(2), kit.NSub(1), kit.NSub(2), kit.NSub(0), kit.NSub(-1), kit.NSub(3),
		new(big.Int).Sub(new(big.Int).Lsh(ref.One, 256), ref.One), kit.B(107), kit.B(327), kit.B(278982)} {
		raw := ref.B32(v)
		out = append(out, raw)
		x := kit.Clone(raw)
		x[1] ^= 0x42
		out = append(out, x)
		out = append(out, append(make([]byte, 8), raw...))
		if v.Sign() > 0 {
			out = append(out, append(make([]byte, 8), ref.B32(new(big.Int).Sub(v, ref.One))...))
		}
	}
	return out
}

func checkKey(t *engine.T, k *sm2.PrivateKey, err error) {
	t.Check(err == nil && k != nil && k.D != nil, "generate", "GenerateKey: %v", err)
	t.Check(k.D.Sign() > 0 && k.D.Cmp(kit.NSub(2)) <= 0, "key-range", "private key %x outside [1,n-2]", k.D)
	q := ref.MulG(k.D)
	t.Check(k.X != nil && k.Y != nil && k.X.Cmp(q.X) == 0 && k.Y.Cmp(q.Y) == 0, "key-pair", "d=%x: public key (%x,%x) is not d*G", k.D, k.X, k.Y)
	t.Check(k.Curve != nil && k.Curve.Params().N.Cmp(ref.N) == 0, "key-curve", "key is not on the SM2 curve")
}

func c03Generated(t *engine.T) {
	cr := craftedKeyStreams()
	i := t.Pick("stream", len(cr)+t.Size(24, 200))
	j := t.Pick("second", 3)
	t.Begin()
	rd := &kit.Script{Next: kit.NewRand("gen" + string(rune('a'+i%26)) + string(rune('a'+i/26)))}
	if i < len(cr) {
		rd.Data = append(rd.Data, cr[i]...)
		if j == 1 {
			rd.Data = append(rd.Data, cr[i]...)
		} else if j == 2 {
			rd.Data = append(rd.Data, cr[(i+9)%len(cr)]...)
		}
	} else if j > 0 {
		return
	}
	k, err := sm2.GenerateKey(rd)
	t.Step(1)
	checkKey(t, k, err)
	msg := []byte("generated")
	der, err := k.Sign(kit.NewRand("s"), msg, nil)
	t.Check(err == nil && sm2.Verify(k.Public().(*sm2.PublicKey), msg, nil, der), "reject-valid", "generated key %x: its signature does not verify (%v)", k.D, err)
	r, s, ok := parseSig(der)
	t.Check(ok && ref.VerifyDigest(kit.PointOf(&k.PublicKey), ref.Digest(kit.PointOf(&k.PublicKey), nil, msg), r, s), "ref-reject", "generated key %x: reference rejects", k.D)
	t.Outcome("stream %d/%d -> d=%s", i, j, short(k.D))
}

func c03UID(t *engine.T) {
	n := t.Pick("len", 41+10*3+1)
	ki := t.Pick("key", 3)
	t.Begin()
	switch {
	case n <= 40:
	case n == 71:
		n = 8191
	default:
		i := n - 41
		n = 1<<(i/3+4) + i%3 - 1
		if n > 8191 {
			return
		}
	}
	uid := kit.Pattern(0, n)
	priv, nk := keyOf([]int{0, 4, 6}[ki])
	pt := kit.PubPoint(nk.D)
	msg := []byte("uid lengths")
	digest := ref.Digest(pt, uid, msg)
	der, r, s := doSign(t, signForms[0], kit.NewRand("uid"), priv, msg, uid)
	t.Check(ref.VerifyDigest(pt, digest, r, s), "ref-reject", "%d-byte user ID: the reference rejects the code's signature", n)
	rr, rs, ok := ref.SignK(nk.D, kit.H("ABCDEF"), digest)
	t.Check(ok, "harness", "bad nonce")
	verifyAll(t, "reject-valid", &priv.PublicKey, msg, uid, digest, der, r, s, true, false)
	verifyAll(t, "reject-ref", &priv.PublicKey, msg, uid, digest, ref.DERSig(rr, rs), rr, rs, true, false)
	if n > 0 {
		other := kit.Clone(uid)
		other[n-1] ^= 1
		verifyAll(t, "accept-other-uid", &priv.PublicKey, msg, other, nil, der, r, s, false, false)
		verifyAll(t, "accept-other-uid", &priv.PublicKey, msg, uid[:n-1], nil, der, r, s, n == 1 && string(uid) == "", false)
	}
	t.Outcome("%d-byte user ID, key %s", n, nk.Name)
}

func c03Negated(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	order := []int{6, 9}[t.Pick("order", 2)]
	uid := [][]byte{nil, []byte("someone"), kit.Pattern(1, 64)}[t.Pick("uid", 3)]
	f := signForms[t.Pick("form", len(signForms))]
	t.Begin()
	d := kit.Keys[ki].D
	ds := []*big.Int{d, new(big.Int).Sub(ref.N, d)}
	if ds[1].Cmp(kit.NSub(1)) == 0 { // not a key
		ds[1] = d
	}
	msg := []byte("to be signed")
	for step := 0; step < 4; step++ {
		dd := ds[order>>step&1]
		pt := kit.PubPoint(dd)
		digest := ref.Digest(pt, uid, msg)
		in := msg
		if f.digest {
			in = digest
		}
		priv := kit.Priv(dd)
		der, r, s := doSign(t, f, kit.NewRand("neg"), priv, in, uid)
		t.Check(ref.VerifyDigest(pt, digest, r, s), "negated", "%s: step %d of order %d: the reference rejects (%x,%x) for key %x", f.name, step, order, r, s, dd)
		verifyAll(t, "negated", &priv.PublicKey, msg, uid, digest, der, r, s, true, false)
	}
	t.State("%d %d %d %s", ki, order, len(uid), f.name)
}

func c03Long(t *engine.T) {
	n := limitsOf(64, t.Size(1<<21+1, 1<<24+1))
	size := n[t.Pick("size", len(n))]
	t.Begin()
	priv, nk := keyOf(5)
	pt := kit.PubPoint(nk.D)
	uid := []byte("someone")
	msg := kit.Stream("long message", size)
	digest := ref.Digest(pt, uid, msg)
	got, err := priv.PublicKey.SM3Digest(msg, uid)
	t.Check(err == nil && bytes.Equal(got, digest), "digest", "SM3Digest of %d bytes = %x, %v; reference %x", size, got, err, digest)
	for i, f := range signForms {
		if i > 0 && size > 1<<17 && i != size%len(signForms) {
			continue
		}
		in := msg
		if f.digest {
			in = digest
		}
		_, r, s := doSign(t, f, kit.NewRand("long"), priv, in, uid)
		t.Check(ref.VerifyDigest(pt, digest, r, s), "ref-reject", "%s: message of %d bytes: the reference rejects the signature", f.name, size)
	}
	r, s, ok := ref.SignK(nk.D, kit.B(int64(size)), digest)
	t.Check(ok, "setup", "no signature")
	verifyAll(t, "reject-valid", &priv.PublicKey, msg, uid, digest, ref.DERSig(r, s), r, s, true, false)
	t.State("%d", size)
}
