package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// Points with a coordinate of every length: each place where a coordinate is
// written into a field of fixed width has its own chance to get it wrong.

// tinyPick selects one of the 2 x 31 x 2 points with an x or y of 1..31
// significant bytes.
func tinyPick(t *engine.T) (ref.Point, string) {
	n := t.Pick("bytes", 31) + 1
	isY := t.Pick("coordinate", 2) == 1
	neg := t.Pick("negated", 2) == 1
	t.Begin()
	q := ref.Tiny(n, isY)
	if neg {
		q = ref.Neg(q)
	}
	return q, fmt.Sprintf("point (%x, %x)", q.X, q.Y)
}

func c03Coords(t *engine.T) {
	q, name := tinyPick(t)
	pub := kit.Pub(q)
	for _, uid := range [][]byte{nil, []byte("alice@example.com"), {0}} {
		for _, n := range []int{0, 1, 70} {
			msg := kit.Pattern(3, n)
			got, err := pub.SM3Digest(msg, uid)
			t.Step(1)
			t.Check(err == nil && bytes.Equal(got, ref.Digest(q, uid, msg)), "digest", "%s: SM3Digest(%d bytes, user %q) = %x, %v; reference %x", name, n, uid, got, err, ref.Digest(q, uid, msg))
		}
	}
	t.State("%s", name)
}

func c05Coords(t *engine.T) {
	q, name := tinyPick(t)
	n := 0
	try := func(p ref.Point, s, tt *big.Int, what string) {
		// the digest for which (tt - s, s) is a signature
		r := modN(new(big.Int).Sub(tt, s))
		sum := ref.Add(ref.MulG(s), ref.Mul(tt, p))
		e := ref.B32(modN(new(big.Int).Sub(r, sum.X)))
		pub := kit.Pub(p)
		t.Check(agree(t, "coords", pub, e, ref.DERSig(r, s), r, s), "harness", "%s: not valid for the reference", name)
		e[31] ^= 1
		t.Check(!agree(t, "coords", pub, e, ref.DERSig(r, s), r, s), "harness", "%s: valid for another digest", name)
		n++
		_ = what
	}
	a, b := kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21"), kit.H("4C62EEFD6ECFC2B95B92FD6C3D9575148AFA17425546D49018E5388D49DD7B4F")
	for _, st := range [][2]*big.Int{{a, b}, {kit.B(1), b}, {a, kit.B(2)}} {
		s, tt := st[0], st[1]
		try(q, s, tt, "key")
		// sG + tP = q
		try(ref.Mul(inv(tt), ref.Add(q, ref.Neg(ref.MulG(s)))), s, tt, "sum")
		// tP = q
		try(ref.Mul(inv(tt), q), s, tt, "multiple")
	}
	t.Outcome("%s: %d signatures", name, n)
}

func c06Tiny(t *engine.T) {
	q, name := tinyPick(t)
	d := kit.Keys[0].D
	k := kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	for _, n := range []int{0, 1, 32, 65} {
		msg := kit.Pattern(0, n)
		for i, c1 := range []ref.Point{q, ref.Mul(inv(d), q)} {
			ct, ok := ref.EncryptShared(c1, ref.Mul(d, c1), msg)
			if !ok {
				continue
			}
			got, err := sm2.Decryt(kit.Priv(d), ct)
			t.Step(1)
			t.Check(err == nil && bytes.Equal(got, msg), "interop", "%s as %s: Decryt of a standard ciphertext of %d bytes: %.80x, %v", name, []string{"C1", "shared point"}[i], n, got, err)
		}
		if !kit.NonceControl() {
			continue
		}
		for i, p := range []ref.Point{q, ref.Mul(inv(k), q)} {
			ct, err := sm2.Encryt(&kit.Script{Data: kit.NonceBytes(k), Next: kit.NewRand("tiny")}, kit.Pub(p), msg)
			t.Step(1)
			t.Check(err == nil && len(ct) == 97+n && ct[0] == 4, "encrypt", "%s: %x, %v", name, ct, err)
			c1 := ref.MulG(k)
			if !bytes.Equal(ct[1:65], append(ref.B32(c1.X), ref.B32(c1.Y)...)) {
				continue // another nonce, whose shared point we do not know
			}
			want, ok := ref.EncryptShared(c1, ref.Mul(k, p), msg)
			t.Check(!ok || bytes.Equal(ct, want), "encrypt-exact", "%s as %s: ciphertext %x, standard %x", name, []string{"key", "shared point"}[i], ct, want)
		}
	}
	t.State("%s", name)
}

func c09Coords(t *engine.T) {
	q, name := tinyPick(t)
	pub := kit.Pub(q)
	want := spkiOf(pub)
	der, err := x509.MarshalPKIXPublicKey(pub)
	t.Check(err == nil && bytes.Equal(der, want), "bytes", "%s: %x, want %x (%v)", name, der, want, err)
	k, err := x509.ParsePKIXPublicKey(want)
	p, ok := k.(*sm2.PublicKey)
	t.Check(err == nil && ok && kit.PointOf(p).Equal(q) && p.Equal(pub) && pub.Equal(p), "parse", "%s: %v", name, err)
	// a certificate with it
	c, err := x509.ParseCertificate(handCert(5, 2, "i", "s", want, xkeyOf(3)))
	t.Check(err == nil, "cert", "%s: %v", name, err)
	p, ok = c.PublicKey.(*sm2.PublicKey)
	t.Check(ok && kit.PointOf(p).Equal(q), "cert", "%s: another key in the certificate", name)
	t.Step(3)
	t.State("%s", name)
}
