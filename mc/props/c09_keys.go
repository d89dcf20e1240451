package props

import (
	"bytes"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"fmt"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C09", Harnesses: []engine.Harness{
		{Name: "sm2", Rule: "scalars 1..400, n-2..n-401, every power of two and of 256 with neighbours, the key alphabet: PKCS #8 and PKIX encodings have the standard's structure with 32-byte fields and parse back to an equal key that works", Run: c09SM2},
		{Name: "sm2foreign", Rule: "standard encodings of SM2 keys made by other software (with or without the optional curve OID, public key, scalar zero padding, SEC 1 form): parse to the same key", Run: c09Foreign},
		{Name: "coords", Rule: "public keys with an x or y of every length 1..31 bytes, both signs: standard encoding, parse back, also from a certificate", Run: c09Coords},
		{Name: "std", Rule: "RSA (7 keys, 3 of them with 3 to 5 primes), ECDSA on 4 curves x 8 scalars, Ed25519 x 6: PKCS #8, PKCS #1, SEC 1 and PKIX bytes equal crypto/x509's, and parse back equal from either's output", Run: c09Std},
		{Name: "equal", Rule: "Equal over all ordered pairs of 30 keys of all types: true exactly for the same key", Run: c09Equal},
		{Name: "format", Rule: "every key type x every parser not meant for it: an error, never a wrong key; unsupported types and curves give an error from every Marshal function", Run: c09Format},
	}})
}

var (
	oidECPub   = ref.OID(1, 2, 840, 10045, 2, 1)
	oidSM2Crv  = ref.OID(1, 2, 156, 10197, 1, 301)
	oidRSAEnc  = ref.OID(1, 2, 840, 113549, 1, 1, 1)
	oidP256Crv = ref.OID(1, 2, 840, 10045, 3, 1, 7)
)

func point04(p ref.Point) []byte {
	return append(append([]byte{4}, ref.B32(p.X)...), ref.B32(p.Y)...)
}

func sm2PKIX(p ref.Point) []byte {
	return ref.Seq(ref.Seq(oidECPub, oidSM2Crv), ref.BitStr(point04(p)))
}

// sm2SEC1 is the ECPrivateKey structure; withOID and withPub select the optional parts.
func sm2SEC1(d *big.Int, scalar []byte, withOID, withPub bool) []byte {
	body := [][]byte{ref.Int(1), ref.Oct(scalar)}
	if withOID {
		body = append(body, ref.Ctx(0, oidSM2Crv))
	}
	if withPub {
		body = append(body, ref.Ctx(1, ref.BitStr(point04(kit.PubPoint(d)))))
	}
	return ref.Seq(body...)
}

func pkcs8Wrap(alg []byte, inner []byte) []byte {
	return ref.Seq(ref.Int(0), alg, ref.Oct(inner))
}

func checkSM2Priv(t *engine.T, what string, got any, err error, d *big.Int) {
	t.Step(1)
	k, ok := got.(*sm2.PrivateKey)
	t.Check(err == nil && ok, "parse", "%s of key %x: %T, %v", what, d, got, err)
	q := kit.PubPoint(d)
	t.Check(k.D.Cmp(d) == 0 && k.X.Cmp(q.X) == 0 && k.Y.Cmp(q.Y) == 0, "wrong-key", "%s of key %x gives d=%x Q=(%x,%x)", what, d, k.D, k.X, k.Y)
	want := kit.Priv(d)
	t.Check(k.Equal(want) && want.Equal(k), "equal", "%s of key %x: parsed key is not Equal", what, d)
}

func c09Scalar(i int) *big.Int {
	switch {
	case i < 400:
		return kit.B(int64(i + 1))
	case i < 800:
		return kit.NSub(int64(i - 400 + 2))
	case i < 800+256*3:
		j := i - 800
		return new(big.Int).Add(new(big.Int).Lsh(ref.One, uint(j/3)), kit.B(int64(j%3)-1))
	default:
		j := i - 800 - 256*3
		if j < len(kit.Keys) {
			return kit.Keys[j].D
		}
	}
	return nil
}

func c09SM2(t *engine.T) {
	i := t.Pick("scalar", 800+768+len(kit.Keys))
	t.Begin()
	d := c09Scalar(i)
	if d.Sign() <= 0 || d.Cmp(kit.NSub(2)) > 0 {
		return
	}
	key := kit.Priv(d)
	p := kit.PubPoint(d)
	der, err := x509.MarshalPKCS8PrivateKey(key)
	t.Check(err == nil, "marshal", "MarshalPKCS8PrivateKey(%x): %v", d, err)
	n := ref.Parse(der, 0)
	t.Check(len(n) == 1 && len(n[0].Children) == 3, "structure", "PKCS #8 of %x: %x", d, der)
	alg := ref.Seq(oidECPub, oidSM2Crv)
	t.Check(bytes.Equal(n[0].At(1).Raw, alg), "structure", "PKCS #8 algorithm %x", n[0].At(1).Raw)
	in := ref.Parse(n[0].At(2).Body, 0)
	t.Check(len(in) == 1 && in[0].At(1) != nil && bytes.Equal(in[0].At(1).Body, ref.B32(d)), "scalar", "PKCS #8 of %x carries the scalar %x", d, n[0].At(2).Body)
	want := pkcs8Wrap(alg, sm2SEC1(d, ref.B32(d), true, true))
	want2 := pkcs8Wrap(alg, sm2SEC1(d, ref.B32(d), false, true))
	t.Check(bytes.Equal(der, want) || bytes.Equal(der, want2), "structure", "PKCS #8 of %x is %x, standard %x", d, der, want)
	k, err := x509.ParsePKCS8PrivateKey(der)
	checkSM2Priv(t, "PKCS #8", k, err, d)
	pub, err := x509.MarshalPKIXPublicKey(&key.PublicKey)
	t.Check(err == nil && bytes.Equal(pub, sm2PKIX(p)), "pkix", "PKIX of %x: %x, %v", d, pub, err)
	pk, err := x509.ParsePKIXPublicKey(pub)
	t.Step(2)
	spk, ok := pk.(*sm2.PublicKey)
	t.Check(err == nil && ok && spk.Equal(key.Public()) && key.PublicKey.Equal(spk), "pkix-parse", "PKIX of %x parses to %T %v", d, pk, err)
	if i%16 == 0 || i >= 1568 {
		// parsed halves work together
		msg := []byte("parsed keys")
		sk := k.(*sm2.PrivateKey)
		sig, err := sk.Sign(kit.NewRand("c09"), msg, nil)
		t.Check(err == nil && spk.Verify(msg, nil, sig), "usable", "parsed keys of %x do not work together", d)
		ct, err := sm2.Encryt(kit.NewRand("c09e"), spk, msg)
		t.Check(err == nil, "usable", "%v", err)
		m, err := sm2.Decryt(sk, ct)
		t.Check(err == nil && bytes.Equal(m, msg), "usable", "parsed key of %x does not decrypt: %v", d, err)
	}
	t.Outcome("d=%s round trip", short(d))
}

func c09Foreign(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	oid := t.Pick("oid", 2) == 1
	pub := t.Pick("pub", 2) == 1
	pad := t.Pick("pad", 4)
	form := t.Pick("form", 3)
	t.Begin()
	d := kit.Keys[ki].D
	sc := ref.B32(d)
	switch pad {
	case 1:
		sc = d.Bytes()
	case 2:
		sc = append([]byte{0}, sc...)
	case 3:
		sc = append(make([]byte, 8), sc...)
	}
	sec1 := sm2SEC1(d, sc, oid, pub)
	switch form {
	case 0:
		k, err := x509.ParsePKCS8PrivateKey(pkcs8Wrap(ref.Seq(oidECPub, oidSM2Crv), sec1))
		checkSM2Priv(t, "foreign PKCS #8", k, err, d)
	case 1:
		k, err := x509.ParseECPrivateKey(sec1)
		if oid {
			checkSM2Priv(t, "SEC 1", k, err, d)
		} else {
			t.Check(err != nil, "no-curve", "SEC 1 key without a curve parsed to %T", k)
		}
	case 2: // curve only in the inner structure
		k, err := x509.ParsePKCS8PrivateKey(pkcs8Wrap(ref.Seq(oidECPub, ref.Null()), sec1))
		if oid {
			checkSM2Priv(t, "PKCS #8 with inner curve", k, err, d)
		} else {
			t.Check(err != nil, "no-curve", "key without a curve parsed to %T", k)
		}
	}
	t.Outcome("key %s oid=%v pub=%v pad=%d form=%d", kit.Keys[ki].Name, oid, pub, pad, form)
}

var c09Curves = []elliptic.Curve{elliptic.P224(), elliptic.P256(), elliptic.P384(), elliptic.P521()}

func ecScalar(c elliptic.Curve, i int) *big.Int {
	n := c.Params().N
	switch i {
	case 0:
		return kit.B(1)
	case 1:
		return kit.B(2)
	case 2:
		return kit.B(255)
	case 3:
		return new(big.Int).Sub(n, kit.B(1))
	case 4:
		return new(big.Int).Sub(n, kit.B(2))
	case 5:
		return new(big.Int).Rsh(n, 9)
	case 6:
		return new(big.Int).Rsh(n, 1)
	default:
		x := new(big.Int).SetBytes(kit.Stream("ecscalar", (n.BitLen()+7)/8))
		return x.Mod(x, n)
	}
}

func c09Std(t *engine.T) {
	typ := t.Pick("type", 3)
	i := t.Pick("i", 32)
	t.Begin()
	same := func(what string, got []byte, err error, want []byte, werr error) {
		t.Step(1)
		t.Check(err == nil && werr == nil && bytes.Equal(got, want), "bytes", "%s: %x (%v), crypto/x509 %x (%v)", what, got, err, want, werr)
	}
	type eq interface{ Equal(x any) bool }
	var priv, pub any
	switch typ {
	case 0:
		if i >= 7 {
			return
		}
		k := kit.RSA(i)
		priv, pub = k, &k.PublicKey
		same("PKCS #1", x509.MarshalPKCS1PrivateKey(k), nil, stdx509.MarshalPKCS1PrivateKey(k), nil)
		same("PKCS #1 public", x509.MarshalPKCS1PublicKey(&k.PublicKey), nil, stdx509.MarshalPKCS1PublicKey(&k.PublicKey), nil)
		k2, err := x509.ParsePKCS1PrivateKey(stdx509.MarshalPKCS1PrivateKey(k))
		t.Check(err == nil && k2.Equal(k), "parse", "PKCS #1: %v", err)
		same("PKCS #1 of the parsed key", x509.MarshalPKCS1PrivateKey(k2), nil, stdx509.MarshalPKCS1PrivateKey(k), nil)
		p2, err := x509.ParsePKCS1PublicKey(stdx509.MarshalPKCS1PublicKey(&k.PublicKey))
		t.Check(err == nil && p2.Equal(&k.PublicKey), "parse", "PKCS #1 public: %v", err)
		t.Step(2)
	case 1:
		c := c09Curves[i/8]
		k := kit.ECDSA(c, ecScalar(c, i%8))
		priv, pub = k, &k.PublicKey
		a, err := x509.MarshalECPrivateKey(k)
		b, werr := stdx509.MarshalECPrivateKey(k)
		same("SEC 1 "+c.Params().Name, a, err, b, werr)
		k2, err := x509.ParseECPrivateKey(b)
		t.Step(1)
		ek, ok := k2.(*ecdsa.PrivateKey)
		t.Check(err == nil && ok && ek.Equal(k) && ek.D.Cmp(k.D) == 0, "parse", "SEC 1 %s: %T %v", c.Params().Name, k2, err)
	case 2:
		if i >= 6 {
			return
		}
		k := kit.Ed(byte(i))
		priv, pub = k, k.Public()
	}
	a, err := x509.MarshalPKCS8PrivateKey(priv)
	b, werr := stdx509.MarshalPKCS8PrivateKey(priv)
	same("PKCS #8", a, err, b, werr)
	k2, err := x509.ParsePKCS8PrivateKey(b)
	t.Step(1)
	t.Check(err == nil && privEqual(k2, priv), "parse", "PKCS #8: %T %v", k2, err)
	a, err = x509.MarshalPKIXPublicKey(pub)
	b, werr = stdx509.MarshalPKIXPublicKey(pub)
	same("PKIX", a, err, b, werr)
	p2, err := x509.ParsePKIXPublicKey(b)
	t.Step(1)
	t.Check(err == nil && pubEqual(p2, pub), "parse", "PKIX: %T %v", p2, err)
	t.Outcome("type %d key %d same as crypto/x509", typ, i)
}

func privEqual(a, b any) bool {
	switch x := a.(type) {
	case *rsa.PrivateKey:
		return x.Equal(b)
	case *ecdsa.PrivateKey:
		return x.Equal(b)
	case ed25519.PrivateKey:
		return x.Equal(b)
	case *sm2.PrivateKey:
		y, ok := b.(*sm2.PrivateKey)
		return ok && x.D.Cmp(y.D) == 0 && x.X.Cmp(y.X) == 0 && x.Y.Cmp(y.Y) == 0
	}
	return false
}

func pubEqual(a, b any) bool {
	switch x := a.(type) {
	case *rsa.PublicKey:
		return x.Equal(b)
	case *ecdsa.PublicKey:
		return x.Equal(b)
	case ed25519.PublicKey:
		return x.Equal(b)
	case *sm2.PublicKey:
		y, ok := b.(*sm2.PublicKey)
		return ok && x.X.Cmp(y.X) == 0 && x.Y.Cmp(y.Y) == 0
	}
	return false
}

func c09Equal(t *engine.T) {
	n := len(kit.Keys) + 6
	i := t.Pick("a", n)
	j := t.Pick("b", n)
	t.Begin()
	mk := func(i int) (any, any) {
		if i < len(kit.Keys) {
			k := kit.Priv(kit.Keys[i].D)
			return k, &k.PublicKey
		}
		switch i - len(kit.Keys) {
		case 0: // same X, other Y
			k := kit.Priv(kit.Keys[0].D)
			k.Y = ref.Neg(kit.PointOf(&k.PublicKey)).Y
			k.D = new(big.Int).Sub(ref.N, k.D)
			return k, &k.PublicKey
		case 1:
			k := kit.RSA(0)
			return k, &k.PublicKey
		case 2:
			k := kit.ECDSA(elliptic.P256(), kit.Keys[0].D)
			return k, &k.PublicKey
		case 3:
			k := kit.Ed(0)
			return k, k.Public()
		case 4:
			return nil, nil
		default: // a value instead of a pointer
			k := kit.Priv(kit.Keys[0].D)
			return *k, k.PublicKey
		}
	}
	a, ap := mk(i)
	b, bp := mk(j)
	want := i == j
	if k, ok := a.(*sm2.PrivateKey); ok {
		got := k.Equal(b)
		t.Step(2)
		t.Check(got == want, "equal", "private Equal(%d,%d) = %v", i, j, got)
		gotp := k.PublicKey.Equal(bp)
		t.Check(gotp == want, "equal", "public Equal(%d,%d) = %v", i, j, gotp)
		t.Check(!k.Equal(bp) && !k.PublicKey.Equal(b), "equal", "private and public keys equal")
	}
	_ = ap
	t.State("%d %d", i, j)
}

func c09Format(t *engine.T) {
	kt := t.Pick("key", 5)
	enc := t.Pick("enc", 5)
	parser := t.Pick("parser", 5)
	t.Begin()
	var priv, pub any
	switch kt {
	case 0:
		k := kit.Priv(kit.Keys[0].D)
		priv, pub = k, &k.PublicKey
	case 1:
		k := kit.RSA(0)
		priv, pub = k, &k.PublicKey
	case 2:
		k := kit.ECDSA(elliptic.P256(), kit.B(77))
		priv, pub = k, &k.PublicKey
	case 3:
		k := kit.Ed(0)
		priv, pub = k, k.Public()
	case 4: // unsupported
		if enc != 0 || parser != 0 {
			return
		}
		p256 := elliptic.P256().Params()
		odd := &elliptic.CurveParams{P: p256.P, N: p256.N, B: p256.B, Gx: p256.Gx, Gy: p256.Gy, BitSize: 256, Name: "other"}
		ek := kit.ECDSA(elliptic.P256(), kit.B(77))
		ek.Curve = odd
		for _, k := range []any{nil, 5, "key", &dsa.PrivateKey{}, ek, []byte("x"), rsa.PrivateKey{}, kit.Ed(0).Public()} {
			b, err := x509.MarshalPKCS8PrivateKey(k)
			t.Step(1)
			t.Check(err != nil && b == nil, "unsupported", "MarshalPKCS8PrivateKey(%T) = %x", k, b)
		}
		for _, k := range []any{nil, 5, &dsa.PublicKey{}, &ek.PublicKey, rsa.PublicKey{}, kit.Ed(0)} {
			b, err := x509.MarshalPKIXPublicKey(k)
			t.Step(1)
			t.Check(err != nil && b == nil, "unsupported", "MarshalPKIXPublicKey(%T) = %x", k, b)
		}
		b, err := x509.MarshalECPrivateKey(ek)
		t.Check(err != nil && b == nil, "unsupported", "MarshalECPrivateKey on an unknown curve = %x", b)
		t.Outcome("unsupported keys refused")
		return
	}
	var der []byte
	var isPriv bool
	switch enc {
	case 0:
		der, _ = x509.MarshalPKCS8PrivateKey(priv)
		isPriv = true
	case 1:
		der, _ = x509.MarshalPKIXPublicKey(pub)
	case 2:
		if k, ok := priv.(*rsa.PrivateKey); ok {
			der = x509.MarshalPKCS1PrivateKey(k)
			isPriv = true
		}
	case 3:
		if k, ok := priv.(*rsa.PrivateKey); ok {
			der = x509.MarshalPKCS1PublicKey(&k.PublicKey)
		}
	case 4:
		switch k := priv.(type) {
		case *ecdsa.PrivateKey:
			der, _ = x509.MarshalECPrivateKey(k)
			isPriv = true
		case *sm2.PrivateKey:
			der = sm2SEC1(k.D, ref.B32(k.D), true, true)
			isPriv = true
		}
	}
	if der == nil {
		return
	}
	var got any
	var err error
	switch parser {
	case 0:
		got, err = x509.ParsePKCS8PrivateKey(der)
	case 1:
		got, err = x509.ParsePKIXPublicKey(der)
	case 2:
		var k *rsa.PrivateKey
		if k, err = x509.ParsePKCS1PrivateKey(der); k != nil {
			got = k
		}
	case 3:
		var k *rsa.PublicKey
		if k, err = x509.ParsePKCS1PublicKey(der); k != nil {
			got = k
		}
	case 4:
		got, err = x509.ParseECPrivateKey(der)
	}
	t.Step(1)
	name := fmt.Sprintf("key type %d, encoding %d, parser %d", kt, enc, parser)
	if parser == enc {
		if isPriv {
			t.Check(err == nil && privEqual(got, priv), "parse", "%s: %T %v", name, got, err)
		} else {
			t.Check(err == nil && pubEqual(got, pub), "parse", "%s: %T %v", name, got, err)
		}
	} else {
		t.Check(err != nil && got == nil, "confused", "%s: parsed to %T", name, got)
	}
	t.Outcome("%s: err=%v", name, err != nil)
}
