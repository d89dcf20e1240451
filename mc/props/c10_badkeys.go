package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C10", Harnesses: []engine.Harness{
		{Name: "scalars", Rule: "private scalars 0, n-1, n, n+1, 2n, 2^256-1, over-long, empty, for SM2 and 4 NIST curves x PKCS #8 / SEC 1 forms: rejected; neighbours accepted", Run: c10Scalars},
		{Name: "points", Rule: "public points: infinity, off the curve, coordinates >= p, twin curve, compressed, hybrid, wrong lengths, x 17 keys: rejected in PKIX and in certificates", Run: c10Points},
		{Name: "flips", Rule: "every single-bit change and truncation of PKIX and PKCS #8 encodings of 8 keys: an error, or a key that is valid for its type and re-encodes consistently", Run: c10Flips},
		{Name: "rsa", Rule: "RSA keys with N, D, P, Q, E negative, zero, changed by 1, exchanged or multiplied: rejected, or consistent", Run: c10RSA},
		{Name: "wrapping", Rule: "algorithm identifiers and versions that do not fit the key, trailing data, wrong element types: rejected", Run: c10Wrapping},
	}})
}

// validPriv checks an accepted private key against its type's rules.
func validPriv(t *engine.T, what string, k any, src []byte) {
	switch k := k.(type) {
	case *sm2.PrivateKey:
		ok := k.D != nil && k.D.Sign() > 0 && k.D.Cmp(kit.NSub(2)) <= 0
		t.Check(ok, "bad-key", "%s accepted with SM2 scalar %x: %x", what, k.D, src)
		q := ref.MulG(k.D)
		t.Check(k.X.Cmp(q.X) == 0 && k.Y.Cmp(q.Y) == 0, "bad-key", "%s: public key is not d*G: %x", what, src)
	case *ecdsa.PrivateKey:
		n := k.Curve.Params().N
		t.Check(k.D.Sign() > 0 && k.D.Cmp(n) < 0, "bad-key", "%s accepted with scalar %x: %x", what, k.D, src)
		x, y := k.Curve.ScalarBaseMult(k.D.Bytes())
		t.Check(k.X.Cmp(x) == 0 && k.Y.Cmp(y) == 0, "bad-key", "%s: public key is not d*G: %x", what, src)
	case *rsa.PrivateKey:
		prod := big.NewInt(1)
		for _, p := range k.Primes {
			t.Check(p.Cmp(ref.One) > 0, "bad-key", "%s: prime %x", what, p)
			prod.Mul(prod, p)
		}
		t.Check(prod.Cmp(k.N) == 0, "bad-key", "%s: product of primes is not N", what)
		for _, p := range k.Primes {
			x := new(big.Int).Mul(k.D, big.NewInt(int64(k.E)))
			x.Mod(x, new(big.Int).Sub(p, ref.One))
			t.Check(x.Cmp(ref.One) == 0, "bad-key", "%s: E*D is not 1 mod p-1", what)
		}
	case ed25519.PrivateKey:
		t.Check(len(k) == ed25519.PrivateKeySize && bytes.Equal(ed25519.NewKeyFromSeed(k.Seed()), k), "bad-key", "%s: Ed25519 key", what)
	default:
		t.Fail("bad-key", "%s: parsed to %T without an error", what, k)
	}
}

func validPub(t *engine.T, what string, k any, src []byte) {
	switch k := k.(type) {
	case *sm2.PublicKey:
		ok := k.X != nil && k.Y != nil && k.X.Sign() >= 0 && k.Y.Sign() >= 0 && ref.OnCurve(kit.PointOf(k))
		t.Check(ok, "bad-key", "%s: point (%x,%x) is not on the curve: %x", what, k.X, k.Y, src)
		t.Check(bytes.Contains(src, point04(kit.PointOf(k))), "bad-key", "%s: the point is not the one encoded: %x", what, src)
	case *ecdsa.PublicKey:
		t.Check(k.Curve.IsOnCurve(k.X, k.Y), "bad-key", "%s: point not on the curve: %x", what, src)
	case *rsa.PublicKey:
		t.Check(k.N.Sign() > 0 && k.E > 0, "bad-key", "%s: N=%x E=%d", what, k.N, k.E)
	case ed25519.PublicKey:
		t.Check(len(k) == 32, "bad-key", "%s: Ed25519 key of %d bytes", what, len(k))
	default:
		t.Fail("bad-key", "%s: parsed to %T without an error", what, k)
	}
}

var c10OIDs = [][]byte{oidSM2Crv, ref.OID(1, 3, 132, 0, 33), oidP256Crv, ref.OID(1, 3, 132, 0, 34), ref.OID(1, 3, 132, 0, 35)}

func c10Scalars(t *engine.T) {
	ci := t.Pick("curve", 5)
	vi := t.Pick("value", 17)
	form := t.Pick("form", 3)
	t.Begin()
	var n *big.Int
	if ci == 0 {
		n = ref.N
	} else {
		n = c09Curves[ci-1].Params().N
	}
	size := (n.BitLen() + 7) / 8
	fb := func(x *big.Int) []byte {
		b := x.Bytes()
		if len(b) < size {
			b = append(make([]byte, size-len(b)), b...)
		}
		return b
	}
	sub := func(k int64) []byte { return fb(new(big.Int).Sub(n, kit.B(k))) }
	var sc []byte
	good := false
	switch vi {
	case 0:
		sc = fb(kit.B(0))
	case 1:
		sc = []byte{}
	case 2:
		sc = []byte{0}
	case 3:
		sc = make([]byte, size+9)
	case 4:
		sc = sub(0)
	case 5:
		sc = sub(-1)
	case 6:
		sc = fb(new(big.Int).Lsh(n, 1))
	case 7:
		sc = bytes.Repeat([]byte{0xff}, size)
	case 8:
		sc = append([]byte{1}, fb(kit.B(5))...)
	case 9:
		sc = bytes.Repeat([]byte{0xff}, 200)
	case 10:
		sc = sub(1)
		good = ci != 0
	case 11:
		sc, good = sub(2), true
	case 12:
		sc, good = fb(kit.B(1)), true
	case 13:
		sc, good = []byte{1}, true
	case 14:
		sc = append([]byte{1}, sub(0)...)
	case 15:
		sc = append(sub(0), 0)
	case 16:
		sc = append([]byte{0}, sub(1)...)
		good = ci != 0
	}
	sec1 := ref.Seq(ref.Int(1), ref.Oct(sc), ref.Ctx(0, c10OIDs[ci]))
	var k any
	var err error
	what := "PKCS #8"
	switch form {
	case 0:
		k, err = x509.ParsePKCS8PrivateKey(pkcs8Wrap(ref.Seq(oidECPub, c10OIDs[ci]), sec1))
	case 1:
		k, err = x509.ParsePKCS8PrivateKey(pkcs8Wrap(ref.Seq(oidECPub, c10OIDs[ci]), ref.Seq(ref.Int(1), ref.Oct(sc))))
	case 2:
		k, err = x509.ParseECPrivateKey(sec1)
		what = "SEC 1"
	}
	t.Step(1)
	if !good {
		t.Check(err != nil && k == nil, "bad-key", "%s with scalar %x on curve %d parsed to %T", what, sc, ci, k)
	} else {
		t.Check(err == nil, "good-key", "%s with valid scalar %x on curve %d: %v", what, sc, ci, err)
		validPriv(t, what, k, sc)
	}
	t.Outcome("curve %d value %d form %d: accepted=%v", ci, vi, form, err == nil)
}

func c10Points(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	kind := t.Pick("kind", 20)
	crv := t.Pick("curve", 2)
	t.Begin()
	p := kit.PubPoint(kit.Keys[ki].D)
	prm := ref.P
	oid := oidSM2Crv
	on := ref.OnCurve
	if crv == 1 {
		k := kit.ECDSA(elliptic.P256(), kit.Keys[ki].D)
		p = ref.Point{X: k.X, Y: k.Y}
		prm = elliptic.P256().Params().P
		oid = oidP256Crv
		on = func(q ref.Point) bool {
			return q.X.Sign() >= 0 && q.Y.Sign() >= 0 && q.X.Cmp(prm) < 0 && q.Y.Cmp(prm) < 0 && stdOn(elliptic.P256(), q)
		}
	}
	enc := point04(p)
	good := false
	raw := func(x, y *big.Int) []byte {
		if x.BitLen() > 256 || y.BitLen() > 256 || x.Sign() < 0 || y.Sign() < 0 {
			return nil
		}
		good = on(ref.Point{X: x, Y: y})
		return append(append([]byte{4}, ref.B32(x)...), ref.B32(y)...)
	}
	add := func(x *big.Int, v int64) *big.Int { return new(big.Int).Add(x, kit.B(v)) }
	switch kind {
	case 0:
		good = true
	case 1:
		enc = []byte{0}
	case 2:
		enc = raw(add(p.X, 1), p.Y)
	case 3:
		enc = raw(p.X, add(p.Y, 1))
	case 4:
		enc = raw(p.Y, p.X)
	case 5:
		enc = raw(kit.B(0), kit.B(0))
	case 6:
		enc = raw(prm, prm)
	case 7:
		enc = raw(new(big.Int).Add(p.X, prm), p.Y)
	case 8:
		enc = raw(p.X, new(big.Int).Sub(new(big.Int).Lsh(ref.One, 256), ref.One))
	case 9:
		enc = raw(p.X, new(big.Int).Sub(prm, p.Y))
	case 10:
		enc = enc[:33]
		enc[0] = 2 + byte(p.Y.Bit(0))
	case 11:
		enc[0] = 6 + byte(p.Y.Bit(0))
	case 12:
		enc = enc[:64]
	case 13:
		enc = append(enc, 0)
	case 14:
		enc = []byte{}
	case 15:
		enc = enc[1:]
	case 16:
		enc = []byte{4}
	case 17: // the same bytes under the other curve's OID
		if crv == 0 {
			oid = oidP256Crv
			good = stdOn(elliptic.P256(), p)
		} else {
			oid = oidSM2Crv
			good = ref.OnCurve(p)
		}
	case 18:
		enc = raw(kit.B(0), add(p.Y, 0))
	case 19: // the smallest reduced x of the curve, and the same plus p
		if crv == 1 {
			return
		}
		x := kit.B(int64(ki))
		for {
			if q, ok := ref.Lift(x); ok {
				for _, e := range [][]byte{append(append([]byte{4}, ref.B32(new(big.Int).Add(x, ref.P))...), ref.B32(q.Y)...)} {
					k, err := x509.ParsePKIXPublicKey(ref.Seq(ref.Seq(oidECPub, oid), ref.BitStr(e)))
					t.Step(1)
					t.Check(err != nil && k == nil, "bad-point", "x+p accepted: %x", e)
				}
				enc = point04(q)
				good = true
				break
			}
			x.Add(x, ref.One)
		}
	}
	if enc == nil {
		return
	}
	spki := ref.Seq(ref.Seq(oidECPub, oid), ref.BitStr(enc))
	k, err := x509.ParsePKIXPublicKey(spki)
	t.Step(1)
	t.Check((err == nil) == good, "bad-point", "kind %d key %s curve %d: public key %x: error %v, valid=%v", kind, kit.Keys[ki].Name, crv, enc, err, good)
	if err == nil {
		validPub(t, "PKIX", k, spki)
	} else {
		t.Check(k == nil, "bad-point", "key returned with error")
	}
	cert := foreignCert(spki)
	c, err := x509.ParseCertificate(cert)
	t.Step(1)
	t.Check((err == nil) == good, "bad-point", "certificate with public key %x: error %v, valid=%v", enc, err, good)
	if err == nil {
		validPub(t, "certificate", c.PublicKey, cert)
	}
	t.Outcome("kind %d key %s curve %d: valid=%v", kind, kit.Keys[ki].Name, crv, good)
}

func stdOn(c elliptic.Curve, p ref.Point) bool {
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.BitLen() > 256 || p.Y.BitLen() > 256 {
		return false
	}
	prm := c.Params()
	if p.X.Cmp(prm.P) >= 0 || p.Y.Cmp(prm.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Mul(p.X, p.X)
	r.Sub(r, kit.B(3))
	r.Mul(r, p.X)
	r.Add(r, prm.B)
	return l.Mod(l, prm.P).Cmp(r.Mod(r, prm.P)) == 0
}

var sigSM2AI = ref.Seq(ref.OID(1, 2, 156, 10197, 1, 501))

func nameCN(cn string) []byte {
	return ref.Seq(ref.Set(ref.Seq(ref.OID(2, 5, 4, 3), ref.TLV(0x0c, []byte(cn)))))
}

// foreignTBS is a TBSCertificate made without the code under test.
func foreignTBS(spki []byte, exts ...[]byte) []byte {
	body := [][]byte{ref.Ctx(0, ref.Int(2)), ref.Int(1234567), sigSM2AI, nameCN("issuer"),
		ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z"))), nameCN("subject"), spki}
	if len(exts) > 0 {
		body = append(body, ref.Ctx(3, ref.Seq(exts...)))
	}
	return ref.Seq(body...)
}

func foreignCert(spki []byte, exts ...[]byte) []byte {
	tbs := foreignTBS(spki, exts...)
	d := kit.Keys[0].D
	r, s, ok := ref.SignK(d, kit.B(4242), ref.Digest(kit.PubPoint(d), nil, tbs))
	if !ok {
		panic("sign")
	}
	return ref.Seq(tbs, sigSM2AI, ref.BitStr(ref.DERSig(r, s)))
}

func c10Encodings(i int) ([]byte, bool) {
	switch i {
	case 0, 1, 2:
		k := kit.Priv(kit.Keys[[]int{0, 4, 6}[i]].D)
		return pkcs8Wrap(ref.Seq(oidECPub, oidSM2Crv), sm2SEC1(k.D, ref.B32(k.D), i > 0, true)), true
	case 3, 4:
		return sm2PKIX(kit.PubPoint(kit.Keys[[]int{0, 5}[i-3]].D)), false
	case 5:
		b, _ := stdx509.MarshalPKCS8PrivateKey(kit.ECDSA(elliptic.P256(), kit.B(99)))
		return b, true
	case 6:
		b, _ := stdx509.MarshalPKIXPublicKey(&kit.ECDSA(elliptic.P256(), kit.B(99)).PublicKey)
		return b, false
	case 7:
		b, _ := stdx509.MarshalPKCS8PrivateKey(kit.Ed(0))
		return b, true
	case 8:
		b, _ := stdx509.MarshalPKIXPublicKey(kit.Ed(0).Public())
		return b, false
	case 9:
		b, _ := stdx509.MarshalPKIXPublicKey(&kit.RSA(2).PublicKey)
		return b, false
	default:
		b, _ := stdx509.MarshalPKCS8PrivateKey(kit.RSA(2))
		return b, true
	}
}

func c10Flips(t *engine.T) {
	i := t.Pick("enc", 11)
	der, priv := c10Encodings(i)
	at := t.Pick("byte", 170)
	mode := t.Pick("mode", 3)
	t.Begin()
	acc := 0
	try := func(m []byte) {
		var k any
		var err error
		if priv {
			k, err = x509.ParsePKCS8PrivateKey(m)
		} else {
			k, err = x509.ParsePKIXPublicKey(m)
		}
		t.Step(1)
		if err != nil {
			t.Check(k == nil, "key-with-error", "key %T returned with error %v: %x", k, err, m)
			return
		}
		acc++
		if priv {
			validPriv(t, "changed PKCS #8", k, m)
		} else {
			validPub(t, "changed PKIX", k, m)
		}
	}
	step := 1
	if i == 10 {
		step = 4 // 1024-bit RSA private key: every 4th byte
	}
	at *= step
	if at >= len(der) {
		return
	}
	switch mode {
	case 0:
		for b := 0; b < 8; b++ {
			m := kit.Clone(der)
			m[at] ^= 1 << b
			try(m)
		}
	case 1:
		try(der[:at])
		try(der[at:])
		if !priv {
			k, err := x509.ParsePKIXPublicKey(der[:at])
			t.Check(err != nil, "truncated", "truncated PKIX key accepted: %T", k)
		}
	case 2:
		m := append(kit.Clone(der[:at]), der[at+1:]...)
		try(m)
		try(append(kit.Clone(der[:at]), append([]byte{0}, der[at:]...)...))
	}
	t.Outcome("encoding %d byte %d mode %d: %d still valid", i, at, mode, acc)
}

func c10RSA(t *engine.T) {
	field := t.Pick("field", 6)
	how := t.Pick("how", 9)
	form := t.Pick("form", 2)
	t.Begin()
	k := kit.RSA(2)
	v := []*big.Int{k.N, big.NewInt(int64(k.E)), k.D, k.Primes[0], k.Primes[1]}
	vals := make([]*big.Int, 5)
	for i := range v {
		vals[i] = new(big.Int).Set(v[i])
	}
	if field < 5 {
		x := vals[field]
		switch how {
		case 0:
			x.SetInt64(0)
		case 1:
			x.Neg(x)
		case 2:
			x.Add(x, ref.One)
		case 3:
			x.Sub(x, kit.B(2))
		case 4:
			x.Lsh(x, 1)
		case 5:
			x.SetInt64(1)
		case 6:
			x.Set(vals[(field+1)%5])
		case 7:
			x.Lsh(ref.One, 31)
		case 8:
			x.SetInt64(-1)
		}
	} else if how != 0 { // only one unchanged case
		return
	}
	pm1 := new(big.Int).Sub(k.Primes[0], ref.One)
	qm1 := new(big.Int).Sub(k.Primes[1], ref.One)
	inner := ref.Seq(ref.Int(0), ref.DERInt(vals[0]), ref.DERInt(vals[1]), ref.DERInt(vals[2]), ref.DERInt(vals[3]), ref.DERInt(vals[4]),
		ref.DERInt(new(big.Int).Mod(k.D, pm1)), ref.DERInt(new(big.Int).Mod(k.D, qm1)), ref.DERInt(new(big.Int).ModInverse(k.Primes[1], k.Primes[0])))
	var got any
	var err error
	if form == 0 {
		var g *rsa.PrivateKey
		g, err = x509.ParsePKCS1PrivateKey(inner)
		if g != nil {
			got = g
		}
	} else {
		got, err = x509.ParsePKCS8PrivateKey(pkcs8Wrap(ref.Seq(oidRSAEnc, ref.Null()), inner))
	}
	t.Step(1)
	if field == 5 {
		t.Check(err == nil && privEqual(got, k), "good-key", "unchanged RSA key: %v", err)
	} else if err == nil {
		validPriv(t, "changed RSA key", got, inner)
	} else {
		t.Check(got == nil, "key-with-error", "RSA key returned with error")
	}
	if field < 2 {
		bad := vals[0].Sign() <= 0 || vals[1].Sign() <= 0 || vals[1].BitLen() > 31
		pub := ref.Seq(ref.DERInt(vals[0]), ref.DERInt(vals[1]))
		p, err := x509.ParsePKCS1PublicKey(pub)
		t.Step(2)
		t.Check((err != nil) == bad, "rsa-public", "PKCS #1 public key N=%x E=%x: %v", vals[0], vals[1], err)
		t.Check(err != nil || p.N.Cmp(vals[0]) == 0 && int64(p.E) == vals[1].Int64(), "rsa-public", "parsed other values")
		q, err := x509.ParsePKIXPublicKey(ref.Seq(ref.Seq(oidRSAEnc, ref.Null()), ref.BitStr(pub)))
		if bad && vals[1].BitLen() <= 31 {
			t.Check(err != nil && q == nil, "rsa-public", "PKIX RSA key N=%x E=%x accepted", vals[0], vals[1])
		}
	}
	t.Outcome("field %d how %d form %d: accepted=%v", field, how, form, err == nil)
}

func c10Wrapping(t *engine.T) {
	kind := t.Pick("kind", 16)
	t.Begin()
	d := kit.Keys[0].D
	sec1 := sm2SEC1(d, ref.B32(d), true, true)
	alg := ref.Seq(oidECPub, oidSM2Crv)
	good := pkcs8Wrap(alg, sec1)
	pkix := sm2PKIX(kit.PubPoint(d))
	rejectPriv := func(b []byte) {
		k, err := x509.ParsePKCS8PrivateKey(b)
		t.Step(1)
		t.Check(err != nil && k == nil, "wrapping", "PKCS #8 %x parsed to %T", b, k)
	}
	rejectPub := func(b []byte) {
		k, err := x509.ParsePKIXPublicKey(b)
		t.Step(1)
		t.Check(err != nil && k == nil, "wrapping", "PKIX %x parsed to %T", b, k)
	}
	rejectEC := func(b []byte) {
		k, err := x509.ParseECPrivateKey(b)
		t.Step(1)
		t.Check(err != nil && k == nil, "wrapping", "SEC 1 %x parsed to %T", b, k)
	}
	edSeed := ref.Oct(kit.Stream("seed", 32))
	switch kind {
	case 0:
		k, err := x509.ParsePKCS8PrivateKey(good)
		t.Check(err == nil && k != nil, "good-key", "%v", err)
		p, err := x509.ParsePKIXPublicKey(pkix)
		t.Check(err == nil && p != nil, "good-key", "%v", err)
		t.Step(2)
	case 1: // EC key under the RSA, Ed25519 and unknown algorithms
		rejectPriv(pkcs8Wrap(ref.Seq(oidRSAEnc, ref.Null()), sec1))
		rejectPriv(pkcs8Wrap(ref.Seq(ref.OID(1, 3, 101, 112)), sec1))
		rejectPriv(pkcs8Wrap(ref.Seq(ref.OID(1, 2, 3, 4)), sec1))
		rejectPriv(pkcs8Wrap(ref.Seq(oidSM2Crv, oidSM2Crv), sec1))
	case 2: // RSA key under EC
		rejectPriv(pkcs8Wrap(alg, stdx509.MarshalPKCS1PrivateKey(kit.RSA(2))))
	case 3: // unknown curves
		rejectPriv(pkcs8Wrap(ref.Seq(oidECPub, ref.OID(1, 2, 156, 10197, 1, 302)), sec1))
		rejectPub(ref.Seq(ref.Seq(oidECPub, ref.OID(1, 2, 156, 10197, 1, 302)), ref.BitStr(point04(kit.PubPoint(d)))))
		rejectPub(ref.Seq(ref.Seq(oidECPub, ref.OID(1, 3, 132, 0, 10)), ref.BitStr(point04(kit.PubPoint(d)))))
	case 4: // missing or malformed parameters
		rejectPub(ref.Seq(ref.Seq(oidECPub), ref.BitStr(point04(kit.PubPoint(d)))))
		rejectPub(ref.Seq(ref.Seq(oidECPub, ref.Null()), ref.BitStr(point04(kit.PubPoint(d)))))
		rejectPub(ref.Seq(ref.Seq(oidECPub, ref.Seq(oidSM2Crv)), ref.BitStr(point04(kit.PubPoint(d)))))
		rejectPriv(pkcs8Wrap(ref.Seq(oidECPub), sm2SEC1(d, ref.B32(d), false, true)))
	case 5: // trailing data
		rejectPub(append(kit.Clone(pkix), 0))
		rejectPub(append(kit.Clone(pkix), pkix...))
		_, err := x509.ParsePKCS1PrivateKey(append(stdx509.MarshalPKCS1PrivateKey(kit.RSA(2)), 0))
		t.Check(err != nil, "wrapping", "PKCS #1 with trailing byte accepted")
		_, err = x509.ParsePKCS1PublicKey(append(stdx509.MarshalPKCS1PublicKey(&kit.RSA(2).PublicKey), 0))
		t.Check(err != nil, "wrapping", "PKCS #1 public key with trailing byte accepted")
	case 6: // EC private key version
		for _, v := range []int64{0, 2, 3, -1, 256} {
			b := ref.Seq(ref.Int(v), ref.Oct(ref.B32(d)), ref.Ctx(0, oidSM2Crv))
			rejectEC(b)
			rejectPriv(pkcs8Wrap(alg, b))
		}
	case 7: // element types
		rejectEC(ref.Seq(ref.Int(1), ref.DERInt(d), ref.Ctx(0, oidSM2Crv)))
		rejectEC(ref.Seq(ref.Int(1), ref.BitStr(ref.B32(d)), ref.Ctx(0, oidSM2Crv)))
		rejectEC(ref.Set(ref.Int(1), ref.Oct(ref.B32(d)), ref.Ctx(0, oidSM2Crv)))
		rejectEC(ref.Seq(ref.Oct(ref.B32(d)), ref.Ctx(0, oidSM2Crv)))
		rejectPriv(ref.Seq(ref.Int(0), alg, ref.BitStr(sec1)))
		rejectPriv(ref.Seq(ref.Int(0), alg, sec1))
		rejectPriv(ref.Seq(alg, ref.Oct(sec1)))
		rejectPub(ref.Seq(alg, ref.Oct(point04(kit.PubPoint(d)))))
	case 8: // Ed25519 lengths and parameters
		ed := ref.OID(1, 3, 101, 112)
		rejectPriv(pkcs8Wrap(ref.Seq(ed, ref.Null()), edSeed))
		for _, n := range []int{0, 1, 31, 33, 64} {
			rejectPriv(pkcs8Wrap(ref.Seq(ed), ref.Oct(make([]byte, n))))
			rejectPub(ref.Seq(ref.Seq(ed), ref.BitStr(make([]byte, n))))
		}
		rejectPub(ref.Seq(ref.Seq(ed, ref.Null()), ref.BitStr(make([]byte, 32))))
		rejectPriv(pkcs8Wrap(ref.Seq(ed), kit.Stream("seed", 32)))
	case 9: // RSA parameters
		pub := stdx509.MarshalPKCS1PublicKey(&kit.RSA(2).PublicKey)
		rejectPub(ref.Seq(ref.Seq(oidRSAEnc), ref.BitStr(pub)))
		rejectPub(ref.Seq(ref.Seq(oidRSAEnc, oidSM2Crv), ref.BitStr(pub)))
		rejectPub(ref.Seq(ref.Seq(oidRSAEnc, ref.Null()), ref.BitStr(ref.Seq())))
	case 10: // DSA
		dsaOID := ref.OID(1, 2, 840, 10040, 4, 1)
		for _, b := range [][]byte{ref.Seq(ref.Int(0), ref.Int(1), ref.Int(1)), ref.Seq(ref.Int(-1), ref.Int(1), ref.Int(1)), ref.Seq()} {
			rejectPub(ref.Seq(ref.Seq(dsaOID, b), ref.BitStr(ref.Int(5))))
		}
		rejectPub(ref.Seq(ref.Seq(dsaOID, ref.Seq(ref.Int(23), ref.Int(11), ref.Int(2))), ref.BitStr(ref.Int(0))))
	case 11: // bit strings with unused bits
		b := point04(kit.PubPoint(d))
		for _, unused := range []byte{1, 4, 7, 8, 0xff} {
			k, err := x509.ParsePKIXPublicKey(ref.Seq(alg, ref.TLV(3, []byte{unused}, b)))
			t.Step(1)
			if err == nil {
				p, ok := k.(*sm2.PublicKey)
				t.Check(ok && ref.OnCurve(kit.PointOf(p)), "wrapping", "bit string with %d unused bits gave a bad key", unused)
			}
		}
	case 12: // empty and tiny
		for _, b := range [][]byte{{}, {0x30}, {0x30, 0}, {0x30, 0x80}, {5, 0}, {2, 1, 0}, {0x30, 2, 0x30, 0}, {0x30, 0x84, 0xff, 0xff, 0xff, 0xff}} {
			rejectPriv(b)
			rejectPub(b)
			rejectEC(b)
			_, err := x509.ParsePKCS1PrivateKey(b)
			t.Check(err != nil, "wrapping", "PKCS #1 accepted %x", b)
			_, err = x509.ParsePKCS1PublicKey(b)
			t.Check(err != nil, "wrapping", "PKCS #1 public accepted %x", b)
		}
		rejectPriv(nil)
		rejectPub(nil)
		rejectEC(nil)
	case 13: // curve in PKCS #8 and in the inner structure differ: the outer one counts, value must be valid for it
		k, err := x509.ParsePKCS8PrivateKey(pkcs8Wrap(ref.Seq(oidECPub, oidP256Crv), sec1))
		t.Step(1)
		if err == nil {
			validPriv(t, "mixed curves", k, sec1)
			_, isEC := k.(*ecdsa.PrivateKey)
			t.Check(isEC, "wrapping", "P-256 key parsed to %T", k)
		}
		k, err = x509.ParsePKCS8PrivateKey(pkcs8Wrap(alg, ref.Seq(ref.Int(1), ref.Oct(ref.B32(d)), ref.Ctx(0, oidP256Crv))))
		if err == nil {
			validPriv(t, "mixed curves", k, sec1)
			_, isSM2 := k.(*sm2.PrivateKey)
			t.Check(isSM2, "wrapping", "SM2 key parsed to %T", k)
		}
	case 14: // PKCS #1 version
		kk := kit.RSA(2)
		body := ref.Parse(stdx509.MarshalPKCS1PrivateKey(kk), 0)[0]
		for _, v := range []int64{2, 3, 100} {
			parts := [][]byte{ref.Int(v)}
			for _, c := range body.Children[1:] {
				parts = append(parts, c.Raw)
			}
			_, err := x509.ParsePKCS1PrivateKey(ref.Seq(parts...))
			t.Step(1)
			t.Check(err != nil, "wrapping", "PKCS #1 version %d accepted", v)
		}
	case 15: // indefinite and non-minimal lengths
		rejectPub(append([]byte{0x30, 0x80}, append(kit.Clone(pkix[2:]), 0, 0)...))
		rejectPub(append([]byte{0x30, 0x81, byte(len(pkix) - 2)}, pkix[2:]...))
		rejectPriv(append([]byte{0x30, 0x82, 0, byte(len(good) - 3)}, good[3:]...))
	}
	t.Outcome("kind %d", kind)
}
