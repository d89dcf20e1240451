package props

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	_ "crypto/md5"
	"crypto/rsa"
	_ "crypto/sha1"
	stdx509 "crypto/x509"
	"fmt"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C15", Harnesses: []engine.Harness{
		{Name: "matrix", Rule: "signatures by 8 keys with every hash and padding (up to 15 kinds) x checking key (16) x 20 claimed algorithms: CheckSignature accepts exactly when an independent verifier does for the claimed algorithm", Run: c15Matrix},
		{Name: "short", Rule: "messages of 0-2 bytes x 8 signers x 16 checking keys x 10 signatures (right, of another message, empty, zero, changed) x 20 claimed algorithms: accepted exactly when an independent verifier does", Run: c15Empty},
		{Name: "identifiers", Rule: "28 signature algorithm identifiers x 6 parameter encodings in certificates: read as crypto/x509 reads them (never as another algorithm)", Run: c15Identifiers},
		{Name: "pss", Rule: "RSA-PSS parameters differing from the standard ones in at most 2 of 7 fields: read as crypto/x509 reads them, and other salt lengths and hashes refused", Run: c15PSS, Bound: 2, Deep: 3},
		{Name: "insecure", Rule: "correct MD5 and SHA-1 signatures x certificate, self-signed certificate, request, revocation list: refused everywhere", Run: c15Insecure},
		{Name: "keytypes", Rule: "11 kinds of unusable public key (nil, DSA, value instead of pointer, private key, wrong curve, SM2 numbers on P-256 and the reverse) x 20 algorithms: error without panic", Run: c15KeyTypes},
	}})
}

type sigKind struct {
	name string
	make func() []byte
	alg  x509.SignatureAlgorithm // 0: none of the verifiable ones
}

var c15Msg = []byte("the signed message")

func c15Kinds(ki int) []sigKind {
	k := xkeyOf(ki)
	h := func(f crypto.Hash) []byte {
		x := f.New()
		x.Write(c15Msg)
		return x.Sum(nil)
	}
	var out []sigKind
	if s := k.sm2(); s != nil {
		sign := func(dg []byte) []byte {
			r, v, _ := ref.SignK(s.D, kit.B(987654), dg)
			return ref.DERSig(r, v)
		}
		p := kit.PubPoint(s.D)
		out = append(out,
			sigKind{"sm2", func() []byte { return sign(ref.Digest(p, nil, c15Msg)) }, x509.SM2WithSM3},
			sigKind{"sm2 uid alice", func() []byte { return sign(ref.Digest(p, []byte("alice"), c15Msg)) }, 0},
			sigKind{"sm2 plain sm3", func() []byte { return sign(ref.SM3(c15Msg)) }, 0},
			sigKind{"sm2 over sha256", func() []byte { return sign(h(crypto.SHA256)) }, 0},
			sigKind{"sm2 Z of digest", func() []byte { return sign(ref.Digest(p, nil, ref.SM3(c15Msg))) }, 0})
		return out
	}
	switch pk := k.s.(type) {
	case *ecdsa.PrivateKey:
		for i, f := range []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA1} {
			out = append(out, sigKind{"ecdsa " + f.String(), func() []byte {
				b, _ := ecdsa.SignASN1(kit.NewRand("m"), pk, h(f))
				return b
			}, append(ecAlgs, 0)[i]})
		}
		out = append(out, sigKind{"ecdsa over sm3", func() []byte {
			b, _ := ecdsa.SignASN1(kit.NewRand("m"), pk, ref.SM3(c15Msg))
			return b
		}, 0})
	case *rsa.PrivateKey:
		for i, f := range []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.MD5, crypto.SHA1} {
			out = append(out, sigKind{"rsa " + f.String(), func() []byte {
				b, _ := rsa.SignPKCS1v15(nil, pk, f, h(f))
				return b
			}, append(append([]x509.SignatureAlgorithm{}, rsaAlgs[:3]...), 0, 0)[i]})
		}
		for i, f := range []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512} {
			for _, salt := range []int{rsa.PSSSaltLengthEqualsHash, 0, 20} {
				alg := x509.SignatureAlgorithm(0)
				if salt == rsa.PSSSaltLengthEqualsHash {
					alg = rsaAlgs[3+i]
				}
				out = append(out, sigKind{fmt.Sprint("pss ", f, salt), func() []byte {
					b, _ := rsa.SignPSS(kit.NewRand("m"), pk, f, h(f), &rsa.PSSOptions{SaltLength: salt})
					return b
				}, alg})
			}
		}
		out = append(out, sigKind{"rsa no prefix", func() []byte {
			b, _ := rsa.SignPKCS1v15(nil, pk, 0, h(crypto.SHA256))
			return b
		}, 0})
	case ed25519.PrivateKey:
		out = append(out, sigKind{"ed", func() []byte { return ed25519.Sign(pk, c15Msg) }, x509.PureEd25519},
			sigKind{"ed of sha512", func() []byte { return ed25519.Sign(pk, h(crypto.SHA512)) }, 0},
			sigKind{"ed25519ph", func() []byte {
				b, _ := pk.Sign(nil, h(crypto.SHA512), crypto.SHA512)
				return b
			}, 0})
	}
	return out
}

func c15Matrix(t *engine.T) {
	ki := t.Pick("signer", numXKeys)
	kinds := c15Kinds(ki)
	sk := t.Pick("signature", len(kinds))
	ci := t.Pick("checker", 2*numXKeys)
	t.Begin()
	bi := ci
	if ci >= numXKeys {
		bi = 100 + ci - numXKeys
	}
	ck := xkeyOf(bi)
	sig := kinds[sk].make()
	cert := &x509.Certificate{PublicKey: ck.pub}
	acc := 0
	for _, alg := range allSigAlgs {
		want := xverify(ck.pub, alg, c15Msg, sig)
		err := cert.CheckSignature(alg, c15Msg, sig)
		t.Step(1)
		t.Check((err == nil) == want, "binding", "signature %s by %s, key %s, claimed %v: %v, want accepted=%v", kinds[sk].name, xkeyOf(ki).name, ck.name, alg, err, want)
		if want {
			acc++
			t.Check(ci == ki && kinds[sk].alg == alg, "harness", "oracle accepts too much")
		}
	}
	if ci == ki && kinds[sk].alg != 0 {
		t.Check(acc == 1, "harness", "accepted %d times", acc)
	}
	t.Outcome("%s %s key %s: %d", xkeyOf(ki).name, kinds[sk].name, ck.name, acc)
}

var c15OIDs = [][]int{
	{1, 2, 840, 113549, 1, 1, 2}, {1, 2, 840, 113549, 1, 1, 4}, {1, 2, 840, 113549, 1, 1, 5}, {1, 2, 840, 113549, 1, 1, 11}, {1, 2, 840, 113549, 1, 1, 12}, {1, 2, 840, 113549, 1, 1, 13}, {1, 2, 840, 113549, 1, 1, 10},
	{1, 2, 840, 113549, 1, 1, 14}, {1, 2, 840, 113549, 1, 1, 1}, {1, 3, 14, 3, 2, 29}, {1, 2, 840, 10040, 4, 3}, {2, 16, 840, 1, 101, 3, 4, 3, 2}, {1, 2, 840, 10045, 4, 1}, {1, 2, 840, 10045, 4, 3, 1}, {1, 2, 840, 10045, 4, 3, 2},
	{1, 2, 840, 10045, 4, 3, 3}, {1, 2, 840, 10045, 4, 3, 4}, {1, 3, 101, 112}, {1, 3, 101, 113}, {1, 2, 156, 10197, 1, 501}, {1, 2, 156, 10197, 1, 502}, {1, 2, 156, 10197, 1, 504}, {1, 2, 156, 10197, 1, 301}, {1, 2, 156, 10197, 1, 401},
	{1, 2, 840, 10045, 2, 1}, {1, 2, 3}, {2, 16, 840, 1, 101, 3, 4, 2, 1}, {1, 2, 840, 113549, 1, 1, 7},
}

var stdAlgNames = map[stdx509.SignatureAlgorithm]x509.SignatureAlgorithm{
	stdx509.UnknownSignatureAlgorithm: x509.UnknownSignatureAlgorithm, stdx509.MD5WithRSA: x509.MD5WithRSA, stdx509.SHA1WithRSA: x509.SHA1WithRSA, stdx509.SHA256WithRSA: x509.SHA256WithRSA, stdx509.SHA384WithRSA: x509.SHA384WithRSA, stdx509.SHA512WithRSA: x509.SHA512WithRSA,
	stdx509.DSAWithSHA1: x509.DSAWithSHA1, stdx509.DSAWithSHA256: x509.DSAWithSHA256, stdx509.ECDSAWithSHA1: x509.ECDSAWithSHA1, stdx509.ECDSAWithSHA256: x509.ECDSAWithSHA256, stdx509.ECDSAWithSHA384: x509.ECDSAWithSHA384, stdx509.ECDSAWithSHA512: x509.ECDSAWithSHA512,
	stdx509.SHA256WithRSAPSS: x509.SHA256WithRSAPSS, stdx509.SHA384WithRSAPSS: x509.SHA384WithRSAPSS, stdx509.SHA512WithRSAPSS: x509.SHA512WithRSAPSS, stdx509.PureEd25519: x509.PureEd25519,
}

// certWithAI is a certificate with the given algorithm identifier.
func certWithAI(ai []byte) []byte {
	tbs := ref.Seq(ref.Ctx(0, ref.Int(2)), ref.Int(3), ai, nameCN("i"), ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z"))), nameCN("s"), spkiOf(xkeyOf(1).pub))
	return ref.Seq(tbs, ai, ref.BitStr([]byte{1, 2, 3}))
}

// sameAlg compares how both libraries read the algorithm identifier.
func sameAlg(t *engine.T, ai []byte, exact bool) string {
	der := certWithAI(ai)
	c, err := x509.ParseCertificate(der)
	t.Step(1)
	s, e2 := stdx509.ParseCertificate(der)
	if err != nil || e2 != nil {
		t.Check(!exact, "identifier", "certificate with algorithm %x: %v, crypto/x509 %v", ai, err, e2)
		return "no parse"
	}
	want := stdAlgNames[s.SignatureAlgorithm]
	if exact {
		t.Check(c.SignatureAlgorithm == want, "identifier", "algorithm %x read as %v, crypto/x509 %v", ai, c.SignatureAlgorithm, s.SignatureAlgorithm)
	} else {
		t.Check(c.SignatureAlgorithm == want || c.SignatureAlgorithm == 0 || want == 0 && c.SignatureAlgorithm != x509.PureEd25519 && !isPSS(c.SignatureAlgorithm), "identifier", "algorithm %x read as %v, crypto/x509 %v", ai, c.SignatureAlgorithm, s.SignatureAlgorithm)
	}
	// the same in a request and a revocation list: refused with any key when unknown
	return fmt.Sprint(c.SignatureAlgorithm)
}

func isPSS(a x509.SignatureAlgorithm) bool {
	return a == x509.SHA256WithRSAPSS || a == x509.SHA384WithRSAPSS || a == x509.SHA512WithRSAPSS
}

func c15Identifiers(t *engine.T) {
	oi := t.Pick("oid", len(c15OIDs))
	pi := t.Pick("parameters", 6)
	t.Begin()
	id := ref.OID(c15OIDs[oi]...)
	var ai []byte
	switch pi {
	case 0:
		ai = ref.Seq(id)
	case 1:
		ai = ref.Seq(id, ref.Null())
	case 2:
		ai = ref.Seq(id, ref.Seq())
	case 3:
		ai = ref.Seq(id, ref.OID(1, 2, 840, 10045, 3, 1, 7))
	case 4:
		ai = ref.Seq(id, pssParams([7]int{}))
	case 5:
		ai = ref.Seq(id, ref.Oct([]byte{1}))
	}
	if oi == 19 && pi < 2 {
		c, err := x509.ParseCertificate(certWithAI(ai))
		t.Check(err == nil && (c.SignatureAlgorithm == x509.SM2WithSM3 || pi == 1), "identifier", "SM2 with SM3: %v", err)
		t.Outcome("sm2")
		return
	}
	sm := oi >= 19 && oi <= 23
	if sm {
		c, err := x509.ParseCertificate(certWithAI(ai))
		t.Step(1)
		if err == nil && oi != 19 {
			t.Check(c.SignatureAlgorithm == 0, "identifier", "OID %v read as %v", c15OIDs[oi], c.SignatureAlgorithm)
		}
		t.Outcome("oid %v", c15OIDs[oi])
		return
	}
	rsaOID := oi >= 3 && oi <= 5
	ecOID := oi >= 14 && oi <= 16 || oi == 17
	exact := rsaOID && pi == 1 || ecOID && pi == 0
	r := sameAlg(t, ai, exact)
	t.Outcome("oid %v params %d: %s", c15OIDs[oi], pi, r)
}

var hashOIDs = [][]byte{ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 2), ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 3), ref.OID(1, 3, 14, 3, 2, 26), ref.OID(1, 2, 156, 10197, 1, 401)}

// pssParams: v = {hash 0..4 5:absent, hash params 0 NULL 1 absent 2 other, mgf 0 MGF1 1 other 2 absent, mgf hash offset 0..2, mgf hash params 0 NULL 1 absent 2 other, salt 0 right 1 zero 2 20 3 other 4 absent 5 negative, trailer 0 absent 1 one 2 two}
func pssParams(v [7]int) []byte {
	np := func(i int) [][]byte {
		switch i {
		case 0:
			return [][]byte{ref.Null()}
		case 1:
			return nil
		}
		return [][]byte{ref.Int(5)}
	}
	h := v[0]
	hi := h
	if hi > 4 {
		hi = 3
	}
	var parts [][]byte
	if h < 5 {
		parts = append(parts, ref.Ctx(0, ref.Seq(append([][]byte{hashOIDs[h]}, np(v[1])...)...)))
	}
	mh := hashOIDs[(hi+v[3])%5]
	switch v[2] {
	case 0, 1:
		o := ref.OID(1, 2, 840, 113549, 1, 1, 8)
		if v[2] == 1 {
			o = ref.OID(1, 2, 840, 113549, 1, 1, 9)
		}
		parts = append(parts, ref.Ctx(1, ref.Seq(o, ref.Seq(append([][]byte{mh}, np(v[4])...)...))))
	}
	size := []int64{32, 48, 64, 20, 32}[hi]
	switch v[5] {
	case 1:
		size = 0
	case 2:
		size = 20
	case 3:
		size++
	case 5:
		size = -size
	}
	if v[5] != 4 {
		parts = append(parts, ref.Ctx(2, ref.Int(size)))
	}
	if v[6] > 0 {
		parts = append(parts, ref.Ctx(3, ref.Int(int64(v[6]))))
	}
	return ref.Seq(parts...)
}

func c15PSS(t *engine.T) {
	h := t.Pick("hash", 6)
	var v [7]int
	v[0] = h
	dev := 0
	for i, n := range []int{1, 3, 3, 3, 3, 6, 3} {
		if n > 1 {
			v[i] = t.Choose(fmt.Sprint("field", i), n)
			if v[i] > 0 {
				dev++
			}
		}
	}
	t.Begin()
	ai := ref.Seq(ref.OID(1, 2, 840, 113549, 1, 1, 10), pssParams(v))
	r := sameAlg(t, ai, h < 3 && dev == 0)
	// a signature made with other parameters than the three standard sets is not accepted as one
	if h < 3 && dev == 0 {
		k := xkeyOf(2)
		f := []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}[h]
		der := certWithAI(ai)
		n := ref.Parse(der, 0)[0]
		x := f.New()
		x.Write(n.Children[0].Raw)
		for _, salt := range []int{rsa.PSSSaltLengthEqualsHash, 0, 1, 20, 33} {
			sig, err := rsa.SignPSS(kit.NewRand("pss"), k.s.(*rsa.PrivateKey), f, x.Sum(nil), &rsa.PSSOptions{SaltLength: salt})
			t.Check(err == nil, "harness", "%v", err)
			c, err := x509.ParseCertificate(ref.Seq(n.Children[0].Raw, ai, ref.BitStr(sig)))
			t.Check(err == nil, "parse", "%v", err)
			err = (&x509.Certificate{Version: 3, BasicConstraintsValid: true, IsCA: true, PublicKey: k.pub, PublicKeyAlgorithm: x509.RSA}).CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
			t.Step(1)
			t.Check((err == nil) == (salt == rsa.PSSSaltLengthEqualsHash), "pss-salt", "hash %v salt %d: %v", f, salt, err)
		}
	}
	t.Outcome("pss %v: %s", v, r)
}

func c15Insecure(t *engine.T) {
	what := t.Pick("what", 4)
	alg := t.Pick("alg", 4)
	t.Begin()
	var k xkey
	var ai []byte
	var sign func(m []byte) []byte
	rs := func(f crypto.Hash) func(m []byte) []byte {
		return func(m []byte) []byte {
			x := f.New()
			x.Write(m)
			b, err := k.s.Sign(kit.NewRand("ins"), x.Sum(nil), f)
			if err != nil {
				panic(err)
			}
			return b
		}
	}
	switch alg {
	case 0:
		k, ai, sign = xkeyOf(2), ref.Seq(ref.OID(1, 2, 840, 113549, 1, 1, 4), ref.Null()), rs(crypto.MD5)
	case 1:
		k, ai, sign = xkeyOf(2), ref.Seq(ref.OID(1, 2, 840, 113549, 1, 1, 5), ref.Null()), rs(crypto.SHA1)
	case 2:
		k, ai, sign = xkeyOf(1), ref.Seq(ref.OID(1, 2, 840, 10045, 4, 1)), rs(crypto.SHA1)
	case 3:
		k, ai, sign = xkeyOf(2), ref.Seq(ref.OID(1, 3, 14, 3, 2, 29), ref.Null()), rs(crypto.SHA1)
	}
	parent := &x509.Certificate{Version: 3, BasicConstraintsValid: true, IsCA: true, PublicKey: k.pub, PublicKeyAlgorithm: x509.RSA, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign}
	var err error
	switch what {
	case 0, 1:
		tbs := ref.Parse(certWithAI(ai), 0)[0].Children[0].Raw
		if what == 1 {
			tbs = ref.Seq(ref.Ctx(0, ref.Int(2)), ref.Int(3), ai, nameCN("s"), ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z"))), nameCN("s"), spkiOf(k.pub), ref.Ctx(3, ref.Seq(extBC(true))))
		}
		c, e := x509.ParseCertificate(ref.Seq(tbs, ai, ref.BitStr(sign(tbs))))
		t.Check(e == nil, "parse", "%v", e)
		if what == 1 {
			parent = c
		}
		err = c.CheckSignatureFrom(parent)
		if alg < 3 {
			_, ok := err.(x509.InsecureAlgorithmError)
			t.Check(ok, "error-kind", "reported as %v", err)
		}
	case 2:
		tbs := ref.Seq(ref.Int(0), nameCN("csr"), spkiOf(k.pub), ref.Ctx(0))
		c, e := x509.ParseCertificateRequest(ref.Seq(tbs, ai, ref.BitStr(sign(tbs))))
		t.Check(e == nil, "parse", "%v", e)
		err = c.CheckSignature()
	case 3:
		tbs := ref.Seq(ref.Int(1), ai, nameCN("i"), ref.TLV(0x17, []byte("200101000000Z")))
		c, e := x509.ParseCRL(ref.Seq(tbs, ai, ref.BitStr(sign(tbs))))
		t.Check(e == nil, "parse", "%v", e)
		err = parent.CheckCRLSignature(c)
	}
	t.Step(1)
	t.Check(err != nil, "insecure", "%v", fmt.Sprint("object ", what, " with insecure algorithm ", alg, " accepted"))
	t.Outcome("%d %d %v", what, alg, err)
}

func c15KeyTypes(t *engine.T) {
	kind := t.Pick("kind", 11)
	ai := t.Pick("alg", len(allSigAlgs))
	t.Begin()
	alg := allSigAlgs[ai]
	s := kit.Priv(kit.Keys[0].D)
	e := kit.ECDSA(elliptic.P256(), kit.B(7))
	var pub any
	sig := []byte{0x30, 6, 2, 1, 1, 2, 1, 1}
	switch kind {
	case 0:
	case 1:
		pub = &dsa.PublicKey{Parameters: dsa.Parameters{P: big.NewInt(23), Q: big.NewInt(11), G: big.NewInt(2)}, Y: big.NewInt(3)}
	case 2:
		pub = s.PublicKey
	case 3:
		pub = s
		sig = signBytes(xkeyOf(0), c15Msg, 1)
	case 4:
		pub = e
	case 5:
		pub = e.PublicKey
	case 6:
		pub = "string"
	case 7: // an SM2 key on another curve
		pub = &sm2.PublicKey{Curve: elliptic.P256(), X: e.X, Y: e.Y}
	case 8: // P-256 key bytes, signature by it, under SM2
		pub = &sm2.PublicKey{Curve: elliptic.P384(), X: e.X, Y: e.Y}
	case 9:
		pub = rsa.PublicKey{N: big.NewInt(15), E: 3}
	case 10:
		pub = xkeyOf(3).s
		sig = ed25519.Sign(xkeyOf(3).s.(ed25519.PrivateKey), c15Msg)
	}
	err := (&x509.Certificate{PublicKey: pub}).CheckSignature(alg, c15Msg, sig)
	t.Step(1)
	t.Check(err != nil, "key-type", "key kind %d (%T) accepted a signature under %v", kind, pub, alg)
	t.Outcome("kind %d %v: %v", kind, alg, err != nil)
}
