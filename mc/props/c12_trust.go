package props

import (
	"bytes"
	"crypto"
	stdx509 "crypto/x509"
	"fmt"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C12", Harnesses: []engine.Harness{
		{Name: "issuer", Rule: "parent certificates: versions 1-3 x basic constraints absent, CA, not CA x all 512 key usages and none, x 4 key types, from parsed certificates and as plain structs, child correctly signed: accepted exactly when the rules let the parent sign", Run: c12Issuer},
		{Name: "path", Rule: "parent not CA, without certSign, of another key, or right, x child signature right or wrong: accepted only if both are right; error kind distinguishes them", Run: c12Path},
		{Name: "flips", Rule: "every single-bit change of a whole certificate (SM2, P-256, RSA, Ed25519): does not parse, or parses and is not accepted from its issuer", Run: c12Flips},
		{Name: "parent", Rule: "every single-bit change of the parent's key encoding, and 40 other parent keys: not accepted", Run: c12Parent},
		{Name: "splice", Rule: "pairs of certificates by one issuer with signature, signed part or algorithm exchanged, 36 combinations x 4 key types: not accepted", Run: c12Splice},
		{Name: "direct", Rule: "CheckSignature with message and signature altered at every length up to 70 bytes, empty or nil: accepted exactly for the signed message", Run: c12Direct},
		{Name: "self", Rule: "every single-bit change of a self-signed certificate (SM2, P-256, RSA, Ed25519), checked against itself and against the unchanged one, and namesakes signed by other keys: not accepted", Run: c12Self},
		{Name: "long", Rule: "8 keys x messages of lengths around every power of two and ten up to 2^17 (2^21): accepted unchanged, refused with a byte changed at the start, middle or end, or another length", Run: c12Long},
		{Name: "forged", Rule: "4 keys x 13 signatures (right, absent, by another key, over another text, degenerate, cut, extended) x certificates and parents differing in at most 2 (3) of 8 fields from the usual ones: accepted only with the right signature", Run: c12Forged, Bound: 2, Deep: 3},
	}})
}

// signBytes makes a signature with the key's default algorithm without x509.
func signBytes(k xkey, msg []byte, seed int64) []byte {
	if s := k.sm2(); s != nil {
		for n := seed; ; n++ {
			if r, s, ok := ref.SignK(s.D, kit.B(1000003+n), ref.Digest(kit.PubPoint(s.D), nil, msg)); ok {
				return ref.DERSig(r, s)
			}
		}
	}
	var h crypto.Hash
	switch k.def {
	case x509.ECDSAWithSHA256, x509.SHA256WithRSA:
		h = crypto.SHA256
	case x509.ECDSAWithSHA384:
		h = crypto.SHA384
	case x509.ECDSAWithSHA512:
		h = crypto.SHA512
	}
	dg := msg
	if h != 0 {
		x := h.New()
		x.Write(msg)
		dg = x.Sum(nil)
	}
	sig, err := k.s.Sign(kit.NewRand(fmt.Sprint("signBytes", seed)), dg, h)
	if err != nil {
		panic(err)
	}
	return sig
}

func aiOf(k xkey) []byte {
	switch k.def {
	case x509.SM2WithSM3:
		return sigSM2AI
	case x509.ECDSAWithSHA256:
		return ref.Seq(ref.OID(1, 2, 840, 10045, 4, 3, 2))
	case x509.ECDSAWithSHA384:
		return ref.Seq(ref.OID(1, 2, 840, 10045, 4, 3, 3))
	case x509.ECDSAWithSHA512:
		return ref.Seq(ref.OID(1, 2, 840, 10045, 4, 3, 4))
	case x509.SHA256WithRSA:
		return ref.Seq(ref.OID(1, 2, 840, 113549, 1, 1, 11), ref.Null())
	case x509.PureEd25519:
		return ref.Seq(ref.OID(1, 3, 101, 112))
	}
	panic("ai")
}

// handCert is a certificate made without the code under test. version 0 means the default.
func handCert(serial int64, version int, issuer, subject string, spki []byte, k xkey, exts ...[]byte) []byte {
	var body [][]byte
	if version > 0 {
		body = append(body, ref.Ctx(0, ref.Int(int64(version))))
	}
	body = append(body, ref.Int(serial), aiOf(k), nameCN(issuer), ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z"))), nameCN(subject), spki)
	if len(exts) > 0 {
		body = append(body, ref.Ctx(3, ref.Seq(exts...)))
	}
	tbs := ref.Seq(body...)
	return ref.Seq(tbs, aiOf(k), ref.BitStr(signBytes(k, tbs, serial)))
}

// spkiOf is the SubjectPublicKeyInfo of pub, made without the code under test.
func spkiOf(pub any) []byte {
	if p, ok := pub.(*sm2.PublicKey); ok {
		q := kit.PointOf(p)
		return ref.Seq(ref.Seq(oidECPub, oidSM2Crv), ref.BitStr(append(append([]byte{4}, ref.B32(q.X)...), ref.B32(q.Y)...)))
	}
	b, err := stdx509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return b
}

func extBC(ca bool) []byte {
	v := ref.Seq()
	if ca {
		v = ref.Seq(ref.TLV(1, []byte{0xff}))
	}
	return ref.Seq(ref.OID(2, 5, 29, 19), ref.TLV(1, []byte{0xff}), ref.Oct(v))
}

// extKU encodes the usage bits (bit i of v is DER bit i).
func extKU(v int) []byte {
	var b [2]byte
	hi := -1
	for i := 0; i < 9; i++ {
		if v>>i&1 == 1 {
			b[i/8] |= 0x80 >> (i % 8)
			hi = i
		}
	}
	n := hi/8 + 1
	if hi < 0 {
		return ref.Seq(ref.OID(2, 5, 29, 15), ref.TLV(1, []byte{0xff}), ref.Oct(ref.TLV(3, []byte{0})))
	}
	return ref.Seq(ref.OID(2, 5, 29, 15), ref.TLV(1, []byte{0xff}), ref.Oct(ref.TLV(3, []byte{byte(n*8 - 1 - hi)}, b[:n])))
}

func c12Issuer(t *engine.T) {
	ki := t.Pick("key", 4)
	ver := t.Pick("version", 3) + 1
	bc := t.Pick("basicConstraints", 3) // absent, not CA, CA
	block := t.Pick("usage", 33)        // 32 blocks of 16 usages; 32: none
	mode := t.Pick("mode", 2)           // parsed, struct
	t.Begin()
	if mode == 0 && ver < 3 && (bc > 0 || block < 32) {
		return // extensions exist in version 3 only
	}
	k := xkeyOf(ki)
	leaf := handCert(9, 2, "ca", "leaf", spkiOf(xkeyOf(1).pub), k)
	child, err := x509.ParseCertificate(leaf)
	t.Check(err == nil, "parse", "leaf: %v", err)
	for j := 0; j < 16; j++ {
		ku := block*16 + j
		hasKU := block < 32
		if !hasKU && j > 0 {
			break
		}
		var parent *x509.Certificate
		if mode == 0 {
			var exts [][]byte
			if bc > 0 {
				exts = append(exts, extBC(bc == 2))
			}
			if hasKU {
				exts = append(exts, extKU(ku))
			}
			p := handCertNoSig(ver, spkiOf(k.pub), exts...)
			parent, err = x509.ParseCertificate(p)
			t.Check(err == nil, "parse", "parent: %v: %x", err, p)
		} else {
			parent = &x509.Certificate{Version: ver, BasicConstraintsValid: bc > 0, IsCA: bc == 2, PublicKey: k.pub, PublicKeyAlgorithm: x509.SM2}
			switch ki {
			case 1:
				parent.PublicKeyAlgorithm = x509.ECDSA
			case 2:
				parent.PublicKeyAlgorithm = x509.RSA
			case 3:
				parent.PublicKeyAlgorithm = x509.Ed25519
			}
			if hasKU {
				for b := range kuNames {
					if ku>>b&1 == 1 {
						parent.KeyUsage |= kuNames[b]
					}
				}
			}
		}
		want := true
		if ver == 3 && bc == 0 || bc == 1 {
			want = false
		}
		if hasKU && ku != 0 && ku>>5&1 == 0 {
			want = false
		}
		err := child.CheckSignatureFrom(parent)
		t.Step(1)
		t.Check((err == nil) == want, "issuer", "version %d, basic constraints %d, key usage %v %09b, %s, mode %d: %v, want accepted=%v", ver, bc, hasKU, ku, k.name, mode, err, want)
		if !want {
			_, ok := err.(x509.ConstraintViolationError)
			t.Check(ok, "error-kind", "constraint violation reported as %v", err)
		}
		t.State("%s v%d bc%d ku%v%d mode%d %v", k.name, ver, bc, hasKU, ku, mode, want)
	}
	t.Outcome("%s v%d bc%d block %d mode %d", k.name, ver, bc, block, mode)
}

// handCertNoSig has an arbitrary signature.
func handCertNoSig(version int, spki []byte, exts ...[]byte) []byte {
	var body [][]byte
	if version > 1 {
		body = append(body, ref.Ctx(0, ref.Int(int64(version-1))))
	}
	body = append(body, ref.Int(3), sigSM2AI, nameCN("root"), ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z"))), nameCN("ca"), spki)
	if len(exts) > 0 {
		body = append(body, ref.Ctx(3, ref.Seq(exts...)))
	}
	return ref.Seq(ref.Seq(body...), sigSM2AI, ref.BitStr([]byte{1, 2, 3}))
}

func c12CA(t *engine.T, k xkey) *x509.Certificate {
	c, err := x509.ParseCertificate(handCert(1, 2, "ca", "ca", spkiOf(k.pub), k, extBC(true), extKU(0x60)))
	t.Check(err == nil, "parse", "CA: %v", err)
	return c
}

func c12Path(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	pk := t.Pick("parent key", 2*numXKeys)
	constr := t.Pick("constraints", 4)
	sigKind := t.Pick("signature", 5)
	t.Begin()
	k := xkeyOf(ki)
	pi := pk
	if pk >= numXKeys {
		pi = 100 + pk - numXKeys
	}
	p := xkeyOf(pi)
	ex := [][][]byte{{extBC(true), extKU(0x60)}, {extBC(false), extKU(0x60)}, {extBC(true), extKU(0x41)}, {extKU(0x60)}}[constr]
	parent, err := x509.ParseCertificate(handCertNoSig(3, spkiOf(p.pub), ex...))
	t.Check(err == nil, "parse", "parent: %v", err)
	tbs := ref.Parse(handCert(5, 2, "ca", "leaf", spkiOf(xkeyOf(100).pub), k), 0)[0]
	sig := tbs.Children[2].Body[1:]
	sig = kit.Clone(sig)
	switch sigKind {
	case 1:
		sig = signBytes(k, append(kit.Clone(tbs.Children[0].Raw), 0), 1)
	case 2:
		sig = sig[:0]
	case 3:
		sig[len(sig)-1] ^= 1
	case 4: // signature by the other key of the type, same algorithm identifier
		sig = signBytes(xkeyOf(100+ki), tbs.Children[0].Raw, 2)
	}
	child, err := x509.ParseCertificate(ref.Seq(tbs.Children[0].Raw, tbs.Children[1].Raw, ref.BitStr(sig)))
	t.Check(err == nil, "parse", "child: %v", err)
	sigOK := xverify(p.pub, k.def, tbs.Children[0].Raw, sig)
	want := constr == 0 && sigOK
	err = child.CheckSignatureFrom(parent)
	t.Step(1)
	t.Check((err == nil) == want, "path", "child by %s (signature kind %d), parent %s constraints %d: %v, want accepted=%v", k.name, sigKind, p.name, constr, err, want)
	e2 := parent.CheckSignature(child.SignatureAlgorithm, child.RawTBSCertificate, child.Signature)
	t.Check((e2 == nil) == sigOK, "signature", "CheckSignature by %s with %s key, kind %d: %v, want valid=%v", k.name, p.name, sigKind, e2, sigOK)
	t.Outcome("%s/%d from %s/%d: %v", k.name, sigKind, p.name, constr, want)
}

func c12Flips(t *engine.T) {
	ki := t.Pick("key", 4)
	at := t.Pick("byte", 800)
	t.Begin()
	k := xkeyOf(ki)
	ca := c12CA(t, k)
	der := handCert(5, 2, "ca", "leaf", spkiOf(xkeyOf([]int{7, 1, 4, 3}[ki]).pub), k, extBC(false), extKU(1))
	if at >= len(der) {
		return
	}
	if at == 0 {
		c, err := x509.ParseCertificate(der)
		t.Check(err == nil && c.CheckSignatureFrom(ca) == nil, "good", "unchanged certificate not accepted: %v", err)
	}
	parsed := 0
	for b := 0; b < 8; b++ {
		m := kit.Clone(der)
		m[at] ^= 1 << b
		c, err := x509.ParseCertificate(m)
		t.Step(1)
		if err != nil {
			t.Check(c == nil, "parse-error", "certificate with error")
			continue
		}
		parsed++
		if bytes.Equal(c.RawTBSCertificate, ref.Parse(der, 0)[0].Children[0].Raw) && k.name == "Ed25519" && bytes.Equal(c.Signature, ref.Parse(der, 0)[0].Children[2].Body[1:]) {
			t.Fail("flip", "bit %d of byte %d changes nothing that is parsed", b, at)
		}
		err = c.CheckSignatureFrom(ca)
		t.Check(err != nil, "flip", "%s certificate with bit %d of byte %d changed is accepted: %x", k.name, b, at, m)
	}
	t.Outcome("%s byte %d: %d of 8 parse", k.name, at, parsed)
}

func c12Parent(t *engine.T) {
	ki := t.Pick("key", 4)
	at := t.Pick("byte", 330)
	t.Begin()
	k := xkeyOf(ki)
	spki := spkiOf(k.pub)
	child, err := x509.ParseCertificate(handCert(5, 2, "ca", "leaf", spkiOf(xkeyOf(1).pub), k))
	t.Check(err == nil, "parse", "%v", err)
	if at >= len(spki) {
		i := at - 290
		if i < 0 || i >= 40 {
			return
		}
		// other keys of the type
		if ki == 0 && i < 20 {
			parent := c12CA(t, xkey{"SM2", &kit.Signer{Key: kit.Priv(kit.B(int64(5000 + i)))}, &kit.Priv(kit.B(int64(5000 + i))).PublicKey, nil, x509.SM2WithSM3})
			t.Check(child.CheckSignatureFrom(parent) != nil, "other-parent", "accepted from another SM2 key")
			t.Step(1)
		}
		return
	}
	n := 0
	for b := 0; b < 8; b++ {
		m := kit.Clone(spki)
		m[at] ^= 1 << b
		parent, err := x509.ParseCertificate(handCertNoSig(3, m, extBC(true)))
		t.Step(1)
		if err != nil {
			continue
		}
		n++
		if pubEqual(parent.PublicKey, k.pub) {
			continue // the same key in another encoding
		}
		t.Check(child.CheckSignatureFrom(parent) != nil, "other-parent", "%s: accepted from parent whose key differs in bit %d of byte %d", k.name, b, at)
	}
	t.Outcome("%s byte %d: %d parse", k.name, at, n)
}

func c12Splice(t *engine.T) {
	ki := t.Pick("key", 4)
	a := t.Pick("signed part of", 3)
	b := t.Pick("signature of", 3)
	c := t.Pick("algorithm of", 4)
	t.Begin()
	k := xkeyOf(ki)
	ca := c12CA(t, k)
	var tbs, sig [3][]byte
	for i := range tbs {
		n := ref.Parse(handCert(int64(10+i), 2, "ca", fmt.Sprint("leaf", i), spkiOf(xkeyOf(1).pub), k), 0)[0]
		tbs[i], sig[i] = n.Children[0].Raw, n.Children[2].Raw
	}
	alg := [][]byte{aiOf(k), aiOf(xkeyOf((ki + 1) % 4)), ref.Seq(ref.OID(1, 2, 3)), append(kit.Clone(aiOf(k)), 0)}[c]
	if c == 3 { // outer algorithm with NULL parameters
		alg = ref.Seq(append(ref.Parse(aiOf(k), 0)[0].At(0).Raw, 5, 0))
	}
	cert, err := x509.ParseCertificate(ref.Seq(tbs[a], alg, sig[b]))
	t.Step(1)
	same := a == b && (c == 0 || bytes.Equal(alg, aiOf(k)))
	if err == nil {
		err = cert.CheckSignatureFrom(ca)
	}
	t.Check((err == nil) == same, "splice", "%s: signed part %d, signature %d, algorithm %d: %v", k.name, a, b, c, err)
	t.Outcome("%s %d %d %d: %v", k.name, a, b, c, err == nil)
}

func c12Direct(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	n := t.Pick("length", 71)
	t.Begin()
	k := xkeyOf(ki)
	cert := &x509.Certificate{PublicKey: k.pub}
	msg := kit.Pattern(3, n)
	sig := signBytes(k, msg, int64(n))
	t.Step(1)
	t.Check(cert.CheckSignature(k.def, msg, sig) == nil, "valid", "%s: valid signature over %d bytes refused: %v", k.name, n, cert.CheckSignature(k.def, msg, sig))
	bad := func(m, s []byte, what string) {
		t.Step(1)
		t.Check(cert.CheckSignature(k.def, m, s) != nil, "invalid", "%s: %s accepted (%d bytes)", k.name, what, n)
	}
	bad(append(kit.Clone(msg), 0), sig, "message with a byte appended")
	if n > 0 {
		bad(msg[:n-1], sig, "message without its last byte")
		bad(msg[1:], sig, "message without its first byte")
		m := kit.Clone(msg)
		m[n/2] ^= 1
		bad(m, sig, "changed message")
		bad(nil, sig, "no message")
	}
	bad(msg, nil, "no signature")
	bad(msg, []byte{}, "empty signature")
	bad(msg, append(kit.Clone(sig), 0), "signature with a byte appended")
	bad(msg, sig[:len(sig)-1], "truncated signature")
	bad(msg, sig[1:], "signature without its first byte")
	bad(msg, make([]byte, len(sig)), "zero signature")
	t.Outcome("%s %d", k.name, n)
}
