package props

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509/pkix"
	"io"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// claimSigner signs with one key and claims another public key.
type claimSigner struct {
	crypto.Signer
	pub any
}

func (c claimSigner) Public() crypto.PublicKey { return c.pub }

// mute never signs.
type mute struct{ pub any }

func (m mute) Public() crypto.PublicKey { return m.pub }
func (m mute) Sign(io.Reader, []byte, crypto.SignerOpts) ([]byte, error) {
	return []byte{0x30, 6, 2, 1, 1, 2, 1, 1}, nil
}

type ownBytes []byte

// c11OddKeys are public keys no object can be made for.
func c11OddKeys() []any {
	s := kit.Priv(kit.Keys[0].D)
	e := kit.ECDSA(elliptic.P256(), kit.B(7))
	p := elliptic.P256().Params()
	odd := &elliptic.CurveParams{P: p.P, N: p.N, B: p.B, Gx: p.Gx, Gy: p.Gy, BitSize: 256, Name: "P-256"}
	q := sm2.SM2P256V1().Params()
	odd2 := sm2.P256V1Curve{CurveParams: &elliptic.CurveParams{P: q.P, N: q.N, B: q.B, Gx: q.Gx, Gy: q.Gy, BitSize: 256, Name: "sm2p256v1"}, A: sm2.SM2P256V1().A}
	return []any{
		nil, 7, "key", []byte("key"), ownBytes("key"), dsa.PublicKey{},
		&dsa.PublicKey{Parameters: dsa.Parameters{P: big.NewInt(23), Q: big.NewInt(11), G: big.NewInt(2)}, Y: big.NewInt(3)},
		s.PublicKey, s, e.PublicKey, e, kit.RSA(0).PublicKey, kit.RSA(0), kit.Ed(0),
		&ecdsa.PublicKey{Curve: odd, X: e.X, Y: e.Y},
		&sm2.PublicKey{Curve: odd2, X: s.X, Y: s.Y},
		&sm2.PublicKey{Curve: q, X: s.X, Y: s.Y},
		// from here on: unusable for signing only
		&sm2.PublicKey{Curve: elliptic.P256(), X: e.X, Y: e.Y},
		&ecdsa.PublicKey{Curve: sm2.SM2P256V1(), X: s.X, Y: s.Y},
	}
}

const c11NumOdd, c11NumOddSubject = 19, 17

func c11Unusable(t *engine.T) {
	what := t.Pick("what", 5)
	kind := t.Pick("key", c11NumOdd+8)
	t.Begin()
	odd := c11OddKeys()
	if what == 4 { // as the subject's key
		if kind >= c11NumOddSubject {
			return
		}
		for ki := 0; ki < numXKeys; ki++ {
			k := xkeyOf(ki)
			tpl := leafTemplate("r", 4)
			der, err := x509.CreateCertificate(kit.NewRand("odd"), tpl, caTemplate("p", 1), odd[kind], k.s)
			t.Step(1)
			t.Check(err != nil && der == nil, "odd-key", "a certificate for key %T: %x", odd[kind], der)
		}
		der, err := x509.MarshalPKIXPublicKey(odd[kind])
		t.Check(err != nil && der == nil, "odd-key", "MarshalPKIXPublicKey(%T) = %x", odd[kind], der)
		t.Outcome("subject key %d refused", kind)
		return
	}
	if kind < c11NumOdd {
		pub := xkeyOf(0).pub
		for _, alg := range allSigAlgs {
			for _, sg := range []crypto.Signer{mute{odd[kind]}, claimSigner{xkeyOf(0).s.(crypto.Signer), odd[kind]}, claimSigner{xkeyOf(1).s.(crypto.Signer), odd[kind]}} {
				der, err := c11MakeAlg(what, alg, sg, pub)
				t.Step(1)
				t.Check(err != nil && der == nil, "odd-key", "%s with a signer whose public key is %T under %v: %v %x", makeNames[what], odd[kind], alg, err, der)
			}
		}
		t.Outcome("%s signer key %d refused", makeNames[what], kind)
		return
	}
	// A signer that claims another key: only certificates are verified
	// when made, so only there is an error due.
	ki := kind - c11NumOdd
	if what != 0 {
		return
	}
	n := 0
	for o := 0; o < 2*numXKeys; o++ {
		oi := o
		if o >= numXKeys {
			oi = 100 + o - numXKeys
		}
		if ki >= numXKeys || oi == ki {
			continue
		}
		der, err := c11MakeAlg(0, 0, claimSigner{xkeyOf(ki).s.(crypto.Signer), xkeyOf(oi).pub}, xkeyOf(0).pub)
		t.Step(1)
		n++
		t.Check(err != nil && der == nil, "wrong-key", "a certificate signed by %s in the name of %s: %x", xkeyOf(ki).name, xkeyOf(oi).name, der)
	}
	t.Outcome("signer %d claiming %d other keys refused", ki, n)
}

func c11MakeAlg(what int, alg x509.SignatureAlgorithm, signer crypto.Signer, pub any) ([]byte, error) {
	r := kit.NewRand("odd")
	switch what {
	case 0:
		tpl := leafTemplate("f", 1)
		tpl.SignatureAlgorithm = alg
		return x509.CreateCertificate(r, tpl, tpl, pub, signer)
	case 1:
		return caTemplate("f", 1).CreateCRL(r, signer, nil, t2020, t2040)
	case 2:
		return x509.CreateRevocationList(r, &x509.RevocationList{SignatureAlgorithm: alg, Number: kit.B(1), ThisUpdate: t2020, NextUpdate: t2040}, caTemplate("f", 1), signer)
	}
	return x509.CreateCertificateRequest(r, &x509.CertificateRequest{SignatureAlgorithm: alg, Subject: pkix.Name{CommonName: "csr"}}, signer)
}
