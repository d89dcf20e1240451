package props

import (
	"bytes"
	"crypto/elliptic"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C23", Harnesses: []engine.Harness{
		{Name: "tiny", Rule: "every input of at most 2 bytes, and of 3-4 (quick) or 3-5 (thorough) bytes over DER-significant values, to all 21 parsers", Run: c23Tiny},
		{Name: "bytes", Rule: "30 seed encodings x every byte position x 24 (quick) or 255 (thorough) values, and every truncation, to their own parser, followed by use of what parsed", Run: c23Bytes},
		{Name: "cross", Rule: "every seed encoding to every parser", Run: c23Cross},
		{Name: "tree", Rule: "30 seed encodings x every element x 21 structural changes (deleted, duplicated, emptied, retagged, exchanged, one byte shorter or longer, replaced by other elements, lengths fixed up), thorough: x every second element", Run: c23Tree},
		{Name: "inside", Rule: "the same structural changes inside the encrypted parts of PKCS #12 files (re-encrypted, MAC right) and inside the signed attributes of PKCS #7 messages (signed again)", Run: c23Inside},
		{Name: "leaves", Rule: "30 seed encodings and 5 authenticated parts x every primitive element x 30 tags (all universal string, number, time and OID types, context tags) x lengths 0..5 x 4 contents", Run: c23Leaves},
	}, Assume: []string{"files that ask for more than 2^16 key derivation rounds are left out: running them only takes time"}})
}

type parser struct {
	name string
	f    func([]byte) (any, error)
}

var c23Sink = &pkix.CertificateList{}

var parsers = []parser{
	{"ParseCertificate", func(b []byte) (any, error) {
		c, err := x509.ParseCertificate(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"ParseCertificates", func(b []byte) (any, error) {
		c, err := x509.ParseCertificates(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"ParseCertificateRequest", func(b []byte) (any, error) {
		c, err := x509.ParseCertificateRequest(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"ParseCRL", func(b []byte) (any, error) {
		c, err := x509.ParseCRL(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"ParseDERCRL", func(b []byte) (any, error) {
		c, err := x509.ParseDERCRL(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"ParsePKCS8PrivateKey", func(b []byte) (any, error) { return x509.ParsePKCS8PrivateKey(b) }},
	{"ParseECPrivateKey", func(b []byte) (any, error) {
		k, err := x509.ParseECPrivateKey(b)
		if err != nil {
			return nil, err // may be a typed nil
		}
		return k, nil
	}},
	{"ParsePKCS1PrivateKey", func(b []byte) (any, error) {
		c, err := x509.ParsePKCS1PrivateKey(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"ParsePKCS1PublicKey", func(b []byte) (any, error) {
		c, err := x509.ParsePKCS1PublicKey(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"ParsePKIXPublicKey", func(b []byte) (any, error) { return x509.ParsePKIXPublicKey(b) }},
	{"ParsePKCS7", func(b []byte) (any, error) {
		c, err := x509.ParsePKCS7(b)
		if err != nil {
			return nilIf(c == nil), err
		}
		return c, nil
	}},
	{"DecodeAll", func(b []byte) (any, error) {
		k, c, err := pkcs12.DecodeAll(b, "pw")
		if err != nil {
			return nilIf(k == nil && c == nil), err
		}
		return k, nil
	}},
	{"Decode", func(b []byte) (any, error) {
		k, c, err := pkcs12.Decode(b, "pw")
		if err != nil {
			return nilIf(k == nil && c == nil), err
		}
		return k, nil
	}},
	{"ToPEM", func(b []byte) (any, error) {
		k, err := pkcs12.ToPEM(b, "pw")
		if err != nil {
			return nilIf(k == nil), err
		}
		return len(k), nil
	}},
	{"Decryt", func(b []byte) (any, error) {
		m, err := sm2.Decryt(kit.Priv(kit.Keys[0].D), b)
		if err != nil {
			return nilIf(m == nil), err
		}
		return len(m), nil
	}},
	{"UnmarshalSign", func(b []byte) (any, error) {
		r, s, err := sm2.UnmarshalSign(b)
		if err != nil {
			return nil, err
		}
		_ = r.Cmp(s)
		return 1, nil
	}},
	{"Verify", func(b []byte) (any, error) {
		p := kit.Pub(kit.PubPoint(kit.Keys[0].D))
		sm2.Verify(p, b, b, b)
		sm2.Verify(p, []byte("m"), nil, b)
		sm2.VerifyDigest(p, b, b)
		return nil, io.EOF
	}},
	{"CheckSignature", func(b []byte) (any, error) {
		var err error
		for _, c := range c23Certs() {
			for _, a := range []x509.SignatureAlgorithm{x509.SM2WithSM3, x509.ECDSAWithSHA256, x509.SHA256WithRSA, x509.SHA256WithRSAPSS, x509.PureEd25519} {
				if e := c.CheckSignature(a, []byte("m"), b); e == nil {
					panic(engine.Failure{Key: "accepted", Msg: fmt.Sprintf("signature %x accepted", b)})
				} else {
					err = e
				}
			}
		}
		return nil, err
	}},
	{"NewRC2", func(b []byte) (any, error) {
		c, err := pkcs12.New(b, len(b)*8)
		if err != nil {
			return nilIf(c == nil), err
		}
		return 1, nil
	}},
	{"password", func(b []byte) (any, error) {
		if k, c, err := pkcs12.DecodeAll(c23PFX(), string(b)); err == nil && string(b) != "pw" || err != nil && (k != nil || c != nil) {
			panic(engine.Failure{Key: "password", Msg: fmt.Sprintf("password %q: %v", b, err)})
		}
		return nil, io.EOF
	}},
	{"SignDigest", func(b []byte) (any, error) {
		sig, err := sm2.SignDigest(kit.NewRand("d"), kit.Priv(kit.Keys[0].D), b)
		if err != nil {
			return nilIf(sig == nil), err
		}
		return 1, nil
	}},
}

// nilIf is nil, or a marker for a result that came together with an error.
func nilIf(ok bool) any {
	if ok {
		return nil
	}
	return "result"
}

var c23CertCache []*x509.Certificate

func c23Certs() []*x509.Certificate {
	if c23CertCache == nil {
		for i := 0; i < 4; i++ {
			c, err := x509.ParseCertificate(handCert(1, 2, "a", "a", spkiOf(xkeyOf(i).pub), xkeyOf(i)))
			if err != nil {
				panic(err)
			}
			c23CertCache = append(c23CertCache, c)
		}
	}
	return c23CertCache
}

var c23PFXCache []byte

func c23PFX() []byte {
	if c23PFXCache == nil {
		o := p12Std("pw")
		o.iter, o.macIter = 1, 1
		k := xkeyOf(1)
		c23PFXCache = p12Build(o, [][]byte{p12CertBag(handCert(1, 2, "a", "a", spkiOf(k.pub), k))}, [][]byte{p12KeyBag(o, p8Of(k))})
	}
	return c23PFXCache
}

// quiet runs f and fails if it prints anything.
func quiet(t *engine.T, f func()) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = w, w
	log.SetOutput(w)
	got := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(io.LimitReader(r, 1<<16))
		io.Copy(io.Discard, r)
		got <- b
	}()
	done := false
	defer func() {
		os.Stdout, os.Stderr = so, se
		log.SetOutput(se)
		w.Close()
		b := <-got
		r.Close()
		if done {
			t.Check(len(b) == 0, "output", "prints %q", b)
		}
	}()
	f()
	done = true
}

// c23Call gives in to one parser and uses what comes out.
func c23Call(t *engine.T, p *parser, in []byte, use bool) bool {
	// exact capacity, so that reads past the end are caught, and a copy for the input check
	b := append(make([]byte, 0, len(in)), in...)
	v, err := p.f(b)
	if !bytes.Equal(b, in) {
		t.Fail("input", "%s changed its input", p.name)
	}
	if err != nil {
		if v != nil {
			t.Fail("partial", "%s returns a result together with the error %v for %x", p.name, err, in)
		}
		return false
	}
	t.Check(v != nil, "nothing", "%s returns neither a result nor an error for %x", p.name, in)
	if use {
		c23Use(t, v)
	}
	return true
}

// c23Use exercises a parsed object: anything that parses must be usable
// without a panic.
func c23Use(t *engine.T, v any) {
	switch v := v.(type) {
	case *x509.Certificate:
		v.CheckSignatureFrom(v)
		v.CheckSignature(v.SignatureAlgorithm, v.RawTBSCertificate, v.Signature)
		v.Equal(v)
		x509.MarshalPKIXPublicKey(v.PublicKey)
		_ = v.SignatureAlgorithm.String() + v.PublicKeyAlgorithm.String() + v.Subject.String() + v.Issuer.String()
		k := xkeyOf(3) // cheap signatures
		x509.CreateCertificate(kit.NewRand("u"), v, v, k.pub, k.s)
		x509.CreateRevocationList(kit.NewRand("u"), &x509.RevocationList{Number: big.NewInt(1), ThisUpdate: t2020, NextUpdate: t2040}, v, k.s)
		v.CreateCRL(kit.NewRand("u"), k.s, nil, t2020, t2040)
		v.CheckCRLSignature(&pkix.CertificateList{})
	case []*x509.Certificate:
		for _, c := range v {
			c23Use(t, c)
		}
	case *x509.CertificateRequest:
		v.CheckSignature()
		x509.MarshalPKIXPublicKey(v.PublicKey)
		k := xkeyOf(3)
		x509.CreateCertificateRequest(kit.NewRand("u"), v, k.s)
	case *pkix.CertificateList:
		v.HasExpired(time.Unix(0, 0))
		for _, c := range c23Certs() {
			c.CheckCRLSignature(v)
		}
	case *x509.PKCS7:
		v.Verify()
		v.GetOnlySigner()
		var r asn1.RawValue
		var s []byte
		v.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &r)
		v.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &s)
		v.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &s)
	case *sm2.PublicKey:
		sm2.Verify(v, []byte("m"), nil, ref.DERSig(kit.B(5), kit.B(7)))
		_, err := sm2.Encryt(kit.NewRand("u"), v, []byte("m"))
		t.Check(err == nil, "use", "encryption to a parsed key: %v", err)
		x509.MarshalPKIXPublicKey(v)
	case *sm2.PrivateKey:
		_, err := sm2.Sign(kit.NewRand("u"), v, []byte("m"), nil)
		t.Check(err == nil, "use", "signing with a parsed key: %v", err)
		x509.MarshalPKCS8PrivateKey(v)
	default:
		x509.MarshalPKIXPublicKey(v)
	}
	t.Step(1)
}

var derAlphabet = []byte{0x30, 0x02, 0x00, 0x01, 0x80, 0x81, 0x84, 0xff, 0x06, 0x04, 0x03, 0x05, 0xa0, 0x31, 0x7f, 0x82, 0xa3, 0x17, 0x0c, 0x24}

func c23Tiny(t *engine.T) {
	pi := t.Pick("parser", len(parsers))
	first := t.Pick("first", 257)
	t.Begin()
	p := &parsers[pi]
	quiet(t, func() {
		n := 0
		call := func(b []byte) {
			n++
			if n%64 == 0 {
				t.Step(64)
			}
			c23Call(t, p, b, true)
		}
		if first == 256 {
			c23Call(t, p, nil, true)
			call([]byte{})
			return
		}
		a := byte(first)
		call([]byte{a})
		slow := p.name == "Verify" || p.name == "CheckSignature" || p.name == "SignDigest"
		step := 1
		if slow && !t.Thorough() {
			step = 17
		}
		for b := 0; b < 256; b += step {
			call([]byte{a, byte(b)})
		}
		if bytes.IndexByte(derAlphabet, a) < 0 || slow {
			return
		}
		al := derAlphabet
		for _, b := range al {
			for _, c := range al {
				call([]byte{a, b, c})
				for _, d := range al {
					call([]byte{a, b, c, d})
					if t.Thorough() {
						for _, e := range al {
							call([]byte{a, b, c, d, e})
						}
					}
				}
			}
		}
	})
	t.State("%d %d", pi, first)
}

type c23Seed struct {
	name string
	p    int // parser index
	der  []byte
	cost int // 1: using the result is slow
}

func parserNo(name string) int {
	for i := range parsers {
		if parsers[i].name == name {
			return i
		}
	}
	panic(name)
}

var c23SeedCache []c23Seed

// c23Full is a certificate template with every extension.
func c23Full() *stdx509.Certificate {
	return &stdx509.Certificate{SerialNumber: big.NewInt(77), Subject: pkix.Name{CommonName: "full", Country: []string{"CN"}, Organization: []string{"o"}}, NotBefore: t2020, NotAfter: time.Date(2060, 1, 1, 0, 0, 0, 0, time.UTC),
		BasicConstraintsValid: true, IsCA: true, MaxPathLen: 3, KeyUsage: 0x1ff, ExtKeyUsage: []stdx509.ExtKeyUsage{stdx509.ExtKeyUsageServerAuth, stdx509.ExtKeyUsageAny}, UnknownExtKeyUsage: []asn1.ObjectIdentifier{{1, 2, 3}},
		SubjectKeyId: []byte{1, 2}, AuthorityKeyId: []byte{3, 4}, OCSPServer: []string{"http://o"}, IssuingCertificateURL: []string{"http://i"}, DNSNames: []string{"a.b"}, EmailAddresses: []string{"a@b"},
		IPAddresses: ipList("1.2.3.4", "::1"), URIs: urls("http://u/x"), PermittedDNSDomainsCritical: true, PermittedDNSDomains: []string{".a"}, ExcludedDNSDomains: []string{"b"}, PermittedIPRanges: netList("10.0.0.0/8"), ExcludedIPRanges: netList("2001:db8::/32"),
		PermittedEmailAddresses: []string{"x@y", "z"}, ExcludedEmailAddresses: []string{".q"}, PermittedURIDomains: []string{"h"}, ExcludedURIDomains: []string{".k"}, CRLDistributionPoints: []string{"http://c"},
		PolicyIdentifiers: []asn1.ObjectIdentifier{{1, 3, 5}}, ExtraExtensions: []pkix.Extension{{Id: oid(1, 9, 9), Value: []byte{1, 2}}}}
}

func c23Seeds() []c23Seed {
	if c23SeedCache != nil {
		return c23SeedCache
	}
	add := func(name, p string, der []byte, cost int) {
		c23SeedCache = append(c23SeedCache, c23Seed{name, parserNo(p), der, cost})
	}
	ok := func(b []byte, err error) []byte {
		if err != nil {
			panic(err)
		}
		return b
	}
	ec := xkeyOf(1)
	full := ok(stdx509.CreateCertificate(kit.NewRand("seed"), c23Full(), c23Full(), ec.pub, ec.s))
	add("full certificate", "ParseCertificate", full, 0)
	add("SM2 certificate", "ParseCertificate", handCert(5, 2, "i", "s", spkiOf(xkeyOf(0).pub), xkeyOf(0), extBC(true), extKU(0x60)), 1)
	add("RSA certificate", "ParseCertificate", handCert(5, 2, "i", "s", spkiOf(xkeyOf(2).pub), xkeyOf(2)), 0)
	add("Ed25519 version 1 certificate", "ParseCertificate", handCert(5, 0, "i", "s", spkiOf(xkeyOf(3).pub), xkeyOf(3)), 0)
	add("PSS certificate", "ParseCertificate", certWithAI(ref.Seq(ref.OID(1, 2, 840, 113549, 1, 1, 10), pssParams([7]int{}))), 0)
	add("two certificates", "ParseCertificates", append(handCert(5, 2, "i", "s", spkiOf(xkeyOf(3).pub), xkeyOf(3)), handCert(6, 2, "i", "s", spkiOf(xkeyOf(1).pub), xkeyOf(1))...), 0)
	csr := &stdx509.CertificateRequest{Subject: pkix.Name{CommonName: "csr"}, DNSNames: []string{"a.b"}, EmailAddresses: []string{"a@b"}, IPAddresses: ipList("1.2.3.4"), URIs: urls("http://u"), ExtraExtensions: []pkix.Extension{{Id: oid(1, 9, 9), Value: []byte{1}}}}
	add("request", "ParseCertificateRequest", ok(stdx509.CreateCertificateRequest(kit.NewRand("seed"), csr, ec.s)), 0)
	add("SM2 request", "ParseCertificateRequest", c13Make(xkeyOf(0), "x"), 1)
	add("CRL", "ParseCRL", c14Hand(xkeyOf(1), 4), 0)
	crl := c14Hand(xkeyOf(3), 4)
	add("DER CRL", "ParseDERCRL", crl, 0)
	add("PEM CRL", "ParseCRL", pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: crl}), 0)
	for i := 0; i < 4; i++ {
		add("PKCS8 "+xkeyOf(i).name, "ParsePKCS8PrivateKey", p8Of(xkeyOf(i)), b2i(i == 0))
		add("PKIX "+xkeyOf(i).name, "ParsePKIXPublicKey", spkiOf(xkeyOf(i).pub), b2i(i == 0))
	}
	d := kit.Keys[0].D
	add("SEC1 SM2", "ParseECPrivateKey", sm2SEC1(d, ref.B32(d), true, true), 1)
	ek := kit.ECDSA(elliptic.P384(), kit.B(12345))
	add("SEC1 P-384", "ParseECPrivateKey", ok(stdx509.MarshalECPrivateKey(ek)), 0)
	add("PKCS1 private", "ParsePKCS1PrivateKey", stdx509.MarshalPKCS1PrivateKey(kit.RSA(2)), 0)
	add("PKCS1 public", "ParsePKCS1PublicKey", stdx509.MarshalPKCS1PublicKey(&kit.RSA(2).PublicKey), 0)
	content := []byte("content")
	add("PKCS7", "ParsePKCS7", p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, [][]byte{crl}, p7Good(0, 50, "iss", content, false)), 1)
	add("PKCS7 direct", "ParsePKCS7", p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, nil, p7Good(0, 50, "iss", content, true)), 1)
	add("PFX", "DecodeAll", c23PFX(), 0)
	add("PFX PEM", "ToPEM", c23PFX(), 0)
	add("PFX std", "Decode", c23PFX(), 0)
	ct, _ := ref.EncryptK(kit.PubPoint(d), kit.B(99), []byte("message"))
	add("ciphertext", "Decryt", ct, 1)
	r, s, _ := ref.SignK(d, kit.B(77), ref.SM3(nil))
	add("signature", "UnmarshalSign", ref.DERSig(r, s), 0)
	add("signature check", "Verify", ref.DERSig(r, s), 1)
	return c23SeedCache
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c23Bytes(t *engine.T) {
	seeds := c23Seeds()
	si := t.Pick("seed", len(seeds))
	blk := t.Pick("block", 64)
	t.Begin()
	s := seeds[si]
	p := &parsers[s.p]
	vals := []byte{0, 1, 0x7f, 0x80, 0xff, 0x30, 0x31, 0x02, 0x04, 0x05, 0x06, 0x03, 0xa0, 0x81, 0x84, 0x24}
	ok := 0
	quiet(t, func() {
		for i := blk * len(s.der) / 64; i < (blk+1)*len(s.der)/64; i++ {
			try := func(b byte, k int) {
				if b == s.der[i] {
					return
				}
				d := kit.Clone(s.der)
				d[i] = b
				if iterBomb(d) {
					return
				}
				use := s.cost == 0 || t.Thorough() || k < 6
				if c23Call(t, p, d, use) {
					ok++
				}
			}
			t.Step(20)
			for b := 0; b < 8; b++ {
				try(s.der[i]^1<<b, b)
			}
			if t.Thorough() {
				for b := 0; b < 256; b++ {
					try(byte(b), 0)
				}
			} else {
				for k, b := range vals {
					try(b, k+8)
				}
			}
			c23Call(t, p, s.der[:i:i], true)
		}
	})
	t.Outcome("%s block %d: %d changed inputs parse", s.name, blk, ok)
}

func c23Cross(t *engine.T) {
	seeds := c23Seeds()
	si := t.Pick("seed", len(seeds))
	pi := t.Pick("parser", len(parsers))
	t.Begin()
	var ok bool
	quiet(t, func() {
		ok = c23Call(t, &parsers[pi], seeds[si].der, true)
	})
	if pi == seeds[si].p && parsers[pi].name != "Verify" {
		t.Check(ok, "seed", "seed %s is not accepted by its parser", seeds[si].name)
	}
	t.State("%d %d %v", si, pi, ok)
}

// collect lists the elements of a tree, including those inside OCTET STRINGs
// and BIT STRINGs that hold DER.
type elem struct {
	tag      byte
	body     []byte // primitive
	kids     []*elem
	wrap     int // 1: kids live inside an OCTET STRING, 2: BIT STRING
	topLevel bool
}

func toTree(n *ref.Node) *elem {
	e := &elem{tag: n.Tag, body: n.Body}
	if n.Tag&0x20 != 0 && (len(n.Body) == 0 || n.Children != nil) {
		for _, c := range n.Children {
			e.kids = append(e.kids, toTree(c))
		}
		e.body = nil
		return e
	}
	in := n.Body
	w := 0
	if n.Tag == 4 && len(in) > 2 {
		w = 1
	} else if n.Tag == 3 && len(in) > 3 && in[0] == 0 {
		w, in = 2, in[1:]
	}
	if w > 0 && (in[0] == 0x30 || in[0] == 0x04 || in[0] == 0x03) {
		if k := ref.Parse(in, 0); k != nil {
			e.wrap = w
			for _, c := range k {
				e.kids = append(e.kids, toTree(c))
			}
		}
	}
	return e
}

func (e *elem) enc() []byte {
	if e.tag&0x20 == 0 && e.wrap == 0 {
		return ref.TLV(e.tag, e.body)
	}
	var b []byte
	if e.wrap == 2 {
		b = []byte{0}
	}
	for _, k := range e.kids {
		b = append(b, k.enc()...)
	}
	return ref.TLV(e.tag, b)
}

type slot struct {
	parent *elem
	i      int
}

func slots(e *elem, out *[]slot) {
	for i, k := range e.kids {
		*out = append(*out, slot{e, i})
		slots(k, out)
	}
}

const numTreeOps = 21

// mutate applies structural change op to slot s and returns the undo.
func mutate(s slot, op int) (undo func(), ok bool) {
	old := s.parent.kids
	undo = func() { s.parent.kids = old }
	k := append([]*elem{}, old...)
	cur := k[s.i]
	set := func(e *elem) { k[s.i] = e; s.parent.kids = k }
	switch op {
	case 0:
		s.parent.kids = append(k[:s.i], k[s.i+1:]...)
	case 1:
		s.parent.kids = append(append(append([]*elem{}, old[:s.i+1]...), cur), old[s.i+1:]...)
	case 2: // emptied
		set(&elem{tag: cur.tag})
	case 3:
		set(&elem{tag: 5})
	case 4:
		set(&elem{tag: 0x30})
	case 5:
		set(&elem{tag: 2, body: []byte{0}})
	case 6:
		set(&elem{tag: 2, body: []byte{0xff}})
	case 7: // exchanged with the next one
		if s.i+1 >= len(k) {
			return undo, false
		}
		k[s.i], k[s.i+1] = k[s.i+1], k[s.i]
		s.parent.kids = k
	case 8: // only the first child left
		if len(cur.kids) < 2 {
			return undo, false
		}
		c := *cur
		c.kids = cur.kids[:1]
		set(&c)
	case 9: // wrapped once more
		set(&elem{tag: 0x30, kids: []*elem{cur}})
	case 10: // unwrapped
		if len(cur.kids) == 0 {
			return undo, false
		}
		set(cur.kids[0])
	case 11: // huge integer or long value
		if len(cur.kids) > 0 {
			return undo, false
		}
		set(&elem{tag: cur.tag, body: bytes.Repeat([]byte{0x7f}, 300)})
	case 12: // one zero byte
		if cur.tag&0x20 != 0 {
			return undo, false
		}
		set(&elem{tag: cur.tag, body: []byte{0}})
	case 13: // context tags moved
		if cur.tag&0xc0 != 0x80 {
			return undo, false
		}
		c := *cur
		c.tag ^= 1
		set(&c)
	case 14: // BIT STRING with odd padding / string types
		if cur.tag == 3 {
			set(&elem{tag: 3, body: []byte{7, 0x80}})
		} else {
			set(&elem{tag: 0x0c, body: []byte("text")})
		}
	case 15: // nothing after this one
		if s.i+1 >= len(k) {
			return undo, false
		}
		s.parent.kids = k[:s.i+1]
	case 16: // an OID with other arcs, or an element of unknown class
		if cur.tag == 6 {
			set(&elem{tag: 6, body: []byte{0x2a, 3, 4}})
		} else {
			set(&elem{tag: 0xdf & 0xde, body: []byte{1}})
		}
	case 17, 18, 19: // a byte less at either end, a byte more
		if len(cur.kids) > 0 || cur.tag&0x20 != 0 || len(cur.body) == 0 {
			return undo, false
		}
		b := append([]byte{}, cur.body...)
		switch op {
		case 17:
			b = b[:len(b)-1]
		case 18:
			b = b[1:]
		case 19:
			b = append(b, b[len(b)-1])
		}
		set(&elem{tag: cur.tag, body: b})
	case 20: // a BMPString of three bytes
		set(&elem{tag: 0x1e, body: []byte{0, 'a', 0}})
	}
	return undo, true
}

func c23Tree(t *engine.T) {
	seeds := c23Seeds()
	si := t.Pick("seed", len(seeds))
	blk := t.Pick("block", 32)
	t.Begin()
	s := seeds[si]
	root := &elem{tag: 0x30}
	nodes := ref.Parse(s.der, 0)
	if nodes == nil || s.der[0] != 0x30 {
		return
	}
	for _, n := range nodes {
		root.kids = append(root.kids, toTree(n))
	}
	enc := func() []byte {
		var b []byte
		for _, k := range root.kids {
			b = append(b, k.enc()...)
		}
		return b
	}
	t.Check(bytes.Equal(enc(), s.der), "tree", "seed %s does not re-encode", s.name)
	var all []slot
	slots(root, &all)
	p := &parsers[s.p]
	ok, n := 0, 0
	quiet(t, func() {
		for i := blk * len(all) / 32; i < (blk+1)*len(all)/32; i++ {
			for op := 0; op < numTreeOps; op++ {
				undo, does := mutate(all[i], op)
				if does {
					d := enc()
					if !iterBomb(d) {
						n++
						t.Step(1)
						if c23Call(t, p, d, true) {
							ok++
						}
					}
					if t.Thorough() && s.cost == 0 {
						var again []slot
						slots(root, &again)
						for j := range again {
							op2 := (op*7 + j) % numTreeOps
							if u2, does2 := mutate(again[j], op2); does2 {
								if d := enc(); !iterBomb(d) {
									t.Step(1)
									c23Call(t, p, d, true)
								}
								u2()
							} else {
								u2()
							}
						}
					}
				}
				undo()
			}
		}
	})
	t.Outcome("%s block %d: %d of %d changed structures parse", s.name, blk, ok, n)
}

// c23Part is an authenticated or encrypted part of a structure: its encoding
// and how to wrap a changed one up again, with the parser for it.
func c23Part(what int) (seed []byte, build func(inner []byte) (string, []byte)) {
	k := xkeyOf(1)
	cert := handCert(1, 2, "a", "a", spkiOf(k.pub), k)
	o := p12Std("pw")
	o.iter, o.macIter = 1, 1
	id := p12Attr(ref.OIDLocalKey, ref.Oct([]byte{1, 2, 3}))
	fr := p12Attr(ref.OIDFriendly, ref.TLV(0x1e, []byte{0, 'a', 0, 'b'}))
	csp := p12Attr(ref.OID(1, 3, 6, 1, 4, 1, 311, 17, 1), ref.TLV(0x1e, []byte{0, 'c', 0, 'd'}))
	content := []byte("content")
	build = func(inner []byte) (p string, der []byte) {
		switch what {
		case 0: // certificate bag
			return "DecodeAll", p12Build(o, [][]byte{inner}, [][]byte{p12KeyBag(o, p8Of(k), id)})
		case 1: // the PKCS #8 structure
			return "DecodeAll", p12Build(o, [][]byte{p12CertBag(cert, id)}, [][]byte{p12KeyBag(o, inner)})
		case 2: // key bag
			return "DecodeAll", p12Build(o, [][]byte{p12CertBag(cert, id)}, [][]byte{inner})
		case 3: // authenticated safe: MAC over anything
			return "DecodeAll", ref.Seq(ref.Int(3), ref.Seq(ref.OIDData, ref.Ctx(0, ref.Oct(inner))), ref.Seq(ref.Seq(ref.Seq(ref.OIDSHA1, ref.Null()), ref.Oct(ref.MAC12(inner, o.macSalt, o.pw, 1))), ref.Oct(o.macSalt), ref.Int(1)))
		}
		a := ref.Parse(inner, 0)[0].Body
		return "ParsePKCS7", p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, nil, p7Info(nameCN("iss"), ref.Int(50), a, p7Sign(0, ref.TLV(0x31, a), 4)))
	}
	switch what {
	case 0:
		seed = p12CertBag(cert, id, fr, csp)
	case 1:
		seed = p8Of(k)
	case 2:
		seed = p12KeyBag(o, p8Of(k), id, fr, csp)
	case 3:
		full := p12Build(o, [][]byte{p12CertBag(cert, id)}, [][]byte{p12KeyBag(o, p8Of(k), id, fr, csp)})
		seed = ref.Parse(full, 0)[0].At(1, 1, 0).Body
	case 4:
		seed = ref.TLV(0x31, derSorted(p7Attrs(content)))
	}
	return
}

// innerBomb reports PBE parameters (a salt, then a number) with a number of
// rounds that would only take time.
func innerBomb(e *elem) bool {
	for i, k := range e.kids {
		if i == 1 && len(e.kids) == 2 && e.kids[0].tag == 4 && e.tag == 0x30 && k.tag == 2 && len(k.body) > 2 && k.body[0]&0x80 == 0 {
			return true
		}
		if innerBomb(k) {
			return true
		}
	}
	return false
}

// c23CallPart gives a changed part to the parsers concerned.
func c23CallPart(t *engine.T, what int, root *elem, build func([]byte) (string, []byte)) bool {
	if len(root.kids) != 1 || root.kids[0].tag == 5 || what < 4 && innerBomb(root) {
		return false
	}
	name, der := build(root.kids[0].enc())
	t.Step(1)
	ok := c23Call(t, &parsers[parserNo(name)], der, true)
	if what < 4 {
		c23Call(t, &parsers[parserNo("ToPEM")], der, true)
		c23Call(t, &parsers[parserNo("Decode")], der, true)
	}
	return ok
}

func c23Inside(t *engine.T) {
	what := t.Pick("part", 5)
	blk := t.Pick("block", 32)
	t.Begin()
	seed, build := c23Part(what)
	root := &elem{tag: 0x30}
	for _, n := range ref.Parse(seed, 0) {
		root.kids = append(root.kids, toTree(n))
	}
	var all []slot
	slots(root, &all)
	ok, n := 0, 0
	quiet(t, func() {
		for i := blk * len(all) / 32; i < (blk+1)*len(all)/32; i++ {
			for op := 0; op < numTreeOps; op++ {
				undo, does := mutate(all[i], op)
				if does {
					n++
					if c23CallPart(t, what, root, build) {
						ok++
					}
				}
				undo()
			}
		}
	})
	t.Outcome("part %d block %d: %d of %d parse", what, blk, ok, n)
}

var c23Tags = []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0a, 0x0c, 0x0d, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1e, 0x30, 0x31, 0x80, 0x81, 0x82, 0x86, 0x87, 0xa0}

func c23Leaves(t *engine.T) {
	seeds := c23Seeds()
	si := t.Pick("seed", len(seeds)+5)
	blk := t.Pick("block", 32)
	t.Begin()
	root := &elem{tag: 0x30}
	var call func() bool
	var der []byte
	cost := 0
	if si < len(seeds) {
		s := seeds[si]
		if der = s.der; der[0] != 0x30 {
			return
		}
		cost = s.cost
		call = func() bool {
			var b []byte
			for _, k := range root.kids {
				b = append(b, k.enc()...)
			}
			if iterBomb(b) {
				return false
			}
			t.Step(1)
			return c23Call(t, &parsers[s.p], b, true)
		}
	} else {
		seed, build := c23Part(si - len(seeds))
		der = seed
		call = func() bool { return c23CallPart(t, si-len(seeds), root, build) }
	}
	for _, n := range ref.Parse(der, 0) {
		root.kids = append(root.kids, toTree(n))
	}
	var all []slot
	slots(root, &all)
	ok, n := 0, 0
	quiet(t, func() {
		for i := blk * len(all) / 32; i < (blk+1)*len(all)/32; i++ {
			s := all[i]
			cur := s.parent.kids[s.i]
			if cur.tag&0x20 != 0 {
				continue
			}
			old := s.parent.kids
			for _, tag := range append([]byte{cur.tag}, c23Tags...) {
				for l := 0; l <= 5; l++ {
					for fill := 0; fill < 4; fill++ {
						if l == 0 && fill > 0 || tag != cur.tag && cost == 1 && !t.Thorough() && (fill > 0 || l > 3) {
							continue
						}
						b := bytes.Repeat([]byte{[]byte{0, 'A', 0xff, 0xd8}[fill]}, l)
						if fill == 1 && l > 1 && tag == 0x1e {
							b[0] = 0
						}
						k := append([]*elem{}, old...)
						k[s.i] = &elem{tag: tag, body: b}
						if tag&0x20 != 0 {
							k[s.i] = &elem{tag: tag &^ 0x20, body: b}
						}
						s.parent.kids = k
						n++
						if call() {
							ok++
						}
					}
				}
			}
			s.parent.kids = old
		}
	})
	t.Outcome("seed %d block %d: %d of %d parse", si, blk, ok, n)
}
