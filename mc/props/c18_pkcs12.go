package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"strings"
	"unicode/utf16"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C18", Harnesses: []engine.Harness{
		{Name: "encode", Rule: "12 keys of 8 types x 0-3 CA certificates x 40 passwords: the file opens with an independent decoder and every Decode function returns the same key and certificates in order", Run: c18Encode},
		{Name: "chains", Rule: "every list of up to 3 CA certificates out of 6 (same name and other key, same key and other serial, the leaf itself, SM2) x 3 leaf keys: all come back, each as often as given, in order", Run: c18Chains},
		{Name: "foreign", Rule: "files made without the code: order of safes and bags, PBE per part, certificates in clear, iteration counts, salt lengths 0..130, attributes, 1-4 certificates x 4 key types", Run: c18Foreign},
		{Name: "attributes", Rule: "every friendly name out of 21 (first and last units of every kind, with and without terminators, non-BMP) and CSP name out of 5 x 5 local key ids x on the certificate, the key or both, in every order of the attributes: ToPEM gives exactly these headers, Decode and DecodeAll the contents", Run: c18Attributes},
		{Name: "big", Rule: "up to 300 (1025) certificates, certificates up to 2^17 bytes, passwords and names up to 2^13 characters, identifiers up to 2^15 bytes, at all sizes around powers of two and ten x 2 keys: everything comes back", Run: c18Big},
		{Name: "bags", Rule: "every sequence of up to 4 bags out of 5 kinds: Decode, DecodeAll and ToPEM succeed exactly when their documented conditions hold, with exactly those contents", Run: c18Bags},
		{Name: "refused", Rule: "passwords that cannot be encoded, keys of other types: an error and no output from every function", Run: c18Refused},
		{Name: "salts", Rule: "12 random streams x 3 keys: all salts of a file are fresh bytes of the random source", Run: c18Salts},
	}})
}

func c18Passwords() []string {
	p := []string{"", "a", "1234", "密码", "é", "\u0100\u00ff", "\uffff", "\ud7ff\ue000", " lead", "trail ", "a b", "\u0001", "\x7f", "Ω≈ç√", "\uffffpw\u0100"}
	for n := 28; n <= 34; n++ {
		p = append(p, strings.Repeat("x", n-1)+"y")
	}
	for _, n := range []int{62, 63, 64, 65, 95, 96, 127, 128, 200, 1000} {
		p = append(p, string(bytes.Repeat([]byte("0123456789"), 100)[:n]))
	}
	return append(p, "password", "Password", "PASSWORD", strings.Repeat("密", 31), strings.Repeat("码", 32), "12345678", "pass\tword", "pass\nword")
}

var c18Keys = []int{0, 7, 100, 1, 2, 5, 102, 4, 6, 3, 101, 103}

// c18PEM checks the blocks of ToPEM. ids: local key ids (nil: none).
func c18PEMBlock(t *engine.T, b *pem.Block, cert []byte, k *xkey, id []byte) {
	want := map[string]string{}
	if id != nil {
		want["localKeyId"] = hex.EncodeToString(id)
	}
	for h, v := range b.Headers {
		t.Check(h == "localKeyId" && v == want[h], "pem-header", "header %q: %q", h, v)
	}
	t.Check(len(b.Headers) == len(want), "pem-header", "headers %v, want %v", b.Headers, want)
	if cert != nil {
		t.Check(b.Type == "CERTIFICATE" && bytes.Equal(b.Bytes, cert), "pem-cert", "block %q %x", b.Type, b.Bytes)
		return
	}
	t.Check(b.Type == "PRIVATE KEY", "pem-key", "block type %q", b.Type)
	switch p := k.s.(type) {
	case *rsa.PrivateKey:
		t.Check(bytes.Equal(b.Bytes, stdx509.MarshalPKCS1PrivateKey(p)), "pem-key", "RSA key block %x", b.Bytes)
	case *ecdsa.PrivateKey:
		w, _ := stdx509.MarshalECPrivateKey(p)
		t.Check(bytes.Equal(b.Bytes, w), "pem-key", "EC key block %x", b.Bytes)
	}
}

func pemKey(k xkey) bool {
	switch k.s.(type) {
	case *rsa.PrivateKey, *ecdsa.PrivateKey:
		return true
	}
	return false
}

func c18Encode(t *engine.T) {
	ki := t.Pick("key", len(c18Keys))
	ncas := t.Pick("cas", 4)
	pws := c18Passwords()
	pi := t.Pick("password", len(pws))
	t.Begin()
	if ki > 4 && pi%5 != ki%5 && !t.Thorough() {
		return
	}
	k := xkeyOf(c18Keys[ki])
	leaf := p12Leaf(t, c18Keys[ki], 1)
	var cas []*stdx509.Certificate
	want := [][]byte{leaf.Raw}
	for i := 0; i < ncas; i++ {
		c, err := stdx509.ParseCertificate(p12Leaf(t, []int{1, 2, 101}[i], 2+i).Raw)
		t.Check(err == nil, "setup", "%v", err)
		cas = append(cas, c)
		want = append(want, c.Raw)
	}
	pw := pws[pi]
	var der []byte
	var err error
	raw := kit.Clone(leaf.Raw)
	withRand(kit.NewRand(fmt.Sprint("c18", ki, ncas, pi)), func() { der, err = pkcs12.Encode(p12Priv(k), leaf, cas, pw) })
	t.Check(err == nil, "encode", "Encode: %v", err)
	t.Check(bytes.Equal(raw, leaf.Raw), "input", "certificate changed")
	o, err := p12Open(der, ref.BMP(pw))
	t.Check(err == nil, "interop", "independent decoder: %v (%x)", err, der)
	t.Check(len(o.keys) == 1 && bytes.Equal(o.keys[0], p8Of(k)) || len(o.keys) == 1 && c18Semantic(k, o.keys[0]), "interop-key", "key inside is %x", o.keys)
	t.Check(len(o.certs) == len(want) && o.certsEnc, "interop-certs", "%d certificates, encrypted %v", len(o.certs), o.certsEnc)
	for i := range want {
		t.Check(bytes.Equal(o.certs[i], want[i]), "interop-certs", "certificate %d differs", i)
		if i == 0 {
			t.Check(bytes.Equal(o.certIDs[0], fingerprint(leaf.Raw)), "localKeyId", "certificate's id %x", o.certIDs[0])
		} else {
			t.Check(o.certIDs[i] == nil, "localKeyId", "CA certificate has id %x", o.certIDs[i])
		}
	}
	t.Check(bytes.Equal(o.keyIDs[0], fingerprint(leaf.Raw)), "localKeyId", "key's id %x", o.keyIDs[0])
	c18Read(t, der, pw, k, want, fingerprint(leaf.Raw), true)
	t.State("%d %d %d", ki, ncas, pi)
}

// c18CA makes certificates that share names, keys or serial numbers.
func c18CA(i int) []byte {
	switch i {
	case 0:
		return handCert(70, 2, "ca", "ca", spkiOf(xkeyOf(1).pub), xkeyOf(1), extBC(true), extKU(0x60))
	case 1: // same name and serial number, another key
		return handCert(70, 2, "ca", "ca", spkiOf(xkeyOf(2).pub), xkeyOf(2), extBC(true), extKU(0x60))
	case 2: // same name and key, another serial number
		return handCert(71, 2, "ca", "ca", spkiOf(xkeyOf(1).pub), xkeyOf(1), extBC(true), extKU(0x60))
	case 3: // same key, other names
		return handCert(70, 2, "root", "ca 2", spkiOf(xkeyOf(1).pub), xkeyOf(1), extBC(true), extKU(0x60))
	case 4:
		return handCert(72, 2, "sm2 ca", "sm2 ca", spkiOf(xkeyOf(0).pub), xkeyOf(0), extBC(true), extKU(0x60))
	}
	return nil
}

// c18Std is the crypto/x509 form of a certificate. That package refuses SM2
// keys; such a certificate is put together from its parts.
func c18Std(t *engine.T, der []byte) *stdx509.Certificate {
	if c, err := stdx509.ParseCertificate(der); err == nil {
		return c
	}
	c, err := x509.ParseCertificate(der)
	t.Check(err == nil, "setup", "%v", err)
	return &stdx509.Certificate{Raw: c.Raw, RawSubject: c.RawSubject, RawIssuer: c.RawIssuer, Subject: c.Subject, Issuer: c.Issuer, SerialNumber: c.SerialNumber, Version: c.Version, Signature: c.Signature,
		RawTBSCertificate: c.RawTBSCertificate, RawSubjectPublicKeyInfo: c.RawSubjectPublicKeyInfo, PublicKey: c.PublicKey, NotBefore: c.NotBefore, NotAfter: c.NotAfter,
		KeyUsage: stdx509.KeyUsage(c.KeyUsage), Extensions: c.Extensions, SubjectKeyId: c.SubjectKeyId, IsCA: c.IsCA, BasicConstraintsValid: c.BasicConstraintsValid}
}

func c18Chains(t *engine.T) {
	ki := []int{0, 1, 2}[t.Pick("key", 3)]
	n := t.Pick("cas", 4)
	var sel []int
	for i := 0; i < n; i++ {
		sel = append(sel, t.Pick("ca", 6))
	}
	fresh := t.Pick("objects", 2) == 1
	t.Begin()
	var obj [6]*stdx509.Certificate
	k := xkeyOf(ki)
	leaf := p12Leaf(t, ki, 1)
	want := [][]byte{leaf.Raw}
	var cas []*stdx509.Certificate
	for _, s := range sel {
		der := c18CA(s)
		if der == nil {
			der = leaf.Raw
		}
		if obj[s] == nil || fresh {
			obj[s] = c18Std(t, der)
		}
		cas = append(cas, obj[s]) // a repeated certificate may be the same object
		want = append(want, obj[s].Raw)
	}
	var der []byte
	var err error
	withRand(kit.NewRand(fmt.Sprint("c18chain", ki, sel)), func() { der, err = pkcs12.Encode(p12Priv(k), leaf, cas, "pw") })
	t.Check(err == nil, "encode", "Encode: %v", err)
	o, err := p12Open(der, ref.BMP("pw"))
	t.Check(err == nil && len(o.certs) == len(want), "interop", "CA list %v: independent decoder: %v", sel, err)
	for i := range want {
		t.Check(bytes.Equal(o.certs[i], want[i]), "interop-certs", "CA list %v: certificate %d differs", sel, i)
	}
	c18Read(t, der, "pw", k, want, fingerprint(leaf.Raw), true)
	// the same list in a file made elsewhere
	po := p12Std("pw")
	var cb [][]byte
	for _, c := range want {
		cb = append(cb, p12CertBag(c))
	}
	c18Read(t, p12Build(po, cb, [][]byte{p12KeyBag(po, p8Of(k))}), "pw", k, want, nil, true)
	t.State("%d %v", ki, sel)
}

func c18Semantic(k xkey, p8 []byte) bool {
	got, err := x509.ParsePKCS8PrivateKey(p8)
	return err == nil && privEqual(got, p12Priv(k))
}

// c18Read decodes a file with one key and these certificates.
func c18Read(t *engine.T, der []byte, pw string, k xkey, want [][]byte, id []byte, pemOrder bool) {
	in := kit.Clone(der)
	key, certs, err := pkcs12.DecodeAll(in, pw)
	t.Check(err == nil, "decodeall", "DecodeAll: %v", err)
	t.Check(privEqual(key, p12Priv(k)), "decodeall-key", "DecodeAll key %T", key)
	t.Check(len(certs) == len(want), "decodeall-certs", "DecodeAll gives %d certificates of %d", len(certs), len(want))
	for i := range want {
		t.Check(bytes.Equal(certs[i].Raw, want[i]), "decodeall-certs", "certificate %d differs", i)
	}
	sm2Cert := false
	for _, c := range want {
		sm2Cert = sm2Cert || bytes.Contains(c, oidSM2Crv)
	}
	key, cert, err := pkcs12.Decode(in, pw)
	switch {
	case len(want) != 1:
		t.Check(err != nil && key == nil && cert == nil, "decode", "Decode of %d certificates: %v", len(want), err)
	case sm2Cert: // Decode returns crypto/x509 certificates, which cannot hold SM2 keys
		if err == nil {
			t.Check(privEqual(key, p12Priv(k)) && cert != nil && bytes.Equal(cert.Raw, want[0]), "decode", "Decode returns something else")
		}
	default:
		t.Check(err == nil && privEqual(key, p12Priv(k)) && bytes.Equal(cert.Raw, want[0]), "decode", "Decode: %v", err)
	}
	blocks, err := pkcs12.ToPEM(in, pw)
	if pemKey(k) {
		t.Check(err == nil && len(blocks) == len(want)+1, "topem", "ToPEM: %d blocks, %v", len(blocks), err)
		n, nk := 0, 0
		for _, b := range blocks {
			if b.Type == "CERTIFICATE" && n < len(want) {
				i := id
				if n > 0 {
					i = nil
				}
				if id == nil {
					i = nil
				}
				c18PEMBlock(t, b, want[n], nil, i)
				n++
			} else {
				c18PEMBlock(t, b, nil, &k, id)
				nk++
			}
		}
		t.Check(nk == 1, "topem", "%d key blocks", nk)
		if pemOrder {
			t.Check(blocks[len(blocks)-1].Type == "PRIVATE KEY", "topem", "order of blocks")
		}
	}
	t.Check(bytes.Equal(in, der), "input", "the file was changed")
	t.Step(4)
}

func c18Foreign(t *engine.T) {
	dim := t.Pick("dimension", 6)
	v := t.Pick("value", 131)
	ki := t.Pick("key", 4)
	t.Begin()
	o := p12Std("pässword")
	pw := "pässword"
	keyID := []int{0, 1, 2, 7}[ki]
	k := xkeyOf(keyID)
	certs := [][]byte{p12Leaf(t, keyID, 1).Raw}
	var attrs [][]byte
	var id []byte
	switch dim {
	case 0: // salt lengths
		o.salt, o.macSalt = kit.Stream("salt", v), kit.Stream("macsalt", v)
	case 1: // iterations
		if v >= 9 {
			return
		}
		o.iter = []int{1, 2, 5, 100, 1000, 1024, 2000, 2048, 4096}[v]
		o.macIter = []int{4096, 1, 2048, 3, 1, 1024, 5, 2, 1}[v]
	case 2: // layout
		if v >= 32 {
			return
		}
		o.keyFirst = v&1 != 0
		o.certOID = [][]byte{ref.OIDPBERC240, ref.OIDPBE3DES, nil, nil}[v>>1&3]
		o.keyOID = [][]byte{ref.OIDPBE3DES, ref.OIDPBERC240}[v>>3&1]
		if v>>4&1 == 1 {
			o.noIter, o.macIter = true, 1
		}
	case 3: // number of certificates
		if v >= 4 {
			return
		}
		for i := 0; i < v; i++ {
			certs = append(certs, p12Leaf(t, []int{1, 2, 101}[i], 2+i).Raw)
		}
	case 4: // attributes
		if v >= 6 {
			return
		}
		id = [][]byte{{}, {1}, kit.Stream("id", 20), kit.Stream("id", 64), {0}, {0xff, 0}}[v]
		attrs = [][]byte{p12Attr(ref.OIDLocalKey, ref.Oct(id))}
	case 5: // passwords
		pws := c18Passwords()
		if v >= len(pws) {
			return
		}
		pw = pws[v]
		o.pw = ref.BMP(pw)
	}
	var cb [][]byte
	for i, c := range certs {
		if i == 0 {
			cb = append(cb, p12CertBag(c, attrs...))
		} else {
			cb = append(cb, p12CertBag(c))
		}
	}
	der := p12Build(o, cb, [][]byte{p12KeyBag(o, p8Of(k), attrs...)})
	c18Read(t, der, pw, k, certs, id, false)
	if dim == 5 && pw == "" {
		// some software derives from no bytes at all for the empty password
		o.pw = nil
		c18Read(t, p12Build(o, cb, [][]byte{p12KeyBag(o, p8Of(k), attrs...)}), "", k, certs, id, false)
	}
	t.State("%d %d %d", dim, v, ki)
}

func c18Bags(t *engine.T) {
	n := t.Pick("bags", 5)
	var kinds []int
	for i := 0; i < n; i++ {
		kinds = append(kinds, t.Pick("kind", 5)) // cert A, cert B, key, another key, unknown bag
	}
	split := t.Pick("split", 2)
	t.Begin()
	o := p12Std("pw")
	k, k2 := xkeyOf(1), xkeyOf(2)
	ca, cb := p12Leaf(t, 1, 1), p12Leaf(t, 2, 3)
	var parts [2][][]byte
	var certs [][]byte
	var keys []xkey
	unknown := 0
	at := 0
	if split == 1 {
		at = n / 2
	} else {
		at = n
	}
	for i, kd := range kinds {
		p := &parts[0]
		if i >= at {
			p = &parts[1]
		}
		switch kd {
		case 0:
			*p, certs = append(*p, p12CertBag(ca.Raw)), append(certs, ca.Raw)
		case 1:
			*p, certs = append(*p, p12CertBag(cb.Raw)), append(certs, cb.Raw)
		case 2:
			*p, keys = append(*p, p12KeyBag(o, p8Of(k))), append(keys, k)
		case 3:
			*p, keys = append(*p, p12KeyBag(o, p8Of(k2))), append(keys, k2)
		case 4:
			*p = append(*p, ref.Seq(ref.OID(1, 2, 840, 113549, 1, 12, 10, 1, 5), ref.Ctx(0, ref.Seq(ref.OID(1, 2, 3), ref.Ctx(0, ref.Oct([]byte("secret")))))))
			unknown++
		}
	}
	der := p12Build(o, parts[0], parts[1])
	key, all, err := pkcs12.DecodeAll(der, "pw")
	if len(keys) == 1 && len(certs) > 0 {
		if unknown == 0 || err == nil {
			t.Check(err == nil && privEqual(key, p12Priv(keys[0])) && len(all) == len(certs), "decodeall", "bags %v: %v, %d certificates", kinds, err, len(all))
			for i := range certs {
				t.Check(bytes.Equal(all[i].Raw, certs[i]), "decodeall", "bags %v: certificate %d differs", kinds, i)
			}
		}
	} else {
		t.Check(err != nil, "decodeall-accepts", "bags %v accepted by DecodeAll", kinds)
	}
	t.Check(err == nil || key == nil && all == nil, "partial", "bags %v: DecodeAll returns a result with the error %v", kinds, err)
	key, one, err := pkcs12.Decode(der, "pw")
	if len(keys) == 1 && len(certs) == 1 {
		if unknown == 0 || err == nil {
			t.Check(err == nil && privEqual(key, p12Priv(keys[0])) && bytes.Equal(one.Raw, certs[0]), "decode", "bags %v: %v", kinds, err)
		}
	} else {
		t.Check(err != nil, "decode-accepts", "bags %v accepted by Decode", kinds)
	}
	t.Check(err == nil || key == nil && one == nil, "partial", "bags %v: Decode returns a result with the error %v", kinds, err)
	blocks, err := pkcs12.ToPEM(der, "pw")
	if unknown == 0 {
		t.Check(err == nil && len(blocks) == n, "topem", "bags %v: ToPEM %d blocks, %v", kinds, len(blocks), err)
		for i, kd := range kinds {
			switch kd {
			case 0:
				c18PEMBlock(t, blocks[i], ca.Raw, nil, nil)
			case 1:
				c18PEMBlock(t, blocks[i], cb.Raw, nil, nil)
			case 2:
				c18PEMBlock(t, blocks[i], nil, &k, nil)
			case 3:
				c18PEMBlock(t, blocks[i], nil, &k2, nil)
			}
		}
	} else {
		t.Check(err != nil, "topem-accepts", "bags %v: ToPEM dropped a bag", kinds)
	}
	t.Check(err == nil || blocks == nil, "partial", "ToPEM returns blocks with the error %v", err)
	t.Step(3)
	t.State("%v %d", kinds, split)
}

func c18Refused(t *engine.T) {
	i := t.Pick("case", 40)
	t.Begin()
	leaf := p12Leaf(t, 0, 1)
	k := xkeyOf(0)
	bad := []string{"\U0001F600", "pw\U0001F600", "\U00010000", "\U0010FFFF", "a\U00010000b"}
	if i < len(bad) {
		der, err := pkcs12.Encode(p12Priv(k), leaf, nil, bad[i])
		t.Check(err != nil && len(der) == 0, "password", "Encode accepted a password outside the BMP")
		good := p12Build(p12Std("x"), [][]byte{p12CertBag(leaf.Raw)}, [][]byte{p12KeyBag(p12Std("x"), p8Of(k))})
		key, certs, err := pkcs12.DecodeAll(good, bad[i])
		t.Check(err != nil && key == nil && certs == nil, "password", "DecodeAll: %v", err)
		key, cert, err := pkcs12.Decode(good, bad[i])
		t.Check(err != nil && key == nil && cert == nil, "password", "Decode: %v", err)
		bl, err := pkcs12.ToPEM(good, bad[i])
		t.Check(err != nil && bl == nil, "password", "ToPEM: %v", err)
		t.Step(4)
		t.State("password %d", i)
		return
	}
	i -= len(bad)
	sk := k.sm2()
	keys := []any{nil, "key", 7, sk.PublicKey, &sk.PublicKey, *sk, sk.D, &kit.Signer{Key: sk}, []byte{1, 2}, (*int)(nil), xkeyOf(1).pub, xkeyOf(2).pub, xkeyOf(3).pub}
	if i < len(keys) {
		var der []byte
		var err error
		withRand(kit.NewRand("r"), func() { der, err = pkcs12.Encode(keys[i], leaf, nil, "pw") })
		if _, byValue := keys[i].(sm2.PrivateKey); byValue && err == nil {
			o, e := p12Open(der, ref.BMP("pw"))
			t.Check(e == nil && len(o.keys) == 1 && c18Semantic(k, o.keys[0]), "keytype", "key by value encoded wrongly")
		} else {
			t.Check(err != nil && len(der) == 0, "keytype", "Encode accepted a %T", keys[i])
		}
		t.Step(1)
		t.State("key %d", i)
	}
}

func c18Salts(t *engine.T) {
	s := t.Pick("stream", 12)
	ki := t.Pick("key", 3)
	t.Begin()
	k := xkeyOf(ki)
	leaf := p12Leaf(t, ki, 1)
	seen := map[string]string{}
	for rep := 0; rep < 3; rep++ {
		var der []byte
		var err error
		var c *kit.Counting
		// the first bytes are s-dependent, the rest too; repetition 2 repeats stream 1
		c = &kit.Counting{R: kit.NewRand(fmt.Sprint("salts", s, min(rep, 1)))}
		withRand(c, func() { der, err = pkcs12.Encode(p12Priv(k), leaf, nil, "pw") })
		t.Check(err == nil, "encode", "%v", err)
		o, err := p12Open(der, ref.BMP("pw"))
		t.Check(err == nil, "open", "%v", err)
		t.Check(len(o.salts) == 3, "salts", "%d salts", len(o.salts))
		t.Check(c.Bytes >= 24, "randomness", "only %d random bytes used for three salts", c.Bytes)
		if rep == 2 {
			break
		}
		for i, x := range o.salts {
			t.Check(len(x) >= 8, "salts", "salt of %d bytes", len(x))
			at := fmt.Sprintf("file %d salt %d", rep, i)
			t.Check(seen[string(x)] == "", "reuse", "%s equals %s", at, seen[string(x)])
			seen[string(x)] = at
		}
		t.Step(1)
	}
	t.State("%d %d", s, ki)
}

// c18Attributes: what ToPEM makes of the attributes of a bag.
func c18Attributes(t *engine.T) {
	type name struct {
		units []uint16
		want  string
	}
	names := []name{
		{nil, ""}, {[]uint16{0}, ""}, {[]uint16{'a'}, "a"}, {[]uint16{'a', 0}, "a"}, {[]uint16{'a', 0, 0}, "a\x00"}, {[]uint16{0, 'a'}, "\x00a"},
		{[]uint16{'a', 1}, "a\x01"}, {[]uint16{1}, "\x01"}, {[]uint16{'a', 0x100}, "a\u0100"}, {[]uint16{0x100}, "\u0100"}, {[]uint16{0x100, 0}, "\u0100"}, {[]uint16{0x101, 0x100}, "\u0101\u0100"},
		{[]uint16{'a', 0, 'b'}, "a\x00b"}, {[]uint16{0x5bc6, 0x7801}, "密码"}, {[]uint16{0x5bc6, 0x7801, 0}, "密码"}, {[]uint16{0xd83d, 0xde00}, "\U0001f600"}, {[]uint16{'x', 0xd83d, 0xde00, 0}, "x\U0001f600"},
		{[]uint16{0xfffd}, "\ufffd"}, {[]uint16{0xffff}, "\uffff"}, {[]uint16{0xff00}, "\uff00"}, {[]uint16{' ', '=', '\'', 0xe9}, " ='é"},
	}
	for n := 10; n < 200; n += 39 {
		var u []uint16
		for i := 0; i < n; i++ {
			u = append(u, uint16('a'+i%26))
		}
		names = append(names, name{u, string(utf16.Decode(u))})
	}
	csps := []int{-1, 2, 3, 13, 9}
	ids := [][]byte{nil, {}, {1, 2, 3}, {0}, bytes.Repeat([]byte{0xab}, 20)}
	fi := t.Pick("friendly", len(names)+1) - 1
	ci := csps[t.Pick("csp", len(csps))]
	id := ids[t.Pick("id", len(ids))]
	where := t.Pick("where", 3)
	t.Begin()
	bmp := func(u []uint16) []byte {
		b := []byte{}
		for _, x := range u {
			b = append(b, byte(x>>8), byte(x))
		}
		return ref.TLV(0x1e, b)
	}
	var attrs [][]byte
	want := map[string]string{}
	if fi >= 0 {
		attrs = append(attrs, p12Attr(ref.OIDFriendly, bmp(names[fi].units)))
		want["friendlyName"] = names[fi].want
	}
	if ci >= 0 {
		attrs = append(attrs, p12Attr(ref.OID(1, 3, 6, 1, 4, 1, 311, 17, 1), bmp(names[ci].units)))
		want["Microsoft CSP Name"] = names[ci].want
	}
	if id != nil {
		attrs = append(attrs, p12Attr(ref.OIDLocalKey, ref.Oct(id)))
		want["localKeyId"] = hex.EncodeToString(id)
	}
	k := xkeyOf(1)
	o := p12Std("pw")
	o.iter, o.macIter = 1, 1
	cert := p12Leaf(t, 1, 1)
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, pm := range perms {
		var l [][]byte
		for _, i := range pm {
			if i < len(attrs) {
				l = append(l, attrs[i])
			}
		}
		var ca, ka [][]byte
		wc, wk := map[string]string{}, map[string]string{}
		if where != 1 {
			ca, wc = l, want
		}
		if where != 0 {
			ka, wk = l, want
		}
		der := p12Build(o, [][]byte{p12CertBag(cert.Raw, ca...)}, [][]byte{p12KeyBag(o, p8Of(k), ka...)})
		blocks, err := pkcs12.ToPEM(der, "pw")
		t.Check(err == nil && len(blocks) == 2, "topem", "attributes %x: ToPEM: %d blocks, %v", l, len(blocks), err)
		for i, w := range []map[string]string{wc, wk} {
			t.Check(len(blocks[i].Headers) == len(w), "pem-header", "attributes %x: headers %q, want %q", l, blocks[i].Headers, w)
			for h, v := range w {
				g, ok := blocks[i].Headers[h]
				t.Check(ok && g == v, "pem-header", "attributes %x: headers %q, want %q", l, blocks[i].Headers, w)
			}
		}
		t.Check(blocks[0].Type == "CERTIFICATE" && bytes.Equal(blocks[0].Bytes, cert.Raw) && blocks[1].Type == "PRIVATE KEY" && len(blocks[1].Bytes) > 0, "topem", "attributes %x: contents", l)
		key, c, err := pkcs12.Decode(der, "pw")
		t.Check(err == nil && privEqual(key, p12Priv(k)) && bytes.Equal(c.Raw, cert.Raw), "decode", "attributes %x: Decode: %v", l, err)
		key, all, err := pkcs12.DecodeAll(der, "pw")
		t.Check(err == nil && privEqual(key, p12Priv(k)) && len(all) == 1 && bytes.Equal(all[0].Raw, cert.Raw), "decodeall", "attributes %x: DecodeAll: %v", l, err)
		t.Step(3)
	}
	t.State("%d %d %x %d", fi, ci, id, where)
}
