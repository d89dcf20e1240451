package props

import (
	"bytes"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"sort"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C13", Harnesses: []engine.Harness{
		{Name: "fields", Rule: "certificate requests differing from the plain one in at most 2 of 8 fields (60 alternatives) x 8 signer keys: parses back to exactly the template's values, crypto/x509 reads the same, signature valid by an independent verifier and by CheckSignature", Run: c13Fields, Bound: 2, Deep: 3},
		{Name: "algorithms", Rule: "8 keys x 20 algorithm values: made and accepted exactly when it fits the key", Run: c13Algorithms},
		{Name: "flips", Rule: "every single-bit change of a request (SM2, P-256, RSA, Ed25519): does not parse, or CheckSignature refuses it (unless the signed part, the algorithm and the signature are read unchanged)", Run: c13Flips},
		{Name: "swap", Rule: "requests with the signature by another key, key of another request, signature of another request: refused", Run: c13Swap},
		{Name: "hostile", Rule: "14 template fields x values that may have no encoding (address lengths, object identifiers, strings, attribute values, malformed names): an error and no bytes, or a readable request with exactly the template's values", Run: c13Hostile},
		{Name: "sizes", Rule: "7 fields of a request x counts or lengths 0..20 and around every power of two up to 128..131072: created, parses back exactly", Run: c13Sizes},
		{Name: "near", Rule: "22 identifiers that are or resemble the alternative name's (as extra extension) or the extension request's (as attribute) x 4 forms: exactly the expected extensions and attributes", Run: c13Near},
		{Name: "raw", Rule: "5 encoded names x 8 other contents of the subject field: the encoded name is used as it is", Run: c13Raw},
		{Name: "foreign", Rule: "requests made by crypto/x509 and by hand (challenge password, several attributes, no attributes): values equal crypto/x509's reading", Run: c13Foreign},
		{Name: "forged", Rule: "4 keys x 13 signatures x requests differing in at most 3 fields from the usual one: accepted only with the right signature", Run: c13Forged, Bound: 3, Deep: 3},
	}})
}

var oidExtReq = oid(1, 2, 840, 113549, 1, 9, 14)

var c13Mods = []struct {
	name string
	n    int
	f    func(c *x509.CertificateRequest, v int)
}{
	{"subject", 9, func(c *x509.CertificateRequest, v int) {
		d := &x509.Certificate{Subject: c.Subject}
		c11Mods[1].f(d, []int{0, 1, 2, 3, 4, 6, 7, 8, 12}[v])
		c.Subject, c.RawSubject = d.Subject, d.RawSubject
	}},
	{"dns", 4, func(c *x509.CertificateRequest, v int) {
		d := &x509.Certificate{}
		c11Mods[13].f(d, v)
		c.DNSNames = d.DNSNames
	}},
	{"email", 2, func(c *x509.CertificateRequest, v int) {
		d := &x509.Certificate{}
		c11Mods[14].f(d, v)
		c.EmailAddresses = d.EmailAddresses
	}},
	{"ip", 5, func(c *x509.CertificateRequest, v int) {
		d := &x509.Certificate{}
		c11Mods[15].f(d, v)
		c.IPAddresses = d.IPAddresses
	}},
	{"uri", 3, func(c *x509.CertificateRequest, v int) {
		d := &x509.Certificate{}
		c11Mods[16].f(d, v)
		c.URIs = d.URIs
	}},
	{"extra", 6, func(c *x509.CertificateRequest, v int) {
		e := func(id asn1.ObjectIdentifier, crit bool, val []byte) {
			c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: id, Critical: crit, Value: val})
		}
		switch v {
		case 0:
			e(oid(1, 2, 3, 4), false, []byte{5, 0})
		case 1:
			e(oid(1, 2, 3, 4), true, []byte("critical"))
		case 2:
			e(oid(2, 5, 29, 15), true, ref.TLV(3, []byte{7, 0x80}))
		case 3:
			e(oid(2, 5, 29, 17), false, ref.Seq(ref.TLV(0x82, []byte("override.example"))))
		case 4:
			e(oid(1, 2, 3, 4), false, nil)
			e(oid(1, 2, 3, 5), true, bytes.Repeat([]byte{1}, 300))
		case 5:
			e(oid(2, 5, 29, 19), true, ref.Seq(ref.TLV(1, []byte{0xff})))
			e(oid(2, 5, 29, 37), false, ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 3, 2)))
		}
	}},
	{"attributes", 8, func(c *x509.CertificateRequest, v int) {
		set := func(id asn1.ObjectIdentifier, l ...[]pkix.AttributeTypeAndValue) {
			c.Attributes = append(c.Attributes, pkix.AttributeTypeAndValueSET{Type: id, Value: l})
		}
		switch v {
		case 0:
			set(oid(1, 2, 3, 9), []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 3, 10), Value: []byte("v")}})
		case 1:
			set(oid(1, 2, 3, 9), []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 3, 10), Value: "printable"}, {Type: oid(1, 2, 3, 11), Value: 42}})
		case 2: // requested extensions given as an attribute
			set(oidExtReq, []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 7, 7), Value: []byte("attribute ext")}})
		case 3: // an attribute that takes priority over the names
			set(oidExtReq, []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 29, 17), Value: ref.Seq(ref.TLV(0x82, []byte("attr.example")))}})
		case 4: // two attributes
			set(oid(1, 2, 3, 9), []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 3, 10), Value: []byte("v")}})
			set(oidExtReq, []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 7, 8), Value: []byte{}}})
		case 5: // requested extensions with two values
			set(oidExtReq, []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 7, 7), Value: []byte("one")}}, []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 29, 17), Value: ref.Seq(ref.TLV(0x82, []byte("attr.example")))}})
		case 6:
			set(oidExtReq, []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 29, 17), Value: ref.Seq(ref.TLV(0x82, []byte("attr.example")))}}, []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 7, 7), Value: []byte("one")}})
		case 7: // with no value
			set(oidExtReq)
		}
	}},
}

func csrView(c *x509.CertificateRequest) []string {
	return []string{"version " + fmt.Sprint(c.Version), fmt.Sprintf("subject %x", c.RawSubject), "name " + c.Subject.String(), fmt.Sprintf("dns %q", c.DNSNames), fmt.Sprintf("mail %q", c.EmailAddresses), "ips " + ips(c.IPAddresses), "uris " + uris(c.URIs),
		"exts " + exts(c.Extensions), fmt.Sprintf("sig %x", c.Signature)}
}

func stdCSRView(c *stdx509.CertificateRequest) []string {
	return []string{"version " + fmt.Sprint(c.Version), fmt.Sprintf("subject %x", c.RawSubject), "name " + c.Subject.String(), fmt.Sprintf("dns %q", c.DNSNames), fmt.Sprintf("mail %q", c.EmailAddresses), "ips " + ips(c.IPAddresses), "uris " + uris(c.URIs),
		"exts " + exts(c.Extensions), fmt.Sprintf("sig %x", c.Signature)}
}

// swapCSRKey replaces an SM2 key by a P-256 one for crypto/x509.
func swapCSRKey(der []byte) []byte {
	n := ref.Parse(der, 0)
	if len(n) != 1 || len(n[0].Children) != 3 || n[0].At(0, 2) == nil || !bytes.Contains(n[0].At(0, 2).Raw, oidSM2Crv) {
		return der
	}
	k := kit.ECDSA(p256(), kit.B(99))
	spki, _ := stdx509.MarshalPKIXPublicKey(&k.PublicKey)
	var parts [][]byte
	for j, c := range n[0].Children[0].Children {
		if j == 2 {
			parts = append(parts, spki)
		} else {
			parts = append(parts, c.Raw)
		}
	}
	return ref.Seq(ref.Seq(parts...), n[0].Children[1].Raw, n[0].Children[2].Raw)
}

// c13Exts is the multiset of extensions the request must carry.
func c13Exts(tpl *x509.CertificateRequest) (want []string, dns, mail []string, ip, uri string) {
	san := ""
	dns, mail, ip, uri = tpl.DNSNames, tpl.EmailAddresses, ips(tpl.IPAddresses), uris(tpl.URIs)
	attrHas := map[string]bool{}
	hasAttr := false
	for _, a := range tpl.Attributes {
		if !a.Type.Equal(oidExtReq) || len(a.Value) == 0 {
			continue
		}
		hasAttr = true
		for _, s := range a.Value {
			for _, v := range s {
				attrHas[v.Type.String()] = true
				want = append(want, fmt.Sprintf("%v/false/%x", v.Type, v.Value))
				if v.Type.Equal(oid(2, 5, 29, 17)) {
					dns, mail, ip, uri = []string{"attr.example"}, nil, "", ""
					san = "attr"
				}
			}
		}
	}
	for _, e := range tpl.ExtraExtensions {
		if attrHas[e.Id.String()] {
			continue
		}
		crit := e.Critical && !hasAttr
		want = append(want, fmt.Sprintf("%v/%v/%x", e.Id, crit, e.Value))
		if e.Id.Equal(oid(2, 5, 29, 17)) {
			dns, mail, ip, uri = []string{"override.example"}, nil, "", ""
			san = "extra"
		}
	}
	if san == "" && len(tpl.DNSNames)+len(tpl.EmailAddresses)+len(tpl.IPAddresses)+len(tpl.URIs) > 0 {
		want = append(want, "SAN")
	}
	return
}

func checkCSR(t *engine.T, der []byte, tpl *x509.CertificateRequest, k xkey, alg x509.SignatureAlgorithm) *x509.CertificateRequest {
	c, err := x509.ParseCertificateRequest(der)
	t.Check(err == nil, "parse", "created request does not parse: %v: %x", err, der)
	t.Step(1)
	n := ref.Parse(der, 0)
	t.Check(len(n) == 1 && len(n[0].Children) == 3, "structure", "%x", der)
	spki := spkiOf(k.pub)
	t.Check(bytes.Equal(c.RawSubjectPublicKeyInfo, spki) && pubEqual(c.PublicKey, k.pub), "public-key", "request of %s has public key %v", k.name, c.PublicKey)
	t.Check(bytes.Equal(c.Raw, der) && bytes.Equal(c.RawTBSCertificateRequest, n[0].Children[0].Raw), "raw", "raw parts")
	t.Check(c.SignatureAlgorithm == alg, "algorithm", "algorithm %v instead of %v", c.SignatureAlgorithm, alg)
	t.Check(xverify(k.pub, alg, n[0].Children[0].Raw, n[0].Children[2].Body[1:]), "signature", "signature of the %s request is not valid: %x", k.name, der)
	t.Check(c.CheckSignature() == nil, "verify", "own request refused: %v", c.CheckSignature())
	subj := tpl.RawSubject
	if len(subj) == 0 {
		subj = nameDER(tpl.Subject)
	}
	t.Check(bytes.Equal(c.RawSubject, subj) && c.Version == 0, "subject", "subject %x instead of %x", c.RawSubject, subj)
	want, dns, mail, ip, uri := c13Exts(tpl)
	twice := false // more than one set of extensions: a reader sees one of them
	for _, a := range tpl.Attributes {
		twice = twice || a.Type.Equal(oidExtReq) && len(a.Value) > 1
	}
	t.Check(twice || fmt.Sprintf("%q %q", c.DNSNames, c.EmailAddresses) == fmt.Sprintf("%q %q", dns, mail) && ips(c.IPAddresses) == ip && uris(c.URIs) == uri, "names", "names %q %q %v %v instead of %q %q %v %v", c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs, dns, mail, ip, uri)
	san := func(e pkix.Extension) string {
		s := fmt.Sprintf("%v/%v/%x", e.Id, e.Critical, e.Value)
		if e.Id.Equal(oid(2, 5, 29, 17)) {
			for _, w := range want {
				if w == "SAN" {
					s = "SAN"
				}
			}
		}
		return s
	}
	var got, all []string
	for _, e := range c.Extensions {
		got = append(got, san(e))
	}
	for _, a := range n[0].Children[0].At(3).Children {
		if !bytes.Equal(a.Children[0].Raw, ref.OID(1, 2, 840, 113549, 1, 9, 14)) {
			continue
		}
		for _, s := range a.Children[1].Children {
			for _, x := range s.Children {
				var e pkix.Extension
				_, err := asn1.Unmarshal(x.Raw, &e)
				t.Check(err == nil, "extensions", "extension %x: %v", x.Raw, err)
				all = append(all, san(e))
			}
		}
	}
	sort.Strings(got)
	sort.Strings(all)
	sort.Strings(want)
	t.Check(fmt.Sprint(all) == fmt.Sprint(want), "extensions", "the encoding has extensions %v instead of %v", all, want)
	t.Check(twice || fmt.Sprint(got) == fmt.Sprint(want), "extensions", "extensions %v instead of %v", got, want)
	for _, a := range tpl.Attributes {
		found := false
		for _, b := range c.Attributes {
			if a.Type.Equal(oidExtReq) && b.Type.Equal(oidExtReq) || fmt.Sprint(a.Type, a.Value) == fmt.Sprint(b.Type, b.Value) {
				found = true
			}
		}
		if !a.Type.Equal(oidExtReq) || len(a.Value) > 0 {
			t.Check(found, "attributes", "attribute %v is missing from %v", a, c.Attributes)
		}
	}
	std, err := stdx509.ParseCertificateRequest(swapCSRKey(der))
	t.Check(err == nil, "std", "crypto/x509: %v: %x", err, der)
	if d := diffViews(csrView(c), stdCSRView(std)); d != "" {
		t.Fail("std", "compared with crypto/x509 it has %s: %x", d, der)
	}
	if k.sm2() == nil {
		t.Check(std.CheckSignature() == nil, "std", "crypto/x509 refuses the request: %v", std.CheckSignature())
	}
	return c
}

func csrTemplate() *x509.CertificateRequest {
	return &x509.CertificateRequest{Subject: pkix.Name{CommonName: "csr", Organization: []string{"verif"}}}
}

func c13Fields(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	tpl := csrTemplate()
	var picks []string
	for _, m := range c13Mods {
		if v := t.Choose(m.name, m.n+1); v > 0 {
			m.f(tpl, v-1)
			picks = append(picks, fmt.Sprintf("%s%d", m.name, v))
		}
	}
	t.Begin()
	k := xkeyOf(ki)
	before := fmt.Sprintf("%#v", tpl.Attributes)
	der, err := x509.CreateCertificateRequest(kit.NewRand("csr"), tpl, k.s)
	t.Check(err == nil, "create", "CreateCertificateRequest(%v): %v", picks, err)
	t.Check(fmt.Sprintf("%#v", tpl.Attributes) == before, "template-changed", "the template's attributes were changed")
	t.Step(1)
	c := checkCSR(t, der, tpl, k, k.def)
	t.State("%v %v", picks, csrView(c)[:8])
	t.Outcome("%s %v", k.name, picks)
}

func c13Algorithms(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	ai := t.Pick("algorithm", len(allSigAlgs))
	t.Begin()
	k := xkeyOf(ki)
	alg := allSigAlgs[ai]
	tpl := csrTemplate()
	tpl.SignatureAlgorithm = alg
	der, err := x509.CreateCertificateRequest(kit.NewRand("csra"), tpl, k.s)
	t.Step(1)
	fits := alg == 0
	for _, a := range k.algs {
		fits = fits || a == alg
	}
	if fits {
		t.Check(err == nil, "create", "%s with %v: %v", k.name, alg, err)
		want := alg
		if alg == 0 {
			want = k.def
		}
		checkCSR(t, der, tpl, k, want)
	} else if k.name == "RSA" && (alg == x509.MD5WithRSA || alg == x509.SHA1WithRSA) || len(k.algs) == 3 && alg == x509.ECDSAWithSHA1 {
		if err == nil {
			c, err := x509.ParseCertificateRequest(der)
			t.Check(err == nil && c.SignatureAlgorithm == alg, "algorithm", "%v", err)
			t.Check(c.CheckSignature() != nil, "insecure", "%v accepted for verification", alg)
		}
	} else {
		t.Check(err != nil && der == nil, "wrong-algorithm", "%s key signed a request with %v", k.name, alg)
	}
	// other refusals
	if ai == 0 {
		for _, p := range []any{nil, notSigner{}, k.pub} {
			_, err := x509.CreateCertificateRequest(kit.NewRand("x"), csrTemplate(), p)
			t.Check(err != nil, "refused", "%T accepted as a signer", p)
		}
		bad := csrTemplate()
		bad.DNSNames = []string{"b\u00fccher"}
		_, err := x509.CreateCertificateRequest(kit.NewRand("x"), bad, k.s)
		t.Check(err != nil, "refused", "non-ASCII DNS name accepted")
	}
	t.Outcome("%s %v made=%v", k.name, alg, err == nil)
}

func c13Make(k xkey, cn string) []byte {
	tbs := ref.Seq(ref.Int(0), nameCN(cn), spkiOf(k.pub), ref.Ctx(0, ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 14), ref.Set(ref.Seq(ref.Seq(ref.OID(2, 5, 29, 17), ref.Oct(ref.Seq(ref.TLV(0x82, []byte("a.example"))))))))))
	return ref.Seq(tbs, aiOf(k), ref.BitStr(signBytes(k, tbs, 1)))
}

func c13Flips(t *engine.T) {
	ki := t.Pick("key", 4)
	at := t.Pick("byte", 900)
	t.Begin()
	k := xkeyOf(ki)
	der := c13Make(k, "flip")
	if at >= len(der) {
		return
	}
	if at == 0 {
		c, err := x509.ParseCertificateRequest(der)
		t.Check(err == nil && c.CheckSignature() == nil, "good", "unchanged request refused: %v", err)
	}
	parsed := 0
	for b := 0; b < 8; b++ {
		m := kit.Clone(der)
		m[at] ^= 1 << b
		c, err := x509.ParseCertificateRequest(m)
		t.Step(1)
		if err != nil {
			t.Check(c == nil, "parse-error", "request with error")
			continue
		}
		parsed++
		if n := ref.Parse(der, 0)[0]; bytes.Equal(c.RawTBSCertificateRequest, n.Children[0].Raw) && bytes.Equal(c.Signature, n.Children[2].Body[1:]) && c.SignatureAlgorithm == k.def {
			continue // the parameters of the algorithm identifier are not part of what is signed
		}
		t.Check(c.CheckSignature() != nil, "flip", "%s request with bit %d of byte %d changed is accepted: %x", k.name, b, at, m)
	}
	_, err := x509.ParseCertificateRequest(der[:at])
	t.Check(err != nil, "truncated", "truncated request parses")
	t.Outcome("%s byte %d: %d of 8 parse", k.name, at, parsed)
}

func c13Swap(t *engine.T) {
	a := t.Pick("body", numXKeys)
	b := t.Pick("signer", 2*numXKeys)
	what := t.Pick("what", 3)
	t.Begin()
	ka := xkeyOf(a)
	bi := b
	if b >= numXKeys {
		bi = 100 + b - numXKeys
	}
	kb := xkeyOf(bi)
	n := ref.Parse(c13Make(ka, "body"), 0)[0]
	var der []byte
	switch what {
	case 0: // body signed by kb, its algorithm
		der = ref.Seq(n.Children[0].Raw, aiOf(kb), ref.BitStr(signBytes(kb, n.Children[0].Raw, 3)))
	case 1: // the same under ka's algorithm
		der = ref.Seq(n.Children[0].Raw, aiOf(ka), ref.BitStr(signBytes(kb, n.Children[0].Raw, 3)))
	case 2: // signature of another request by the same key
		m := ref.Parse(c13Make(ka, "other"), 0)[0]
		der = ref.Seq(n.Children[0].Raw, aiOf(kb), m.Children[2].Raw)
	}
	sig := ref.Parse(der, 0)[0].Children[2].Body[1:]
	alg := ka.def
	if what != 1 {
		alg = kb.def
	}
	want := xverify(ka.pub, alg, n.Children[0].Raw, sig)
	c, err := x509.ParseCertificateRequest(der)
	t.Step(1)
	if err == nil {
		err = c.CheckSignature()
	}
	t.Check((err == nil) == want, "swap", "%s body, %s signature, kind %d: %v, want accepted=%v", ka.name, kb.name, what, err, want)
	t.Check(!want || a == bi || ka.name == kb.name, "harness", "unexpectedly valid")
	t.Outcome("%s %s %d: %v", ka.name, kb.name, what, want)
}

func c13Foreign(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	kind := t.Pick("kind", 12)
	t.Begin()
	k := xkeyOf(ki)
	var der []byte
	if kind < 5 {
		if k.sm2() != nil {
			return
		}
		tpl := &stdx509.CertificateRequest{Subject: pkix.Name{CommonName: "std"}}
		switch kind {
		case 1:
			tpl.DNSNames, tpl.EmailAddresses = []string{"a.b"}, []string{"x@y"}
		case 2:
			tpl.IPAddresses, tpl.URIs = append(tpl.IPAddresses, []byte{1, 2, 3, 4}), urls("urn:x", "https://h/")
		case 3:
			tpl.ExtraExtensions = []pkix.Extension{{Id: oid(2, 5, 29, 15), Critical: true, Value: ref.TLV(3, []byte{7, 0x80})}}
		case 4:
			tpl.Subject = pkix.Name{Country: []string{"CN"}, CommonName: "中"}
		}
		var err error
		der, err = stdx509.CreateCertificateRequest(kit.NewRand("std"), tpl, k.s)
		t.Check(err == nil, "harness", "%v", err)
	} else {
		chal := ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 7), ref.Set(ref.TLV(0x13, []byte("secret"))))
		uname := ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 2), ref.Set(ref.TLV(0x0c, []byte("name"))))
		san := ref.Seq(ref.OID(2, 5, 29, 17), ref.Oct(ref.Seq(ref.TLV(0x82, []byte("a.example")))))
		ku := ref.Seq(ref.OID(2, 5, 29, 15), ref.TLV(1, []byte{0xff}), ref.Oct(ref.TLV(3, []byte{7, 0x80})))
		req := func(l ...[]byte) []byte {
			return ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 14), ref.Set(ref.Seq(l...)))
		}
		attrs := ref.Ctx(0)
		switch kind {
		case 6:
			attrs = ref.Ctx(0, chal)
		case 7:
			attrs = ref.Ctx(0, chal, uname, req(ku, san))
		case 8:
			attrs = ref.Ctx(0, req(san), chal)
		case 9:
			attrs = ref.Ctx(0, req(ku), req(san))
		case 10:
			attrs = ref.Ctx(0, ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 14), ref.Set()))
		case 11:
			attrs = ref.Ctx(0, req(san, ku))
		}
		tbs := ref.Seq(ref.Int(0), nameCN("hand"), spkiOf(k.pub), attrs)
		der = ref.Seq(tbs, aiOf(k), ref.BitStr(signBytes(k, tbs, int64(kind))))
	}
	std, err := stdx509.ParseCertificateRequest(swapCSRKey(der))
	c, err2 := x509.ParseCertificateRequest(der)
	t.Step(1)
	t.Check((err == nil) == (err2 == nil), "parse", "request kind %d: %v, crypto/x509 %v: %x", kind, err2, err, der)
	if err == nil {
		if d := diffViews(csrView(c), stdCSRView(std)); d != "" {
			t.Fail("std", "compared with crypto/x509 it has %s: %x", d, der)
		}
		t.Check(c.CheckSignature() == nil, "verify", "request by other software refused: %v", c.CheckSignature())
		t.Check(pubEqual(c.PublicKey, k.pub), "public-key", "%v", c.PublicKey)
	}
	_, err = x509.ParseCertificateRequest(append(kit.Clone(der), 0))
	t.Check(err != nil, "trailing", "trailing data accepted")
	t.Outcome("%s kind %d: %v", k.name, kind, err2 == nil)
}
