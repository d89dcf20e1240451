package props

import (
	"bytes"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C14", Harnesses: []engine.Harness{
		{Name: "fields", Rule: "revocation lists and CRLs differing from the plain one in at most 2 of 8 fields (60 alternatives) x 8 signer keys x 2 creation functions: parses back (DER and PEM) to exactly the given content, crypto/x509 reads the same, signature valid by an independent verifier and by the issuer's CheckCRLSignature", Run: c14Fields, Bound: 2, Deep: 3},
		{Name: "algorithms", Rule: "8 keys x 20 algorithm values: made and accepted exactly when it fits the key", Run: c14Algorithms},
		{Name: "refused", Rule: "all 512 issuer key usages, missing key identifier, number, template or issuer, reversed dates: revocation list made only by an issuer with the CRL sign bit and complete arguments", Run: c14Refused},
		{Name: "hostile", Rule: "11 template fields x values that may have no encoding (years from -5000 to 10000, serials, object identifiers, malformed names): an error and no bytes, or a readable list with exactly the template's values", Run: c14Hostile},
		{Name: "sizes", Rule: "9 fields of a list x counts, lengths or values 0..20 and around every power of two up to 64..131072 (4096 entries) x both functions: created, parses back exactly", Run: c14Sizes},
		{Name: "flips", Rule: "every single-bit change of a revocation list (SM2, P-256, RSA, Ed25519), every truncation: does not parse, or is refused", Run: c14Flips},
		{Name: "issuer", Rule: "8 signer keys x 16 checking keys x signature by another list: accepted only from the signer's key", Run: c14Issuer},
		{Name: "pem", Rule: "PEM forms: right type, other types, trailing and leading data, broken armour, DER that looks like PEM: same list as DER, or an error", Run: c14PEM},
		{Name: "forged", Rule: "4 keys x 13 signatures x lists differing in at most 2 (3) of 5 fields from the usual one: accepted only with the right signature", Run: c14Forged, Bound: 2, Deep: 3},
	}})
}

type crlSpec struct {
	issuer   *x509.Certificate
	this     time.Time
	next     time.Time
	revoked  []pkix.RevokedCertificate
	number   *big.Int
	extra    []pkix.Extension
	wantSubj []byte
}

var c14Mods = []struct {
	name string
	n    int
	f    func(s *crlSpec, v int)
}{
	{"issuerName", 8, func(s *crlSpec, v int) {
		c11Mods[1].f(s.issuer, []int{0, 1, 2, 3, 4, 5, 8, 12}[v])
	}},
	{"ski", 3, func(s *crlSpec, v int) {
		s.issuer.SubjectKeyId = [][]byte{{0}, kit.Stream("ski", 20), kit.Stream("ski", 200)}[v]
	}},
	{"this", 4, func(s *crlSpec, v int) {
		s.this = []time.Time{time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2000, 2, 29, 12, 0, 0, 987654321, time.UTC), time.Date(2020, 1, 1, 3, 0, 0, 0, time.FixedZone("E", 8*3600)), time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("W", -3600))}[v]
	}},
	{"next", 5, func(s *crlSpec, v int) {
		s.next = []time.Time{time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 7, 59, 59, 0, time.FixedZone("E", 8*3600)), time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC)}[v]
	}},
	{"revoked", 9, func(s *crlSpec, v int) {
		rc := func(n *big.Int, at time.Time, e ...pkix.Extension) {
			s.revoked = append(s.revoked, pkix.RevokedCertificate{SerialNumber: n, RevocationTime: at, Extensions: e})
		}
		reason := pkix.Extension{Id: oid(2, 5, 29, 21), Value: ref.TLV(10, []byte{1})}
		s.revoked = []pkix.RevokedCertificate{}
		switch v {
		case 0:
		case 1:
			rc(kit.B(1), t2020)
		case 2:
			rc(kit.B(128), t2020)
			rc(kit.B(127), t2040)
		case 3:
			rc(new(big.Int).Sub(new(big.Int).Lsh(ref.One, 160), ref.One), t2020, reason)
		case 4:
			rc(kit.B(7), time.Date(2020, 1, 1, 3, 0, 0, 0, time.FixedZone("E", 8*3600)))
			rc(kit.B(8), time.Date(2050, 1, 1, 3, 0, 0, 0, time.FixedZone("E", 8*3600)))
			rc(kit.B(9), time.Date(2020, 1, 1, 3, 0, 0, 999, time.FixedZone("W", -8*3600)))
		case 5:
			rc(kit.B(5), t2020)
			rc(kit.B(5), t2020)
		case 6:
			rc(kit.B(0), t2020, reason, pkix.Extension{Id: oid(2, 5, 29, 24), Value: ref.TLV(0x18, []byte("20190101000000Z"))})
		case 7:
			for i := int64(0); i < 40; i++ {
				rc(kit.B(1000-i), t2020.Add(time.Duration(i)*time.Hour))
			}
		case 8:
			rc(kit.B(3), t2020, pkix.Extension{Id: oid(1, 2, 3), Critical: true, Value: []byte("crit")})
		}
	}},
	{"number", 5, func(s *crlSpec, v int) {
		s.number = []*big.Int{kit.B(0), kit.B(127), kit.B(128), kit.B(65536), new(big.Int).Sub(new(big.Int).Lsh(ref.One, 159), ref.One)}[v]
	}},
	{"extra", 3, func(s *crlSpec, v int) {
		s.extra = [][]pkix.Extension{{{Id: oid(2, 5, 29, 99), Value: []byte{5, 0}}}, {{Id: oid(2, 5, 29, 28), Critical: true, Value: ref.Seq()}}, {{Id: oid(1, 2, 3), Value: []byte{1}}, {Id: oid(1, 2, 4), Value: kit.Stream("e", 300)}}}[v]
	}},
	{"parsedIssuer", 1, func(s *crlSpec, v int) { s.wantSubj = []byte("parsed") }},
}

func c14Check(t *engine.T, der []byte, s *crlSpec, k xkey, alg x509.SignatureAlgorithm, v2 bool) *pkix.CertificateList {
	l, err := x509.ParseDERCRL(der)
	t.Check(err == nil, "parse", "created list does not parse: %v: %x", err, der)
	t.Step(1)
	n := ref.Parse(der, 0)
	t.Check(len(n) == 1 && len(n[0].Children) == 3, "structure", "%x", der)
	tbs := n[0].Children[0]
	t.Check(bytes.Equal(tbs.At(1).Raw, n[0].Children[1].Raw), "algorithm", "inner and outer algorithms differ")
	t.Check(xverify(k.pub, alg, tbs.Raw, n[0].Children[2].Body[1:]), "signature", "signature of the %s list is not valid: %x", k.name, der)
	subj := s.issuer.RawSubject
	if len(subj) == 0 {
		subj = nameDER(s.issuer.Subject)
	}
	t.Check(bytes.Equal(tbs.At(2).Raw, subj), "issuer-name", "the list names the issuer %x, its certificate %x", tbs.At(2).Raw, subj)
	t.Check(l.TBSCertList.Version == 1, "version", "version %d", l.TBSCertList.Version)
	t.Check(tm(l.TBSCertList.ThisUpdate) == tm(s.this) && tm(l.TBSCertList.NextUpdate) == tm(s.next), "dates", "dates %v %v instead of %v %v", l.TBSCertList.ThisUpdate, l.TBSCertList.NextUpdate, s.this, s.next)
	t.Check(bytes.Equal(tbs.At(3).Raw, derTime(s.this)) && bytes.Equal(tbs.At(4).Raw, derTime(s.next)), "date-encoding", "dates are encoded as %x %x", tbs.At(3).Raw, tbs.At(4).Raw)
	if len(s.revoked) > 0 {
		for i, r := range s.revoked {
			t.Check(bytes.Equal(tbs.At(5, i, 1).Raw, derTime(r.RevocationTime)), "date-encoding", "revocation time is encoded as %x", tbs.At(5, i, 1).Raw)
		}
	}
	t.Check(len(l.TBSCertList.RevokedCertificates) == len(s.revoked), "entries", "%d entries instead of %d", len(l.TBSCertList.RevokedCertificates), len(s.revoked))
	for i, r := range l.TBSCertList.RevokedCertificates {
		w := s.revoked[i]
		t.Check(r.SerialNumber.Cmp(w.SerialNumber) == 0 && tm(r.RevocationTime) == tm(w.RevocationTime) && exts(r.Extensions) == exts(w.Extensions), "entries", "entry %d is %v instead of %v", i, r, w)
	}
	var want []string
	if len(s.issuer.SubjectKeyId) > 0 {
		aki := pkix.Extension{Id: oid(2, 5, 29, 35), Value: ref.Seq(ref.TLV(0x80, s.issuer.SubjectKeyId))}
		want = append(want, exts([]pkix.Extension{aki}))
	}
	if v2 {
		want = append(want, exts([]pkix.Extension{{Id: oid(2, 5, 29, 20), Value: ref.DERInt(s.number)}}))
		for _, e := range s.extra {
			want = append(want, exts([]pkix.Extension{e}))
		}
	}
	var got []string
	for _, e := range l.TBSCertList.Extensions {
		got = append(got, exts([]pkix.Extension{e}))
	}
	for _, w := range want {
		c := 0
		for _, g := range got {
			if g == w {
				c++
			}
		}
		t.Check(c == 1, "extensions", "extension %s occurs %d times in %v", w, c, got)
	}
	t.Check(len(got) == len(want), "extensions", "extensions %v instead of %v", got, want)
	// the PEM form
	p := pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der})
	for _, f := range [][]byte{der, p} {
		m, err := x509.ParseCRL(f)
		t.Check(err == nil && bytes.Equal(m.TBSCertList.Raw, l.TBSCertList.Raw), "pem", "ParseCRL: %v", err)
		t.Step(1)
	}
	checker := *s.issuer
	checker.PublicKey = k.pub
	t.Check(checker.CheckCRLSignature(l) == nil, "verify", "list refused by its issuer: %v", checker.CheckCRLSignature(l))
	std, err := stdx509.ParseRevocationList(der)
	if err == nil {
		t.Check(bytes.Equal(std.RawIssuer, subj) && tm(std.ThisUpdate) == tm(s.this) && tm(std.NextUpdate) == tm(s.next) && len(std.RevokedCertificateEntries) == len(s.revoked), "std", "crypto/x509 reads another list: %v", std)
		if v2 {
			t.Check(std.Number.Cmp(s.number) == 0, "std", "crypto/x509 reads number %v", std.Number)
		}
		t.Check(bytes.Equal(std.AuthorityKeyId, s.issuer.SubjectKeyId), "std", "crypto/x509 reads key id %x", std.AuthorityKeyId)
	} else {
		// crypto/x509 is stricter about some entries
		t.Check(len(s.revoked) > 0 || len(s.issuer.RawSubject) > 0 || len(s.extra) > 0, "std", "crypto/x509 cannot parse: %v: %x", err, der)
	}
	return l
}

func c14Make(t *engine.T, fn int, s *crlSpec, k xkey, alg x509.SignatureAlgorithm, seed string) ([]byte, error) {
	t.Step(1)
	if fn == 0 {
		return x509.CreateRevocationList(kit.NewRand(seed), &x509.RevocationList{SignatureAlgorithm: alg, RevokedCertificates: s.revoked, Number: s.number, ThisUpdate: s.this, NextUpdate: s.next, ExtraExtensions: s.extra}, s.issuer, k.s)
	}
	return s.issuer.CreateCRL(kit.NewRand(seed), k.s, s.revoked, s.this, s.next)
}

func c14Spec() *crlSpec {
	return &crlSpec{issuer: caTemplate("crl issuer", 1), this: t2020, next: t2040, number: kit.B(17)}
}

func c14Fields(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	fn := t.Pick("function", 2)
	s := c14Spec()
	var picks []string
	for _, m := range c14Mods {
		if v := t.Choose(m.name, m.n+1); v > 0 {
			m.f(s, v-1)
			picks = append(picks, fmt.Sprintf("%s%d", m.name, v))
		}
	}
	t.Begin()
	k := xkeyOf(ki)
	if s.wantSubj != nil { // the issuer as parsed from a certificate
		s.issuer = mkCert(t, kit.NewRand("iss"), s.issuer, s.issuer, k.pub, k.s)
	}
	before := fmt.Sprint(s.revoked)
	der, err := c14Make(t, fn, s, k, 0, "crl")
	t.Check(err == nil, "create", "function %d %v: %v", fn, picks, err)
	t.Check(fmt.Sprint(s.revoked) == before, "input-changed", "the list of revoked certificates was changed")
	c14Check(t, der, s, k, k.def, fn == 0)
	t.Outcome("%s fn %d %v", k.name, fn, picks)
}

func c14Algorithms(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	ai := t.Pick("algorithm", len(allSigAlgs))
	t.Begin()
	k := xkeyOf(ki)
	alg := allSigAlgs[ai]
	s := c14Spec()
	der, err := c14Make(t, 0, s, k, alg, "crla")
	fits := alg == 0
	for _, a := range k.algs {
		fits = fits || a == alg
	}
	if fits {
		t.Check(err == nil, "create", "%s with %v: %v", k.name, alg, err)
		want := alg
		if alg == 0 {
			want = k.def
		}
		c14Check(t, der, s, k, want, true)
	} else if k.name == "RSA" && (alg == x509.MD5WithRSA || alg == x509.SHA1WithRSA) || len(k.algs) == 3 && alg == x509.ECDSAWithSHA1 {
		if err == nil {
			l, err := x509.ParseCRL(der)
			t.Check(err == nil, "parse", "%v", err)
			t.Check((&x509.Certificate{PublicKey: k.pub}).CheckCRLSignature(l) != nil, "insecure", "%v accepted for verification", alg)
		}
	} else {
		t.Check(err != nil && der == nil, "wrong-algorithm", "%s key signed a list with %v", k.name, alg)
	}
	t.Outcome("%s %v made=%v", k.name, alg, err == nil)
}

func c14Refused(t *engine.T) {
	ki := t.Pick("key", 4)
	block := t.Pick("block", 33)
	t.Begin()
	k := xkeyOf(ki)
	if block < 32 {
		for ku := block * 16; ku < block*16+16; ku++ {
			s := c14Spec()
			s.issuer.KeyUsage = 0
			for b := range kuNames {
				if ku>>b&1 == 1 {
					s.issuer.KeyUsage |= kuNames[b]
				}
			}
			der, err := c14Make(t, 0, s, k, 0, "r")
			t.Check((err == nil) == (ku>>6&1 == 1) && (err == nil) == (der != nil), "key-usage", "issuer with key usage %09b: %v", ku, err)
		}
		t.Outcome("%s usages %d", k.name, block)
		return
	}
	tpl := func() *x509.RevocationList {
		return &x509.RevocationList{Number: kit.B(1), ThisUpdate: t2020, NextUpdate: t2040}
	}
	bad := func(what string, l *x509.RevocationList, is *x509.Certificate) {
		der, err := x509.CreateRevocationList(kit.NewRand("r"), l, is, k.s)
		t.Step(1)
		t.Check(err != nil && der == nil, "refused", "%s: %v", what, err)
	}
	bad("nil template", nil, caTemplate("i", 1))
	bad("nil issuer", tpl(), nil)
	l := tpl()
	l.Number = nil
	bad("nil number", l, caTemplate("i", 1))
	l = tpl()
	l.ThisUpdate, l.NextUpdate = t2040, t2020
	bad("reversed dates", l, caTemplate("i", 1))
	l = tpl()
	l.NextUpdate = l.ThisUpdate.Add(-time.Second)
	bad("reversed dates by a second", l, caTemplate("i", 1))
	is := caTemplate("i", 1)
	is.SubjectKeyId = nil
	bad("no key identifier", tpl(), is)
	l = tpl()
	l.NextUpdate = l.ThisUpdate
	der, err := x509.CreateRevocationList(kit.NewRand("r"), l, caTemplate("i", 1), k.s)
	t.Check(err == nil && der != nil, "equal-dates", "%v", err)
	for _, p := range []any{nil, notSigner{}, k.pub} {
		_, err := caTemplate("i", 1).CreateCRL(kit.NewRand("x"), p, nil, t2020, t2040)
		t.Check(err != nil, "refused", "%T accepted as a signer", p)
	}
	l = tpl()
	l.ThisUpdate, l.NextUpdate = time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(10000, 1, 2, 0, 0, 0, 0, time.UTC)
	bad("year 10000", l, caTemplate("i", 1))
	for _, id := range [][]byte{nil, {}} {
		s := c14Spec()
		s.issuer.SubjectKeyId = id
		der, err := c14Make(t, 1, s, k, 0, "noski")
		t.Check(err == nil, "create", "issuer without key identifier: %v", err)
		c14Check(t, der, s, k, k.def, false)
	}
	for o := 0; o < 2*numXKeys; o++ { // an issuer certificate with another key
		other := xkeyOf(o%numXKeys + o/numXKeys*100)
		if pubEqual(other.pub, k.pub) {
			continue
		}
		for fn := 0; fn < 2; fn++ {
			s := c14Spec()
			s.issuer.PublicKey = other.pub
			der, err := c14Make(t, fn, s, k, 0, "other")
			t.Check(err != nil && der == nil, "issuer-key", "function %d: a list for an issuer with key %s signed with key %s", fn, other.name, k.name)
			s.issuer.PublicKey = k.pub
			der, err = c14Make(t, fn, s, k, 0, "other")
			t.Check(err == nil, "create", "%v", err)
		}
	}
	t.Outcome("%s arguments", k.name)
}

func c14Hand(k xkey, n int64) []byte {
	tbs := ref.Seq(ref.Int(1), aiOf(k), nameCN("crl issuer"), ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z")),
		ref.Seq(ref.Seq(ref.Int(5+n), ref.TLV(0x17, []byte("210101000000Z"))), ref.Seq(ref.Int(300), ref.TLV(0x17, []byte("210101000000Z")), ref.Seq(ref.Seq(ref.OID(2, 5, 29, 21), ref.Oct(ref.TLV(10, []byte{1})))))),
		ref.Ctx(0, ref.Seq(ref.Seq(ref.OID(2, 5, 29, 35), ref.Oct(ref.Seq(ref.TLV(0x80, []byte("ski"))))), ref.Seq(ref.OID(2, 5, 29, 20), ref.Oct(ref.Int(9))))))
	return ref.Seq(tbs, aiOf(k), ref.BitStr(signBytes(k, tbs, n)))
}

func c14Flips(t *engine.T) {
	ki := t.Pick("key", 4)
	at := t.Pick("byte", 560)
	t.Begin()
	k := xkeyOf(ki)
	der := c14Hand(k, 1)
	if at >= len(der) {
		return
	}
	is := &x509.Certificate{PublicKey: k.pub}
	n := ref.Parse(der, 0)[0]
	if at == 0 {
		l, err := x509.ParseCRL(der)
		t.Check(err == nil && is.CheckCRLSignature(l) == nil, "good", "unchanged list refused: %v", err)
	}
	parsed := 0
	for b := 0; b < 8; b++ {
		m := kit.Clone(der)
		m[at] ^= 1 << b
		l, err := x509.ParseCRL(m)
		t.Step(1)
		if err != nil {
			t.Check(l == nil, "parse-error", "list with error")
			continue
		}
		parsed++
		inAI := at >= n.Children[1].Off && at < n.Children[1].Off+len(n.Children[1].Raw)
		if inAI && bytes.Equal(l.TBSCertList.Raw, n.Children[0].Raw) && l.SignatureAlgorithm.Algorithm.Equal(l.TBSCertList.Signature.Algorithm) {
			continue // parameters of the outer algorithm identifier
		}
		t.Check(is.CheckCRLSignature(l) != nil, "flip", "%s list with bit %d of byte %d changed is accepted: %x", k.name, b, at, m)
	}
	_, err := x509.ParseCRL(der[:at])
	t.Check(err != nil, "truncated", "truncated list parses")
	_, err = x509.ParseCRL(append(kit.Clone(der), der[:at+1]...))
	t.Check(err != nil, "trailing", "list with trailing data parses")
	t.Outcome("%s byte %d: %d of 8 parse", k.name, at, parsed)
}

func c14Issuer(t *engine.T) {
	a := t.Pick("signer", numXKeys)
	b := t.Pick("checker", 2*numXKeys)
	what := t.Pick("what", 3)
	t.Begin()
	ka := xkeyOf(a)
	bi := b
	if b >= numXKeys {
		bi = 100 + b - numXKeys
	}
	kb := xkeyOf(bi)
	n := ref.Parse(c14Hand(ka, 1), 0)[0]
	alg, sig := n.Children[1].Raw, n.Children[2].Raw
	id := ka.def
	switch what {
	case 1:
		sig = ref.Parse(c14Hand(ka, 2), 0)[0].Children[2].Raw
	case 2:
		alg, id = aiOf(kb), kb.def
	}
	l, err := x509.ParseDERCRL(ref.Seq(n.Children[0].Raw, alg, sig))
	t.Check(err == nil, "parse", "%v", err)
	want := xverify(kb.pub, id, n.Children[0].Raw, ref.Parse(sig, 0)[0].Body[1:])
	err = (&x509.Certificate{PublicKey: kb.pub, KeyUsage: x509.KeyUsageCRLSign}).CheckCRLSignature(l)
	t.Step(1)
	t.Check((err == nil) == want, "issuer", "list signed by %s checked with %s key, kind %d: %v, want accepted=%v", ka.name, kb.name, what, err, want)
	t.Outcome("%s %s %d: %v", ka.name, kb.name, what, want)
}

func c14PEM(t *engine.T) {
	kind := t.Pick("kind", 14)
	t.Begin()
	k := xkeyOf(0)
	der := c14Hand(k, 3)
	p := pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der})
	in, want := p, 0 // 0: the list; 1: error; 2: either, but never another list
	switch kind {
	case 0:
	case 1:
		in = der
	case 2:
		in, want = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 1
	case 3:
		in = append(kit.Clone(p), []byte("trailing")...)
		want = 2
	case 4:
		in, want = append([]byte("x\n"), p...), 1
	case 5:
		in, want = p[:len(p)-10], 1
	case 6:
		in, want = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: nil}), 1
	case 7:
		in, want = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: append(kit.Clone(der), 0)}), 1
	case 8:
		in, want = nil, 1
	case 9:
		in, want = []byte("-----BEGIN X509 CRL"), 1
	case 10:
		in = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Headers: map[string]string{"A": "b"}, Bytes: der})
		want = 2
	case 11:
		in = bytes.ReplaceAll(p, []byte("\n"), []byte("\r\n"))
		want = 2
	case 12:
		in, want = bytes.Replace(p, []byte("A"), []byte("!"), 1), 1
	case 13:
		in, want = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: ref.Seq()}), 1
	}
	l, err := x509.ParseCRL(in)
	t.Step(1)
	if err == nil {
		t.Check(want != 1 && bytes.Equal(l.TBSCertList.Raw, ref.Parse(der, 0)[0].Children[0].Raw), "pem", "kind %d parsed: %q", kind, in)
	} else {
		t.Check(want != 0 && l == nil, "pem", "kind %d: %v", kind, err)
	}
	t.Outcome("kind %d %v", kind, err == nil)
}
