package props

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha1"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C11", Harnesses: []engine.Harness{
		{Name: "fields", Rule: "certificate templates that differ from the plain one in at most 2 of 30 fields (each with 1 to 16 alternatives) x SM2, P-256, RSA, Ed25519 signer: created, parses back to exactly the template's values, crypto/x509 reads the same values, signature valid by an independent verifier", Run: c11Fields, Bound: 2, Deep: 3},
		{Name: "keyusage", Rule: "all 512 key usage sets and all 16384 extended key usage sets of size <= 3 in every order: parsed back exactly", Run: c11Usage},
		{Name: "signers", Rule: "8 signer keys x 8 subject keys x every signature algorithm x self-signed or issued: algorithm recorded and signature valid; algorithms of another key type refused", Run: c11Signers},
		{Name: "faults", Rule: "a random source failing at every byte offset, a signer that fails or returns a wrong signature of 12 kinds, x 4 key types x certificate, CRL, revocation list, CSR: error, never output", Run: c11Faults},
		{Name: "refused", Rule: "contradictory or incomplete arguments (23 kinds): error, no output", Run: c11Refused},
		{Name: "hostile", Rule: "30 template fields x values that may have no encoding (every address length to 33, masks, 23 object identifiers, 13 strings, undefined usage bits, years from -1000 to 10000, malformed names): an error and no bytes, or a readable certificate with exactly the template's values", Run: c11Hostile},
		{Name: "unusable", Rule: "17 signers whose public key is of no usable kind (nil, DSA, values instead of pointers, private keys, unknown or mismatching curves) and 8 signers with working but disagreeing parts, x 4 creation functions x 20 algorithms, and the same public keys as subject keys: an error and no bytes", Run: c11Unusable},
		{Name: "sizes", Rule: "29 fields of a template x counts, lengths or values 0..20 and around every power of two up to 32..131072: created, parses back exactly, crypto/x509 reads the same", Run: c11Sizes},
		{Name: "near", Rule: "a template with all 10 standard extensions and an extra extension with each of 22 identifiers that are one of them or close to it x critical or not x alone, before or after another: exactly the expected extensions", Run: c11Near},
		{Name: "raw", Rule: "5 encoded names x 8 other contents of the subject field x 8 of the parent's x certificate, request, CRL, revocation list: the encoded names are used as they are", Run: c11Raw},
		{Name: "foreign", Rule: "certificates made by crypto/x509 with 40 templates x 4 key types, and hand-made version 1, 2 certificates: every field equals crypto/x509's reading", Run: c11Foreign},
	}})
}

// c11Mods are the template deviations: each is a field with n alternatives.
type mod struct {
	name string
	n    int
	f    func(c *x509.Certificate, v int)
}

func oid(a ...int) asn1.ObjectIdentifier { return a }

var c11Mods = []mod{
	{"serial", 9, func(c *x509.Certificate, v int) {
		c.SerialNumber = []*big.Int{kit.B(0), kit.B(1), kit.B(127), kit.B(128), kit.B(255), kit.B(256), new(big.Int).Sub(new(big.Int).Lsh(ref.One, 159), ref.One), new(big.Int).Lsh(ref.One, 159), new(big.Int).Lsh(ref.One, 1023)}[v]
	}},
	{"subject", 13, func(c *x509.Certificate, v int) {
		switch v {
		case 0:
			c.Subject = pkix.Name{}
		case 1:
			c.Subject = pkix.Name{CommonName: "国密证书"}
		case 2:
			c.Subject = pkix.Name{CommonName: "a*b@c_d&e"}
		case 3:
			c.Subject = pkix.Name{Country: []string{"CN", "DE"}, Organization: []string{"O1", "O2"}, OrganizationalUnit: []string{"U"}, Locality: []string{"L"}, Province: []string{"P"}, StreetAddress: []string{"S 1"}, PostalCode: []string{"100000"}, SerialNumber: "17", CommonName: "all"}
		case 4:
			c.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: oid(1, 2, 840, 113549, 1, 9, 1), Value: "a@example.com"}}
		case 5:
			c.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 4, 3), Value: "override"}}
		case 6:
			c.Subject.CommonName = string(bytes.Repeat([]byte("x"), 64))
		case 7:
			c.Subject.CommonName = string(bytes.Repeat([]byte("y"), 300))
		case 8:
			c.RawSubject = nameCN("raw subject")
		case 9:
			c.Subject.Names = []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 4, 12), Value: "ignored"}}
		case 10:
			c.Subject.CommonName = ""
		case 11:
			c.Subject.CommonName = " leading and trailing "
		case 12:
			c.Subject.SerialNumber = "\u00e9\u2603"
		}
	}},
	{"notBefore", 7, func(c *x509.Certificate, v int) {
		c.NotBefore = []time.Time{time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1949, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Date(2000, 2, 29, 12, 0, 0, 123456789, time.UTC), time.Date(2024, 2, 29, 23, 59, 59, 0, time.FixedZone("E", 8*3600)), time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("W", -3600)), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)}[v]
	}},
	{"notAfter", 7, func(c *x509.Certificate, v int) {
		c.NotAfter = []time.Time{time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Date(2050, 1, 1, 7, 59, 59, 0, time.FixedZone("E", 8*3600)), time.Date(2049, 12, 31, 23, 0, 0, 0, time.FixedZone("W", -2*3600)), t2020, time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC)}[v]
	}},
	{"keyUsage", 11, func(c *x509.Certificate, v int) {
		switch {
		case v < 9:
			c.KeyUsage = kuNames[v]
		case v == 9:
			c.KeyUsage = 511
		default:
			c.KeyUsage = 0
		}
	}},
	{"extKeyUsage", 4, func(c *x509.Certificate, v int) {
		switch v {
		case 0:
			c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		case 1:
			c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageAny, x509.ExtKeyUsageTimeStamping, x509.ExtKeyUsageMicrosoftKernelCodeSigning}
		case 2:
			for _, e := range ekuNames {
				c.ExtKeyUsage = append(c.ExtKeyUsage, e.lib)
			}
		case 3:
			c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageClientAuth}
		}
	}},
	{"unknownExtKeyUsage", 2, func(c *x509.Certificate, v int) {
		c.UnknownExtKeyUsage = [][]asn1.ObjectIdentifier{{oid(1, 2, 3)}, {oid(2, 59, 1), oid(1, 3, 6, 1, 4, 1, 99999, 1)}}[v]
	}},
	{"basicConstraints", 7, func(c *x509.Certificate, v int) {
		c.BasicConstraintsValid = true
		switch v {
		case 0:
		case 1:
			c.IsCA = true
		case 2:
			c.IsCA, c.MaxPathLen = true, 1
		case 3:
			c.IsCA, c.MaxPathLenZero = true, true
		case 4:
			c.IsCA, c.MaxPathLen = true, -1
		case 5:
			c.IsCA, c.MaxPathLen = true, 300
		case 6:
			c.MaxPathLen = -1
		}
	}},
	{"isCAonly", 1, func(c *x509.Certificate, v int) { c.IsCA = true }},
	{"subjectKeyId", 4, func(c *x509.Certificate, v int) {
		c.SubjectKeyId = [][]byte{{0}, kit.Stream("ski", 20), kit.Stream("ski", 32), make([]byte, 200)}[v]
	}},
	{"authorityKeyId", 3, func(c *x509.Certificate, v int) {
		c.AuthorityKeyId = [][]byte{{9}, kit.Stream("aki", 20), kit.Stream("aki", 130)}[v]
	}},
	{"ocsp", 2, func(c *x509.Certificate, v int) {
		c.OCSPServer = [][]string{{"http://ocsp.example"}, {"http://a/", "http://b/?q=1"}}[v]
	}},
	{"issuingURL", 2, func(c *x509.Certificate, v int) {
		c.IssuingCertificateURL = [][]string{{"http://ca.example/ca.crt"}, {"ldap://x", "http://y"}}[v]
	}},
	{"dns", 4, func(c *x509.Certificate, v int) {
		c.DNSNames = [][]string{{"example.com"}, {"*.example.com", "a.b.c", "xn--fiqs8s"}, {""}, {string(bytes.Repeat([]byte("d"), 200)) + ".example"}}[v]
	}},
	{"email", 2, func(c *x509.Certificate, v int) {
		c.EmailAddresses = [][]string{{"a@example.com"}, {"x@y", "z@w.v"}}[v]
	}},
	{"ip", 5, func(c *x509.Certificate, v int) {
		c.IPAddresses = [][]net.IP{{net.IPv4(127, 0, 0, 1)}, {net.IP{1, 2, 3, 4}}, {net.ParseIP("2001:db8::1")}, {net.ParseIP("::1"), net.IPv4zero}, {net.IPv4(255, 255, 255, 255), net.ParseIP("ff02::1")}}[v]
	}},
	{"uri", 3, func(c *x509.Certificate, v int) {
		c.URIs = [][]*url.URL{urls("https://example.com/a?b=c#d"), urls("urn:uuid:0", "spiffe://dom/path"), urls("https://u:p@h.example:8443/%E4%B8%AD")}[v]
	}},
	{"permDNS", 3, func(c *x509.Certificate, v int) {
		c.PermittedDNSDomains = [][]string{{"example.com"}, {".example.com", "b.c"}, {""}}[v]
	}},
	{"exclDNS", 2, func(c *x509.Certificate, v int) {
		c.ExcludedDNSDomains = [][]string{{"bad.com"}, {".x", "y"}}[v]
	}},
	{"ncCritical", 1, func(c *x509.Certificate, v int) {
		c.PermittedDNSDomainsCritical = true
		c.PermittedDNSDomains = append(c.PermittedDNSDomains, "crit.example")
	}},
	{"permIP", 3, func(c *x509.Certificate, v int) {
		c.PermittedIPRanges = [][]*net.IPNet{{mustNet("10.0.0.0/8")}, {mustNet("2001:db8::/32"), mustNet("0.0.0.0/0")}, {{IP: net.IP{192, 168, 7, 7}, Mask: net.CIDRMask(24, 32)}}}[v]
	}},
	{"exclIP", 1, func(c *x509.Certificate, v int) {
		c.ExcludedIPRanges = []*net.IPNet{mustNet("192.168.1.1/32"), mustNet("::/0")}
	}},
	{"permEmail", 1, func(c *x509.Certificate, v int) { c.PermittedEmailAddresses = []string{"a@b.c", "d.e", ".f.g"} }},
	{"exclEmail", 1, func(c *x509.Certificate, v int) { c.ExcludedEmailAddresses = []string{"bad@b.c"} }},
	{"permURI", 1, func(c *x509.Certificate, v int) { c.PermittedURIDomains = []string{"uri.example", ".sub"} }},
	{"exclURI", 1, func(c *x509.Certificate, v int) { c.ExcludedURIDomains = []string{"bad.example"} }},
	{"crldp", 2, func(c *x509.Certificate, v int) {
		c.CRLDistributionPoints = [][]string{{"http://crl.example/1.crl"}, {"http://a", "ldap://b/c?d"}}[v]
	}},
	{"policies", 2, func(c *x509.Certificate, v int) {
		c.PolicyIdentifiers = [][]asn1.ObjectIdentifier{{oid(2, 5, 29, 32, 0)}, {oid(1, 2, 3), oid(2, 23, 140, 1, 2, 1), oid(1, 2, 156, 10197, 6, 1)}}[v]
	}},
	{"extra", 16, func(c *x509.Certificate, v int) {
		e := func(id asn1.ObjectIdentifier, crit bool, val []byte) {
			c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: id, Critical: crit, Value: val})
		}
		switch v {
		case 0:
			e(oid(1, 2, 3, 4), false, []byte{5, 0})
		case 1:
			e(oid(1, 2, 3, 4), true, []byte("critical"))
		case 2:
			e(oid(2, 5, 29, 18), true, ref.Seq(ref.TLV(0x82, []byte("issuer.alt")))) // not handled by the package
		case 3: // overrides
			e(oid(2, 5, 29, 15), false, ref.TLV(3, []byte{7, 0x80}))
		case 4:
			e(oid(2, 5, 29, 37), false, ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 3, 2)))
		case 5:
			e(oid(2, 5, 29, 19), true, ref.Seq(ref.TLV(1, []byte{0xff}), ref.Int(3)))
		case 6:
			e(oid(2, 5, 29, 14), false, ref.Oct([]byte("override-ski")))
		case 7:
			e(oid(2, 5, 29, 35), false, ref.Seq(ref.TLV(0x80, []byte("override-aki"))))
		case 8:
			e(oid(1, 3, 6, 1, 5, 5, 7, 1, 1), false, ref.Seq(ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 1), ref.TLV(0x86, []byte("http://override")))))
		case 9:
			e(oid(2, 5, 29, 17), true, ref.Seq(ref.TLV(0x82, []byte("override.example")), ref.TLV(0x88, []byte{0x2a, 3})))
		case 10:
			e(oid(2, 5, 29, 32), false, ref.Seq(ref.Seq(ref.OID(1, 2, 9))))
		case 11:
			e(oid(2, 5, 29, 30), true, ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x82, []byte("override.nc"))))))
		case 12:
			e(oid(2, 5, 29, 31), false, ref.Seq(ref.Seq(ref.Ctx(0, ref.Ctx(0, ref.TLV(0x86, []byte("http://override.crl")))))))
		case 13: // directoryName constraint: critical and not handled
			e(oid(2, 5, 29, 30), true, ref.Seq(ref.Ctx(0, ref.Seq(ref.Ctx(4, nameCN("dir"))))))
		case 14: // SAN with only unhandled names
			e(oid(2, 5, 29, 17), true, ref.Seq(ref.TLV(0x88, []byte{0x2a, 3})))
		case 15:
			e(oid(1, 2, 3, 4), false, nil)
			e(oid(1, 2, 3, 5), true, bytes.Repeat([]byte{1}, 300))
		}
	}},
}

func urls(l ...string) (out []*url.URL) {
	for _, u := range l {
		out = append(out, mustURL(u))
	}
	return
}

// c11Expect is the view a parsed certificate must have, derived from the template alone.
func c11Expect(tpl, parent *x509.Certificate, subjectBits []byte, got *x509.Certificate) []string {
	e := *tpl
	e.Version = 3
	e.RawSubject = tpl.RawSubject
	if len(e.RawSubject) == 0 {
		e.RawSubject = nameDER(tpl.Subject)
	}
	e.RawIssuer = parent.RawSubject
	if len(e.RawIssuer) == 0 {
		e.RawIssuer = nameDER(parent.Subject)
	}
	parse := func(b []byte) pkix.Name {
		var r pkix.RDNSequence
		if _, err := asn1.Unmarshal(b, &r); err != nil {
			panic(err)
		}
		var n pkix.Name
		n.FillFromRDNSequence(&r)
		return n
	}
	e.Subject, e.Issuer = parse(e.RawSubject), parse(e.RawIssuer)
	over := map[string]bool{}
	for _, x := range tpl.ExtraExtensions {
		over[x.Id.String()] = true
	}
	e.Extensions = got.Extensions // checked apart
	e.Signature = got.Signature
	e.UnhandledCriticalExtensions = nil
	if tpl.BasicConstraintsValid {
		if tpl.MaxPathLen == 0 && !tpl.MaxPathLenZero {
			e.MaxPathLen = -1
		}
	} else {
		e.IsCA, e.MaxPathLen, e.MaxPathLenZero = false, 0, false
	}
	if len(tpl.SubjectKeyId) == 0 && tpl.IsCA {
		h := sha1.Sum(subjectBits)
		e.SubjectKeyId = h[:]
	}
	if !bytes.Equal(e.RawSubject, e.RawIssuer) && len(parent.SubjectKeyId) > 0 {
		e.AuthorityKeyId = parent.SubjectKeyId
	}
	hasNC := len(e.PermittedDNSDomains)+len(e.ExcludedDNSDomains)+len(e.PermittedIPRanges)+len(e.ExcludedIPRanges)+len(e.PermittedEmailAddresses)+len(e.ExcludedEmailAddresses)+len(e.PermittedURIDomains)+len(e.ExcludedURIDomains) > 0
	if !hasNC {
		e.PermittedDNSDomainsCritical = false
	}
	mask := func(l []*net.IPNet) (out []*net.IPNet) {
		for _, n := range l {
			out = append(out, &net.IPNet{IP: n.IP.Mask(n.Mask), Mask: n.Mask})
		}
		return
	}
	e.PermittedIPRanges, e.ExcludedIPRanges = mask(tpl.PermittedIPRanges), mask(tpl.ExcludedIPRanges)
	// what an ExtraExtension overrides
	for _, x := range tpl.ExtraExtensions {
		switch x.Id.String() {
		case "2.5.29.15":
			e.KeyUsage = x509.KeyUsageDigitalSignature
		case "2.5.29.37":
			e.ExtKeyUsage, e.UnknownExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, nil
		case "2.5.29.19":
			e.BasicConstraintsValid, e.IsCA, e.MaxPathLen, e.MaxPathLenZero = true, true, 3, false
		case "2.5.29.14":
			e.SubjectKeyId = []byte("override-ski")
		case "2.5.29.35":
			e.AuthorityKeyId = []byte("override-aki")
		case "1.3.6.1.5.5.7.1.1":
			e.OCSPServer, e.IssuingCertificateURL = []string{"http://override"}, nil
		case "2.5.29.17":
			e.DNSNames, e.EmailAddresses, e.IPAddresses, e.URIs = nil, nil, nil, nil
			if bytes.Contains(x.Value, []byte("override.example")) {
				e.DNSNames = []string{"override.example"}
			} else {
				e.UnhandledCriticalExtensions = append(e.UnhandledCriticalExtensions, x.Id)
			}
		case "2.5.29.32":
			e.PolicyIdentifiers = []asn1.ObjectIdentifier{oid(1, 2, 9)}
		case "2.5.29.30":
			e.PermittedDNSDomains, e.ExcludedDNSDomains, e.PermittedEmailAddresses, e.ExcludedEmailAddresses, e.PermittedURIDomains, e.ExcludedURIDomains = nil, nil, nil, nil, nil, nil
			e.PermittedIPRanges, e.ExcludedIPRanges = nil, nil
			e.PermittedDNSDomainsCritical = true
			if bytes.Contains(x.Value, []byte("override.nc")) {
				e.PermittedDNSDomains = []string{"override.nc"}
			} else {
				e.UnhandledCriticalExtensions = append(e.UnhandledCriticalExtensions, x.Id)
			}
		case "2.5.29.31":
			e.CRLDistributionPoints = []string{"http://override.crl"}
		default:
			if x.Critical {
				e.UnhandledCriticalExtensions = append(e.UnhandledCriticalExtensions, x.Id)
			}
		}
	}
	return certView(&e)
}

// checkExtSet checks presence, uniqueness and the critical flags.
func checkExtSet(t *engine.T, tpl *x509.Certificate, got *x509.Certificate) {
	seen := map[string]pkix.Extension{}
	for _, e := range got.Extensions {
		_, dup := seen[e.Id.String()]
		t.Check(!dup, "duplicate-extension", "extension %v occurs twice", e.Id)
		seen[e.Id.String()] = e
	}
	extra := map[string]bool{}
	for _, e := range tpl.ExtraExtensions {
		g, ok := seen[e.Id.String()]
		t.Check(ok && g.Critical == e.Critical && bytes.Equal(g.Value, e.Value), "extra-extension", "extra extension %v became %v", e, g)
		extra[e.Id.String()] = true
	}
	says := map[string]bool{
		"2.5.29.14": len(got.SubjectKeyId) > 0, "2.5.29.35": len(got.AuthorityKeyId) > 0, "2.5.29.15": got.KeyUsage != 0, "2.5.29.19": got.BasicConstraintsValid,
		"2.5.29.37": len(got.ExtKeyUsage)+len(got.UnknownExtKeyUsage) > 0, "1.3.6.1.5.5.7.1.1": len(got.OCSPServer)+len(got.IssuingCertificateURL) > 0,
		"2.5.29.17": len(got.DNSNames)+len(got.EmailAddresses)+len(got.IPAddresses)+len(got.URIs) > 0, "2.5.29.31": len(got.CRLDistributionPoints) > 0, "2.5.29.32": len(got.PolicyIdentifiers) > 0,
		"2.5.29.30": len(got.PermittedDNSDomains)+len(got.ExcludedDNSDomains)+len(got.PermittedIPRanges)+len(got.ExcludedIPRanges)+len(got.PermittedEmailAddresses)+len(got.ExcludedEmailAddresses)+len(got.PermittedURIDomains)+len(got.ExcludedURIDomains) > 0,
	}
	for id := range seen {
		t.Check(extra[id] || says[id], "empty-extension", "extension %s that nobody asked for, or that says nothing", id)
	}
	crit := func(id string, want bool) {
		if e, ok := seen[id]; ok && !extra[id] {
			t.Check(e.Critical == want, "critical", "extension %s critical=%v", id, e.Critical)
		}
	}
	crit("2.5.29.15", true)
	crit("2.5.29.19", true)
	crit("2.5.29.14", false)
	crit("2.5.29.35", false)
	crit("2.5.29.37", false)
	crit("1.3.6.1.5.5.7.1.1", false)
	crit("2.5.29.31", false)
	crit("2.5.29.17", bytes.Equal(got.RawSubject, []byte{0x30, 0}))
	crit("2.5.29.30", tpl.PermittedDNSDomainsCritical)
}

// checkCreated applies all oracles to a created certificate.
func checkCreated(t *engine.T, der []byte, tpl, parent *x509.Certificate, signer xkey, subject any, alg x509.SignatureAlgorithm) *x509.Certificate {
	c, err := x509.ParseCertificate(der)
	t.Check(err == nil, "parse", "created certificate does not parse: %v: %x", err, der)
	t.Step(1)
	spki, err := x509.MarshalPKIXPublicKey(subject)
	t.Check(err == nil, "spki", "%v", err)
	t.Check(bytes.Equal(c.RawSubjectPublicKeyInfo, spki) && pubEqual(c.PublicKey, subject), "public-key", "public key %v in the certificate", c.PublicKey)
	bits := ref.Parse(spki, 0)[0].At(1).Body[1:]
	if d := diffViews(certView(c), c11Expect(tpl, parent, bits, c)); d != "" {
		t.Fail("field", "parsed certificate has %s: %x", d, der)
	}
	checkExtSet(t, tpl, c)
	n := ref.Parse(der, 0)
	t.Check(len(n) == 1 && len(n[0].Children) == 3, "structure", "certificate structure: %x", der)
	t.Check(bytes.Equal(c.Raw, der) && bytes.Equal(c.RawTBSCertificate, n[0].Children[0].Raw), "raw", "Raw parts differ from the encoding")
	t.Check(bytes.Equal(n[0].Children[1].Raw, n[0].Children[0].At(2).Raw), "algorithm", "inner and outer algorithms differ")
	t.Check(c.SignatureAlgorithm == alg, "algorithm", "signature algorithm %v instead of %v", c.SignatureAlgorithm, alg)
	t.Check(xverify(signer.pub, alg, n[0].Children[0].Raw, n[0].Children[2].Body[1:]), "signature", "signature by %s is not valid: %x", signer.name, der)
	std, err := stdx509.ParseCertificate(swapSPKI(der))
	t.Check(err == nil, "std", "crypto/x509 cannot parse the certificate: %v: %x", err, der)
	if d := diffViews(certView(c), stdView(std)); d != "" {
		t.Fail("std", "compared with crypto/x509 it has %s: %x", d, der)
	}
	return c
}

func c11Fields(t *engine.T) {
	ki := t.Pick("signer", 4)
	rel := t.Pick("relation", 2)
	tpl := leafTemplate("leaf", 77)
	var picks []string
	for _, m := range c11Mods {
		if v := t.Choose(m.name, m.n+1); v > 0 {
			m.f(tpl, v-1)
			picks = append(picks, fmt.Sprintf("%s%d", m.name, v))
		}
	}
	t.Begin()
	signer := xkeyOf(ki)
	r := kit.NewRand("c11")
	parent := tpl
	subject := signer.pub
	if rel == 1 {
		parent = caTemplate("parent", 1)
		parent.PublicKey = signer.pub
		subject = xkeyOf([]int{1, 0, 7, 0}[ki]).pub
	}
	der, err := x509.CreateCertificate(r, tpl, parent, subject, signer.s)
	t.Check(err == nil, "create", "CreateCertificate(%v): %v", picks, err)
	t.Step(1)
	c := checkCreated(t, der, tpl, parent, signer, subject, signer.def)
	t.State("%v %v", certView(c)[:22], picks)
	t.Outcome("%s rel %d %v", signer.name, rel, picks)
}

func c11Usage(t *engine.T) {
	kind := t.Pick("kind", 2)
	n := t.Pick("set", 15)
	t.Begin()
	if kind == 0 && n >= 8 {
		return
	}
	signer := xkeyOf(3) // cheapest
	try := func(tpl *x509.Certificate) {
		der, err := x509.CreateCertificate(kit.NewRand("u"), tpl, tpl, signer.pub, signer.s)
		t.Check(err == nil, "create", "%v", err)
		c, err := x509.ParseCertificate(der)
		t.Step(2)
		t.Check(err == nil, "parse", "%v", err)
		t.Check(c.KeyUsage == tpl.KeyUsage, "key-usage", "key usage %09b became %09b", tpl.KeyUsage, c.KeyUsage)
		t.Check(fmt.Sprint(c.ExtKeyUsage) == fmt.Sprint(tpl.ExtKeyUsage), "ext-key-usage", "extended key usage %v became %v", tpl.ExtKeyUsage, c.ExtKeyUsage)
		s, err := stdx509.ParseCertificate(der)
		t.Check(err == nil && int(s.KeyUsage) == int(tpl.KeyUsage) && fmt.Sprint(stdEkuInts(s.ExtKeyUsage)) == fmt.Sprint(ekuInts(tpl.ExtKeyUsage)), "std", "crypto/x509 reads other usages: %v", err)
	}
	if kind == 0 {
		for v := n * 64; v < n*64+64; v++ {
			tpl := leafTemplate("ku", 5)
			tpl.KeyUsage = 0
			for b := range kuNames {
				if v>>b&1 == 1 {
					tpl.KeyUsage |= kuNames[b]
				}
			}
			try(tpl)
			t.State("ku %d", v)
		}
	} else {
		for a := 0; a < 15; a++ {
			for b := 0; b < 15; b++ {
				tpl := leafTemplate("eku", 6)
				for _, x := range []int{n, a, b} {
					if x < len(ekuNames) {
						tpl.ExtKeyUsage = append(tpl.ExtKeyUsage, ekuNames[x].lib)
					}
				}
				try(tpl)
				t.State("eku %v", tpl.ExtKeyUsage)
			}
		}
	}
	t.Outcome("kind %d block %d", kind, n)
}

var allSigAlgs = []x509.SignatureAlgorithm{x509.UnknownSignatureAlgorithm, x509.MD5WithRSA, x509.SHA1WithRSA, x509.SHA256WithRSA, x509.SHA384WithRSA, x509.SHA512WithRSA, x509.DSAWithSHA1, x509.DSAWithSHA256,
	x509.ECDSAWithSHA1, x509.ECDSAWithSHA256, x509.ECDSAWithSHA384, x509.ECDSAWithSHA512, x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS, x509.PureEd25519, x509.SM2WithSM3, x509.SM2WithSM3 + 1, x509.SignatureAlgorithm(99), x509.SignatureAlgorithm(-1)}

func c11Signers(t *engine.T) {
	si := t.Pick("signer", numXKeys)
	ki := t.Pick("subject", numXKeys)
	ai := t.Pick("algorithm", len(allSigAlgs))
	t.Begin()
	signer := xkeyOf(si)
	sub := xkeyOf(100 + ki)
	alg := allSigAlgs[ai]
	tpl := leafTemplate("leaf", 12)
	tpl.SignatureAlgorithm = alg
	parent := caTemplate("ca", 3)
	caDER, err := x509.CreateCertificate(kit.NewRand("ca"), parent, parent, signer.pub, signer.s)
	t.Check(err == nil, "create", "self-signed CA by %s: %v", signer.name, err)
	ca, err := x509.ParseCertificate(caDER)
	t.Check(err == nil, "parse", "%v", err)
	der, err := x509.CreateCertificate(kit.NewRand("leaf"), tpl, ca, sub.pub, signer.s)
	t.Step(3)
	fits := alg == 0
	for _, a := range signer.algs {
		fits = fits || a == alg
	}
	signOnly := signer.name == "RSA" && (alg == x509.MD5WithRSA || alg == x509.SHA1WithRSA) || len(signer.algs) == 3 && alg == x509.ECDSAWithSHA1
	if !fits && !signOnly {
		t.Check(err != nil && der == nil, "wrong-algorithm", "%s key signed a certificate with %v", signer.name, alg)
		t.Outcome("%s/%v refused", signer.name, alg)
		return
	}
	if signOnly {
		if err == nil {
			c, err := x509.ParseCertificate(der)
			t.Check(err == nil && c.SignatureAlgorithm == alg, "algorithm", "%v", err)
			t.Check(c.CheckSignatureFrom(ca) != nil, "insecure", "%v accepted for verification", alg)
		}
		t.Outcome("%s/%v sign only: created=%v", signer.name, alg, err == nil)
		return
	}
	t.Check(err == nil, "create", "%s signing %s with %v: %v", signer.name, sub.name, alg, err)
	want := alg
	if alg == 0 {
		want = signer.def
	}
	c := checkCreated(t, der, tpl, ca, signer, sub.pub, want)
	t.Check(c.CheckSignatureFrom(ca) == nil && ca.CheckSignatureFrom(ca) == nil, "verify", "issued certificate is not accepted: %v", c.CheckSignatureFrom(ca))
	t.Check(c.CheckSignature(want, c.RawTBSCertificate, c.Signature) != nil, "verify", "leaf key accepted its issuer's signature")
	if signer.sm2() == nil && sub.sm2() == nil {
		sc, e1 := stdx509.ParseCertificate(der)
		sca, e2 := stdx509.ParseCertificate(caDER)
		t.Check(e1 == nil && e2 == nil, "std", "%v %v", e1, e2)
		t.Check(sc.CheckSignatureFrom(sca) == nil, "std", "crypto/x509 rejects it: %v", sc.CheckSignatureFrom(sca))
	}
	t.Outcome("%s->%s %v ok", signer.name, sub.name, alg)
}

// badSigner misbehaves.
type badSigner struct {
	crypto.Signer
	mode  int
	other crypto.Signer
}

var errSigner = errors.New("signer failed")

func (b *badSigner) Sign(r io.Reader, msg []byte, opts crypto.SignerOpts) ([]byte, error) {
	good, err := b.Signer.Sign(r, msg, opts)
	if err != nil {
		return nil, err
	}
	switch b.mode {
	case 0:
		return nil, errSigner
	case 1:
		return good, errSigner
	case 2:
		return nil, nil
	case 3:
		good[len(good)-1] ^= 1
	case 4:
		good[len(good)/2] ^= 0x40
	case 5:
		m := kit.Clone(msg)
		m[0] ^= 1
		return b.Signer.Sign(r, m, opts)
	case 6:
		return b.other.Sign(r, msg, opts)
	case 7:
		good = good[:len(good)-1]
	case 8:
		return append(good, 0), nil
	case 9:
		return make([]byte, len(good)), nil
	case 10:
		return []byte{0x30, 6, 2, 1, 0, 2, 1, 0}, nil
	case 11:
		m := kit.Clone(msg)
		m[len(m)-1] ^= 0x80
		return b.Signer.Sign(r, m, opts)
	}
	return good, nil
}

// c11Make creates object what (certificate, CRL, revocation list, CSR).
func c11Make(what int, r io.Reader, signer crypto.Signer, pub any) ([]byte, error) {
	switch what {
	case 0:
		tpl := leafTemplate("f", 1)
		return x509.CreateCertificate(r, tpl, tpl, pub, signer)
	case 1:
		ca := caTemplate("f", 1)
		return ca.CreateCRL(r, signer, nil, t2020, t2040)
	case 2:
		return x509.CreateRevocationList(r, &x509.RevocationList{Number: kit.B(1), ThisUpdate: t2020, NextUpdate: t2040}, caTemplate("f", 1), signer)
	default:
		return x509.CreateCertificateRequest(r, &x509.CertificateRequest{Subject: pkix.Name{CommonName: "csr"}}, signer)
	}
}

var makeNames = []string{"CreateCertificate", "CreateCRL", "CreateRevocationList", "CreateCertificateRequest"}

// c11Valid judges an object made by c11Make.
func c11Valid(what int, der []byte, k xkey) bool {
	n := ref.Parse(der, 0)
	if len(n) != 1 || len(n[0].Children) != 3 || len(n[0].Children[2].Body) < 1 {
		return false
	}
	return xverify(k.pub, k.def, n[0].Children[0].Raw, n[0].Children[2].Body[1:])
}

func c11Faults(t *engine.T) {
	what := t.Pick("what", 4)
	ki := t.Pick("key", 4)
	mode := t.Pick("mode", 2)
	n := t.Pick("n", 72)
	t.Begin()
	k := xkeyOf(ki)
	if mode == 0 {
		// the source delivers n bytes and then fails
		der, err := c11Make(what, &kit.Script{Data: kit.Stream("c11f", n)}, k.s, k.pub)
		t.Step(1)
		if err != nil {
			t.Check(der == nil, "fault", "%s returned bytes with error %v", makeNames[what], err)
		} else {
			t.Check(c11Valid(what, der, k), "fault", "%s with a source failing after %d bytes returned an object with a bad signature: %x", makeNames[what], n, der)
		}
		if n == 0 && k.name == "SM2" {
			t.Check(err != nil, "fault", "%s by SM2 succeeded without random bytes", makeNames[what])
		}
		t.Outcome("%s %s after %d bytes: error=%v", makeNames[what], k.name, n, err != nil)
		return
	}
	if n >= 12 {
		return
	}
	b := &badSigner{k.s, n, xkeyOf(100 + ki).s}
	der, err := c11Make(what, kit.NewRand("c11b"), b, k.pub)
	t.Step(1)
	if n <= 1 {
		t.Check(err != nil && der == nil, "signer-error", "%s: the signer's error is lost: %v, %x", makeNames[what], err, der)
	}
	if what == 0 {
		t.Check(err != nil && der == nil, "bad-signature", "CreateCertificate returned a certificate though the %s signer's signature (kind %d) is wrong: %x", k.name, n, der)
	}
	t.Outcome("%s %s signer %d: error=%v", makeNames[what], k.name, n, err != nil)
}

type notSigner struct{}

func c11Refused(t *engine.T) {
	kind := t.Pick("kind", 23)
	ki := t.Pick("key", 4)
	t.Begin()
	k := xkeyOf(ki)
	o := xkeyOf(100 + ki)
	tpl := leafTemplate("r", 4)
	parent := tpl
	var priv any = k.s
	pub := k.pub
	bad := true
	switch kind {
	case 0:
		bad = false
	case 1:
		tpl.SerialNumber = nil
	case 2:
		priv = notSigner{}
	case 3:
		priv = nil
	case 4:
		pub = nil
	case 5:
		pub = "key"
	case 6:
		pub = k.s // a private key
	case 7:
		parent = caTemplate("p", 2)
		parent.PublicKey = o.pub
	case 8:
		parent = caTemplate("p", 2)
		parent.PublicKey = k.pub
		bad = false
	case 9:
		parent = caTemplate("p", 2)
		parent.PublicKey = xkeyOf((ki + 1) % 4).pub
	case 10:
		tpl.BasicConstraintsValid, tpl.MaxPathLen = true, 1
	case 11:
		tpl.BasicConstraintsValid, tpl.MaxPathLenZero = true, true
	case 12:
		tpl.BasicConstraintsValid, tpl.MaxPathLen = true, -2
	case 13:
		tpl.ExtKeyUsage = []x509.ExtKeyUsage{99}
	case 14:
		tpl.DNSNames = []string{"b\u00fccher.example"}
	case 15:
		tpl.EmailAddresses = []string{"\u00fc@example"}
	case 16:
		tpl.PermittedDNSDomains = []string{"\u00fc"}
	case 17:
		tpl.ExcludedEmailAddresses = []string{"\u00fc"}
	case 18:
		tpl.NotAfter = time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)
	case 19:
		tpl.PolicyIdentifiers = []asn1.ObjectIdentifier{{}}
	case 20:
		tpl.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{9}}
	case 21:
		tpl.SignatureAlgorithm = []x509.SignatureAlgorithm{x509.SHA256WithRSA, x509.SM2WithSM3, x509.ECDSAWithSHA256, x509.SM2WithSM3}[ki]
	case 22:
		p := kit.ECDSA(elliptic.P256(), kit.B(3)).PublicKey
		p.Curve = &elliptic.CurveParams{Name: "custom", P: p.Params().P, N: p.Params().N, B: p.Params().B, Gx: p.Params().Gx, Gy: p.Params().Gy, BitSize: 256}
		pub = &ecdsa.PublicKey{Curve: p.Curve, X: p.X, Y: p.Y}
	}
	der, err := x509.CreateCertificate(kit.NewRand("r"), tpl, parent, pub, priv)
	t.Step(1)
	if bad {
		t.Check(err != nil && der == nil, "refused", "argument error %d: err=%v, %d bytes", kind, err, len(der))
	} else {
		t.Check(err == nil, "create", "%v", err)
		checkCreated(t, der, tpl, parent, k, pub, k.def)
	}
	t.Outcome("kind %d %s", kind, k.name)
}

func c11Foreign(t *engine.T) {
	ki := t.Pick("key", 4)
	kind := t.Pick("template", 46)
	t.Begin()
	var der []byte
	if kind >= 40 {
		der = c11HandMade(kind - 40)
	} else {
		k := xkeyOf([]int{4, 1, 2, 3}[ki])
		tpl := &stdx509.Certificate{SerialNumber: kit.B(5), Subject: pkix.Name{CommonName: "std"}, NotBefore: t2020, NotAfter: t2040}
		src := leafTemplate("std", 1)
		i := 0
		for _, m := range c11Mods {
			for v := 0; v < m.n && v < 2; v++ {
				if i%40 == kind {
					m.f(src, v)
				}
				i++
			}
		}
		tpl.SerialNumber, tpl.Subject, tpl.RawSubject, tpl.NotBefore, tpl.NotAfter = src.SerialNumber, src.Subject, src.RawSubject, src.NotBefore, src.NotAfter
		if tpl.SerialNumber.Sign() == 0 {
			tpl.SerialNumber = kit.B(1)
		}
		tpl.KeyUsage = stdx509.KeyUsage(src.KeyUsage)
		for _, e := range ekuInts(src.ExtKeyUsage) {
			tpl.ExtKeyUsage = append(tpl.ExtKeyUsage, ekuNames[e].std)
		}
		tpl.UnknownExtKeyUsage, tpl.BasicConstraintsValid, tpl.IsCA, tpl.MaxPathLen, tpl.MaxPathLenZero = src.UnknownExtKeyUsage, src.BasicConstraintsValid, src.IsCA, src.MaxPathLen, src.MaxPathLenZero
		tpl.SubjectKeyId, tpl.AuthorityKeyId, tpl.OCSPServer, tpl.IssuingCertificateURL = src.SubjectKeyId, src.AuthorityKeyId, src.OCSPServer, src.IssuingCertificateURL
		tpl.DNSNames, tpl.EmailAddresses, tpl.IPAddresses, tpl.URIs = src.DNSNames, src.EmailAddresses, src.IPAddresses, src.URIs
		tpl.PermittedDNSDomains, tpl.ExcludedDNSDomains, tpl.PermittedDNSDomainsCritical = src.PermittedDNSDomains, src.ExcludedDNSDomains, src.PermittedDNSDomainsCritical
		tpl.PermittedIPRanges, tpl.ExcludedIPRanges, tpl.PermittedEmailAddresses, tpl.ExcludedEmailAddresses = src.PermittedIPRanges, src.ExcludedIPRanges, src.PermittedEmailAddresses, src.ExcludedEmailAddresses
		tpl.PermittedURIDomains, tpl.ExcludedURIDomains, tpl.CRLDistributionPoints, tpl.PolicyIdentifiers = src.PermittedURIDomains, src.ExcludedURIDomains, src.CRLDistributionPoints, src.PolicyIdentifiers
		tpl.ExtraExtensions = src.ExtraExtensions
		var err error
		der, err = stdx509.CreateCertificate(kit.NewRand("std"), tpl, tpl, k.pub, k.s)
		if err != nil {
			t.Outcome("crypto/x509 refuses template %d", kind)
			return
		}
	}
	s, err := stdx509.ParseCertificate(swapSPKI(der))
	t.Check(err == nil, "harness", "crypto/x509: %v: %x", err, der)
	c, err := x509.ParseCertificate(der)
	t.Step(1)
	t.Check(err == nil, "parse", "certificate by other software does not parse: %v: %x", err, der)
	if d := diffViews(certView(c), stdView(s)); d != "" {
		t.Fail("std", "compared with crypto/x509 it has %s: %x", d, der)
	}
	// several certificates in a row
	l, err := x509.ParseCertificates(append(append(kit.Clone(der), der...), der...))
	t.Check(err == nil && len(l) == 3 && l[1].Equal(c) && l[2].Equal(c), "list", "ParseCertificates: %d, %v", len(l), err)
	_, err = x509.ParseCertificate(append(kit.Clone(der), 0))
	t.Check(err != nil, "trailing", "trailing data accepted")
	t.Outcome("key %d template %d", ki, kind)
}

func c11HandMade(kind int) []byte {
	spki := sm2PKIX(kit.PubPoint(kit.Keys[0].D))
	val := ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x18, []byte("20600101000000Z")))
	v := func(n int64) []byte { return ref.Ctx(0, ref.Int(n)) }
	var tbs []byte
	base := [][]byte{ref.Int(77), sigSM2AI, nameCN("issuer"), val, nameCN("subject"), spki}
	ext := func(id []byte, val []byte) []byte { return ref.Seq(id, ref.Oct(val)) }
	switch kind {
	case 0:
		tbs = ref.Seq(base...)
	case 1:
		tbs = ref.Seq(append([][]byte{v(1)}, append(base, ref.TLV(0x81, []byte{0, 1}), ref.TLV(0x82, []byte{0, 2}))...)...)
	case 2: // UTF8, printable, T61, BMP, IA5 and numeric strings in the subject
		at := func(o []byte, tag byte, s []byte) []byte { return ref.Set(ref.Seq(o, ref.TLV(tag, s))) }
		base[4] = ref.Seq(at(ref.OID(2, 5, 4, 3), 0x0c, []byte("中")), at(ref.OID(2, 5, 4, 10), 0x13, []byte("Org")), at(ref.OID(2, 5, 4, 11), 0x1e, []byte{0x4e, 0x2d}), at(ref.OID(2, 5, 4, 8), 0x16, []byte("ia5")), at(ref.OID(2, 5, 4, 7), 0x12, []byte("12 3")), at(ref.OID(2, 5, 4, 6), 0x13, []byte("CN")))
		tbs = ref.Seq(append([][]byte{v(2)}, base...)...)
	case 3: // multi-valued RDN
		base[4] = ref.Seq(ref.Set(ref.Seq(ref.OID(2, 5, 4, 3), ref.TLV(0x0c, []byte("a"))), ref.Seq(ref.OID(2, 5, 4, 10), ref.TLV(0x0c, []byte("b")))))
		tbs = ref.Seq(append([][]byte{v(2)}, base...)...)
	case 4: // SAN with directory and other names besides DNS; AIA with unknown method; CRLDP with issuer only
		tbs = ref.Seq(append([][]byte{v(2)}, append(base, ref.Ctx(3, ref.Seq(
			ext(ref.OID(2, 5, 29, 17), ref.Seq(ref.TLV(0xa4, nameCN("dir")), ref.TLV(0x82, []byte("x.example")), ref.TLV(0xa0, ref.OID(1, 2, 3), ref.Ctx(0, ref.TLV(0x0c, []byte("o")))))),
			ext(ref.OID(1, 3, 6, 1, 5, 5, 7, 1, 1), ref.Seq(ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 3), ref.TLV(0x86, []byte("http://ts"))), ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 2), ref.TLV(0x82, []byte("dns"))), ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 1), ref.TLV(0x86, []byte("http://o"))))),
			ext(ref.OID(2, 5, 29, 31), ref.Seq(ref.Seq(ref.TLV(0xa2, ref.TLV(0xa4, nameCN("crl issuer")))), ref.Seq(ref.Ctx(0, ref.Ctx(0, ref.TLV(0x86, []byte("http://c"))))))),
		)))...)...)
	case 5: // AKI with issuer and serial, policies with qualifiers
		tbs = ref.Seq(append([][]byte{v(2)}, append(base, ref.Ctx(3, ref.Seq(
			ext(ref.OID(2, 5, 29, 35), ref.Seq(ref.TLV(0x80, []byte("kid")), ref.TLV(0xa1, ref.TLV(0xa4, nameCN("i"))), ref.TLV(0x82, []byte{9}))),
			ext(ref.OID(2, 5, 29, 32), ref.Seq(ref.Seq(ref.OID(1, 2, 3), ref.Seq(ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 2, 1), ref.TLV(0x16, []byte("http://cps"))))), ref.Seq(ref.OID(1, 2, 4)))),
		)))...)...)
	}
	d := kit.Keys[0].D
	r, s, _ := ref.SignK(d, kit.B(4243), ref.Digest(kit.PubPoint(d), nil, tbs))
	return ref.Seq(tbs, sigSM2AI, ref.BitStr(ref.DERSig(r, s)))
}
