package props

import (
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"strings"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

// sizesOf gives the lengths and counts to try: all small ones and those
// around the powers of two and ten, where lengths and counters change their form.
func sizesOf(max int) []int {
	var out []int
	for i := 0; i <= 20; i++ {
		out = append(out, i)
	}
	for p := 32; p <= max; p *= 2 {
		for d := -3; d <= 2; d++ {
			out = append(out, p+d)
		}
	}
	for p := 100; p <= max; p *= 10 {
		for d := -1; d <= 1; d++ {
			out = append(out, p+d)
		}
	}
	return out
}

var c11SizeFields = []struct {
	name string
	max  int
	f    func(c *x509.Certificate, n int)
}{
	{"dns", 1024, func(c *x509.Certificate, n int) {
		c.DNSNames = nil
		for i := 0; i < n; i++ {
			c.DNSNames = append(c.DNSNames, fmt.Sprintf("h%d.example.org", n-i))
		}
	}},
	{"dnsLen", 512, func(c *x509.Certificate, n int) {
		c.DNSNames = []string{"a.example", strings.Repeat("d", n) + ".x"}
	}},
	{"email", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.EmailAddresses = append(c.EmailAddresses, fmt.Sprintf("u%d@example.org", i%7))
		}
	}},
	{"ip", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			if i%3 == 1 {
				c.IPAddresses = append(c.IPAddresses, append(net.IP{0x20, 1}, kit.Stream("ip", 14)...))
			} else {
				c.IPAddresses = append(c.IPAddresses, net.IP{10, byte(i >> 8), byte(i), 1})
			}
		}
	}},
	{"uri", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.URIs = append(c.URIs, &url.URL{Scheme: "http", Host: fmt.Sprintf("h%d.example", n-i), Path: "/p"})
		}
	}},
	{"uriLen", 1024, func(c *x509.Certificate, n int) {
		c.URIs = []*url.URL{{Scheme: "http", Host: "h.example", Path: "/" + strings.Repeat("p", n)}}
	}},
	{"mixed", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.DNSNames = append(c.DNSNames, fmt.Sprintf("h%d.example.org", i))
			c.EmailAddresses = append(c.EmailAddresses, fmt.Sprintf("u%d@example.org", i))
			c.IPAddresses = append(c.IPAddresses, net.IP{1, 2, byte(i >> 8), byte(i)})
		}
	}},
	{"ocsp", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.OCSPServer = append(c.OCSPServer, fmt.Sprintf("http://o%d", i))
		}
	}},
	{"issuing", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.IssuingCertificateURL = append(c.IssuingCertificateURL, fmt.Sprintf("http://i%d", i))
			if i%2 == 0 {
				c.OCSPServer = append(c.OCSPServer, fmt.Sprintf("http://o%d", i))
			}
		}
	}},
	{"crldp", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.CRLDistributionPoints = append(c.CRLDistributionPoints, fmt.Sprintf("http://c/%d", n-i))
		}
	}},
	{"crldpLen", 512, func(c *x509.Certificate, n int) {
		c.CRLDistributionPoints = []string{"http://c/" + strings.Repeat("x", n), "http://d"}
	}},
	{"policies", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.PolicyIdentifiers = append(c.PolicyIdentifiers, asn1.ObjectIdentifier{1, 2, 3, n - i})
		}
	}},
	{"policyOID", 64, func(c *x509.Certificate, n int) {
		o := asn1.ObjectIdentifier{2, 16}
		for i := 0; i < n; i++ {
			o = append(o, i*i*i)
		}
		c.PolicyIdentifiers = []asn1.ObjectIdentifier{o, {1, 2}}
	}},
	{"unknownUsages", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.UnknownExtKeyUsage = append(c.UnknownExtKeyUsage, asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 5, i})
		}
	}},
	{"permDNS", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.PermittedDNSDomains = append(c.PermittedDNSDomains, fmt.Sprintf("p%d.example", n-i))
			if i%2 == 1 {
				c.ExcludedDNSDomains = append(c.ExcludedDNSDomains, fmt.Sprintf("e%d.example", i))
			}
		}
	}},
	{"exclIP", 128, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.ExcludedIPRanges = append(c.ExcludedIPRanges, &net.IPNet{IP: net.IP{10, byte(i), 0, 0}, Mask: net.CIDRMask(16, 32)})
			if i%2 == 1 {
				c.PermittedEmailAddresses = append(c.PermittedEmailAddresses, fmt.Sprintf("m%d.example", i))
				c.ExcludedURIDomains = append(c.ExcludedURIDomains, fmt.Sprintf(".u%d.example", i))
			}
		}
	}},
	{"masks", 32, func(c *x509.Certificate, n int) {
		if n > 32 {
			n = 32
		}
		m := net.CIDRMask(n, 32)
		m6 := net.CIDRMask(4*n, 128)
		c.PermittedIPRanges = []*net.IPNet{{IP: net.IP{172, 31, 200, 77}.Mask(m), Mask: m}}
		c.ExcludedIPRanges = []*net.IPNet{{IP: net.IP(kit.Stream("v6", 16)).Mask(m6), Mask: m6}}
	}},
	{"extensions", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: oid(1, 2, 3, n-i), Value: []byte{5, 0}})
		}
	}},
	{"extensionLen", 1 << 17, func(c *x509.Certificate, n int) {
		c.ExtraExtensions = []pkix.Extension{{Id: oid(1, 2, 3, 4), Value: kit.Stream("x", n)}}
	}},
	{"cn", 1 << 17, func(c *x509.Certificate, n int) { c.Subject.CommonName = strings.Repeat("n", n) }},
	{"cnWide", 4096, func(c *x509.Certificate, n int) { c.Subject.CommonName = strings.Repeat("\u56fd", n) }},
	{"organisations", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.Subject.Organization = append(c.Subject.Organization, fmt.Sprintf("o%d", i))
		}
	}},
	{"extraNames", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.Subject.ExtraNames = append(c.Subject.ExtraNames, pkix.AttributeTypeAndValue{Type: oid(1, 2, 3, i), Value: fmt.Sprint(i)})
		}
	}},
	{"ski", 256, func(c *x509.Certificate, n int) { c.SubjectKeyId = kit.Stream("ski", n) }},
	{"aki", 256, func(c *x509.Certificate, n int) { c.AuthorityKeyId = kit.Stream("aki", n) }},
	{"serialBits", 2048, func(c *x509.Certificate, n int) {
		c.SerialNumber = new(big.Int).Lsh(ref.One, uint(n))
	}},
	{"serialOnes", 2048, func(c *x509.Certificate, n int) {
		c.SerialNumber = new(big.Int).Sub(new(big.Int).Lsh(ref.One, uint(n)), ref.One)
	}},
	{"pathLen", 1 << 16, func(c *x509.Certificate, n int) {
		c.BasicConstraintsValid, c.IsCA, c.MaxPathLen, c.MaxPathLenZero = true, true, n, n == 0
	}},
	{"notBefore", 1 << 12, func(c *x509.Certificate, n int) {
		c.NotBefore = time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(n) * 86399 * time.Second)
		c.NotAfter = time.Date(2049, 12, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(n) * 86399 * time.Second)
	}},
}

// c11ParentFields are those of the parent.
var c11ParentFields = []struct {
	name string
	max  int
	f    func(c *x509.Certificate, n int)
}{
	{"parent ski", 256, func(c *x509.Certificate, n int) { c.SubjectKeyId = kit.Stream("ski", n) }},
	{"parent cn", 1 << 17, func(c *x509.Certificate, n int) { c.Subject.CommonName = strings.Repeat("n", n) }},
	{"parent cnWide", 4096, func(c *x509.Certificate, n int) { c.Subject.CommonName = strings.Repeat("\u56fd", n) }},
	{"parent organisations", 1024, func(c *x509.Certificate, n int) {
		for i := 0; i < n; i++ {
			c.Subject.Organization = append(c.Subject.Organization, fmt.Sprintf("o%d", n-i))
		}
	}},
	{"parent raw subject", 1 << 12, func(c *x509.Certificate, n int) {
		c.RawSubject = ref.Seq(ref.Set(ref.Seq(ref.OID(2, 5, 4, 3), ref.TLV(0x0c, []byte(strings.Repeat("r", n))))))
	}},
}

func c11Sizes(t *engine.T) {
	fi := t.Pick("field", len(c11SizeFields)+len(c11ParentFields))
	ki := t.Pick("signer", 2)
	t.Begin()
	ofParent := fi >= len(c11SizeFields)
	f := c11ParentFields[0]
	if ofParent {
		f = c11ParentFields[fi-len(c11SizeFields)]
	} else {
		f = c11SizeFields[fi]
	}
	n := 0
	for _, v := range sizesOf(f.max) {
		tpl := leafTemplate("leaf", 77)
		k := xkeyOf(ki)
		parent := caTemplate("parent", 1)
		if ofParent {
			f.f(parent, v)
		} else {
			f.f(tpl, v)
		}
		parent.PublicKey = k.pub
		der, err := x509.CreateCertificate(kit.NewRand("size"), tpl, parent, xkeyOf(1-ki).pub, k.s)
		t.Check(err == nil, "create", "CreateCertificate with %s of size %d: %v", f.name, v, err)
		t.Step(1)
		checkCreated(t, der, tpl, parent, k, xkeyOf(1-ki).pub, k.def)
		n++
	}
	t.Outcome("%s: %d sizes by %s", f.name, n, xkeyOf(ki).name)
}

var c13SizeFields = []struct {
	name string
	max  int
	f    func(c *x509.CertificateRequest, n int)
}{
	{"dns", 1024, func(c *x509.CertificateRequest, n int) {
		c.DNSNames = nil
		for i := 0; i < n; i++ {
			c.DNSNames = append(c.DNSNames, fmt.Sprintf("h%d.example.org", n-i))
		}
	}},
	{"dnsLen", 1024, func(c *x509.CertificateRequest, n int) {
		c.DNSNames = []string{"a.example", strings.Repeat("d", n) + ".x"}
	}},
	{"mixed", 1024, func(c *x509.CertificateRequest, n int) {
		for i := 0; i < n; i++ {
			c.DNSNames = append(c.DNSNames, fmt.Sprintf("h%d.example.org", i))
			c.EmailAddresses = append(c.EmailAddresses, fmt.Sprintf("u%d@example.org", i))
			c.IPAddresses = append(c.IPAddresses, net.IP{1, 2, byte(i >> 8), byte(i)})
			c.URIs = append(c.URIs, &url.URL{Scheme: "http", Host: fmt.Sprintf("h%d.example", i)})
		}
	}},
	{"cn", 1 << 17, func(c *x509.CertificateRequest, n int) { c.Subject.CommonName = strings.Repeat("n", n) }},
	{"organisations", 1024, func(c *x509.CertificateRequest, n int) {
		for i := 0; i < n; i++ {
			c.Subject.Organization = append(c.Subject.Organization, fmt.Sprintf("o%d", i))
		}
	}},
	{"extensions", 1024, func(c *x509.CertificateRequest, n int) {
		for i := 0; i < n; i++ {
			c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: oid(1, 2, 3, n-i), Value: []byte{5, 0}})
		}
	}},
	{"extensionLen", 1 << 17, func(c *x509.CertificateRequest, n int) {
		c.ExtraExtensions = []pkix.Extension{{Id: oid(1, 2, 3, 4), Value: kit.Stream("x", n)}}
	}},
}

func c13Sizes(t *engine.T) {
	fi := t.Pick("field", len(c13SizeFields))
	ki := t.Pick("signer", 2)
	t.Begin()
	f := c13SizeFields[fi]
	n := 0
	for _, v := range sizesOf(f.max) {
		tpl := csrTemplate()
		f.f(tpl, v)
		k := xkeyOf(ki)
		der, err := x509.CreateCertificateRequest(kit.NewRand("size"), tpl, k.s)
		t.Check(err == nil, "create", "CreateCertificateRequest with %s of size %d: %v", f.name, v, err)
		t.Step(1)
		checkCSR(t, der, tpl, k, k.def)
		n++
	}
	t.Outcome("%s: %d sizes by %s", f.name, n, xkeyOf(ki).name)
}

var c14SizeFields = []struct {
	name string
	max  int
	f    func(s *crlSpec, n int)
}{
	{"revoked", 10000, func(s *crlSpec, n int) {
		s.revoked = nil
		for i := 0; i < n; i++ {
			s.revoked = append(s.revoked, pkix.RevokedCertificate{SerialNumber: kit.B(int64(i*7919%n + 1)), RevocationTime: t2020.Add(time.Duration(i*37%100) * time.Hour).In([]*time.Location{time.UTC, time.FixedZone("e", 5*3600+1800), time.FixedZone("w", -8*3600)}[(i+n)%3])})
		}
	}},
	{"serials", 512, func(s *crlSpec, n int) {
		s.revoked = []pkix.RevokedCertificate{{SerialNumber: new(big.Int).Lsh(ref.One, uint(n)), RevocationTime: t2020}, {SerialNumber: new(big.Int).Sub(new(big.Int).Lsh(ref.One, uint(n)), ref.One), RevocationTime: t2020}}
	}},
	{"entryExtensions", 64, func(s *crlSpec, n int) {
		var e []pkix.Extension
		for i := 0; i < n; i++ {
			e = append(e, pkix.Extension{Id: oid(1, 2, 3, n-i), Critical: i%3 == 0, Value: []byte{5, 0}})
		}
		s.revoked = []pkix.RevokedCertificate{{SerialNumber: kit.B(1), RevocationTime: t2020, Extensions: e}, {SerialNumber: kit.B(2), RevocationTime: t2020}}
	}},
	{"revTimes", 1 << 12, func(s *crlSpec, n int) {
		s.revoked = []pkix.RevokedCertificate{{SerialNumber: kit.B(1), RevocationTime: time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(n) * 86399 * time.Second)}, {SerialNumber: kit.B(2), RevocationTime: time.Date(2049, 12, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(n) * 86399 * time.Second)}}
	}},
	{"number", 160, func(s *crlSpec, n int) { s.number = new(big.Int).Lsh(ref.One, uint(n)) }},
	{"extra", 1024, func(s *crlSpec, n int) {
		s.extra = nil
		for i := 0; i < n; i++ {
			s.extra = append(s.extra, pkix.Extension{Id: oid(1, 2, 3, n-i), Value: []byte{5, 0}})
		}
	}},
	{"extraLen", 1 << 17, func(s *crlSpec, n int) {
		s.extra = []pkix.Extension{{Id: oid(1, 2, 3, 4), Value: kit.Stream("x", n)}}
	}},
	{"ski", 256, func(s *crlSpec, n int) { s.issuer.SubjectKeyId = kit.Stream("ski", n+1) }},
	{"cn", 1 << 17, func(s *crlSpec, n int) { s.issuer.Subject.CommonName = strings.Repeat("n", n) }},
}

func c14Sizes(t *engine.T) {
	fi := t.Pick("field", len(c14SizeFields))
	ki := t.Pick("signer", 2)
	fn := t.Pick("function", 2)
	t.Begin()
	f := c14SizeFields[fi]
	n := 0
	for _, v := range sizesOf(f.max) {
		s := c14Spec()
		f.f(s, v)
		k := xkeyOf(ki)
		der, err := c14Make(t, fn, s, k, 0, "size")
		t.Check(err == nil, "create", "function %d with %s of size %d: %v", fn, f.name, v, err)
		c14Check(t, der, s, k, k.def, fn == 0)
		n++
	}
	t.Outcome("%s: %d sizes by %s, function %d", f.name, n, xkeyOf(ki).name, fn)
}
