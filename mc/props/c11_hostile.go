package props

import (
	"bytes"
	"fmt"
	"net"
	"net/url"
	"time"
	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"crypto/x509/pkix"
	"encoding/asn1"

	"github.com/mmdet/mcrypto/x509"
)

// Templates with values that may have no faithful encoding: each is refused,
// or gives a readable object with exactly the template's values.

var c11Odd = []string{"", ".", "a b", "a\x00b", "\x7f", "\u00fc", "\xff", "a@b", "@", "a..b", "192.0.2.1", "http://[::1", "\r\nX: y"}

func c11OIDs(v int) asn1.ObjectIdentifier {
	return []asn1.ObjectIdentifier{nil, {}, {1}, {0, 0}, {0, 39}, {0, 40}, {1, 39}, {1, 40}, {2, 39}, {2, 40}, {2, 47}, {2, 48}, {2, 999}, {3, 1}, {1, 2, 0}, {1, 2, 127}, {1, 2, 128}, {1, 2, 16383}, {1, 2, 16384}, {1, 2, 1<<31 - 1}, {2, 1<<31 - 1}, {1, 2, 1 << 31}, {1, 2, 1 << 40}}[v]
}

const c11NumOIDs = 23

var c11HostileMods = []mod{
	{"dns", 13, func(c *x509.Certificate, v int) { c.DNSNames = []string{"ok.example", c11Odd[v]} }},
	{"email", 13, func(c *x509.Certificate, v int) { c.EmailAddresses = []string{c11Odd[v], "ok@x"} }},
	{"ip", 34, func(c *x509.Certificate, v int) { c.IPAddresses = []net.IP{kit.Stream("ip", v)} }},
	{"ip4in6", 1, func(c *x509.Certificate, v int) { c.IPAddresses = []net.IP{net.ParseIP("::ffff:1.2.3.4")} }},
	{"uri", 13, func(c *x509.Certificate, v int) {
		u, err := url.Parse("http://" + c11Odd[v] + "/")
		if err != nil {
			u = &url.URL{Scheme: "http", Host: c11Odd[v], Path: "/"}
		}
		c.URIs = []*url.URL{u}
	}},
	{"uriOpaque", 13, func(c *x509.Certificate, v int) { c.URIs = []*url.URL{{Scheme: "urn", Opaque: c11Odd[v]}} }},
	{"permDNS", 13, func(c *x509.Certificate, v int) { c.PermittedDNSDomains = []string{c11Odd[v]} }},
	{"exclDNS", 13, func(c *x509.Certificate, v int) { c.ExcludedDNSDomains = []string{c11Odd[v]} }},
	{"permEmail", 13, func(c *x509.Certificate, v int) { c.PermittedEmailAddresses = []string{c11Odd[v]} }},
	{"exclEmail", 13, func(c *x509.Certificate, v int) { c.ExcludedEmailAddresses = []string{c11Odd[v]} }},
	{"permURI", 13, func(c *x509.Certificate, v int) { c.PermittedURIDomains = []string{c11Odd[v]} }},
	{"exclURI", 13, func(c *x509.Certificate, v int) { c.ExcludedURIDomains = []string{c11Odd[v]} }},
	{"permIP", 10, func(c *x509.Certificate, v int) { c.PermittedIPRanges = []*net.IPNet{c11Net(v)} }},
	{"exclIP", 10, func(c *x509.Certificate, v int) { c.ExcludedIPRanges = []*net.IPNet{c11Net(v)} }},
	{"ocsp", 13, func(c *x509.Certificate, v int) { c.OCSPServer = []string{c11Odd[v]} }},
	{"issuing", 13, func(c *x509.Certificate, v int) { c.IssuingCertificateURL = []string{c11Odd[v]} }},
	{"crldp", 13, func(c *x509.Certificate, v int) { c.CRLDistributionPoints = []string{"http://a", c11Odd[v]} }},
	{"policies", c11NumOIDs, func(c *x509.Certificate, v int) { c.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3}, c11OIDs(v)} }},
	{"unknownUsage", c11NumOIDs, func(c *x509.Certificate, v int) {
		c.UnknownExtKeyUsage = []asn1.ObjectIdentifier{c11OIDs(v), {1, 2, 3}}
	}},
	{"extraId", c11NumOIDs, func(c *x509.Certificate, v int) {
		c.ExtraExtensions = []pkix.Extension{{Id: c11OIDs(v), Value: []byte{5, 0}}}
	}},
	{"nameId", c11NumOIDs, func(c *x509.Certificate, v int) {
		c.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: c11OIDs(v), Value: "v"}}
	}},
	{"nameValue", 12, func(c *x509.Certificate, v int) {
		c.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 4, 12), Value: c11Values[v]}}
	}},
	{"cn", 13, func(c *x509.Certificate, v int) { c.Subject.CommonName = c11Odd[v] }},
	{"keyUsage", 8, func(c *x509.Certificate, v int) {
		c.KeyUsage = []x509.KeyUsage{1 << 9, 1 << 10, 1 << 15, 1 << 16, 1<<9 | 1, 1 << 30, -1, -512}[v]
	}},
	{"extKeyUsage", 5, func(c *x509.Certificate, v int) {
		c.ExtKeyUsage = []x509.ExtKeyUsage{[]x509.ExtKeyUsage{-1, 14, 15, 255, 1 << 30}[v], x509.ExtKeyUsageAny}
	}},
	{"pathLen", 14, func(c *x509.Certificate, v int) {
		c.BasicConstraintsValid, c.IsCA = true, v < 12
		c.MaxPathLen = []int{-2, -1, 0, 1, 127, 128, -3, -128, -129, -1 << 31, 1<<31 - 1, 1 << 40, -1, -2}[v]
		c.MaxPathLenZero = v%2 == 1 && c.MaxPathLen == 0
	}},
	{"serial", 6, func(c *x509.Certificate, v int) {
		c.SerialNumber = kit.B(1)
		switch v {
		case 0:
			c.SerialNumber = kit.B(-1)
		case 1:
			c.SerialNumber = kit.B(-128)
		case 2:
			c.SerialNumber = kit.B(-129)
		case 3:
			c.SerialNumber.Lsh(c.SerialNumber, 2048)
		case 4:
			c.SerialNumber.Lsh(c.SerialNumber, 5000).Neg(c.SerialNumber)
		case 5:
			c.SerialNumber = nil
		}
	}},
	{"time", 24, func(c *x509.Certificate, v int) {
		tm := c11Times[v/2]
		if v%2 == 0 {
			c.NotBefore = tm
		} else {
			c.NotAfter = tm
		}
	}},
	{"rawSubject", 5, func(c *x509.Certificate, v int) {
		c.RawSubject = [][]byte{{5, 0}, {0x30, 1}, {0x30, 0, 0}, {0x31, 0}, {0x30, 2, 0x31, 0}}[v]
	}},
	{"version", 3, func(c *x509.Certificate, v int) { c.Version = []int{1, 2, 7}[v] }},
}

func c11Net(v int) *net.IPNet {
	switch v {
	case 0:
		return &net.IPNet{IP: net.IP{10, 0, 0, 0}, Mask: net.IPMask{255, 0, 255, 0}}
	case 1:
		return &net.IPNet{IP: net.IP{10, 0, 0, 0}}
	case 2:
		return &net.IPNet{Mask: net.CIDRMask(8, 32)}
	case 3:
		return &net.IPNet{IP: net.IP{10, 0, 0, 0}, Mask: net.CIDRMask(8, 128)}
	case 4:
		return &net.IPNet{IP: net.ParseIP("2001:db8::"), Mask: net.CIDRMask(8, 32)}
	case 5:
		return &net.IPNet{IP: net.IP{1, 2, 3}, Mask: net.IPMask{255, 0, 0}}
	case 6:
		return &net.IPNet{IP: net.ParseIP("10.0.0.0"), Mask: net.CIDRMask(8, 32)}
	case 7:
		return &net.IPNet{IP: net.ParseIP("10.0.0.0"), Mask: net.CIDRMask(104, 128)}
	case 8:
		return &net.IPNet{}
	}
	return &net.IPNet{IP: net.IP{10, 0, 0, 0}, Mask: net.IPMask{0, 0, 0, 1}}
}

func c11Hostile(t *engine.T) {
	mi := t.Pick("field", len(c11HostileMods))
	v := t.Pick("value", c11HostileMods[mi].n)
	t.Begin()
	m := c11HostileMods[mi]
	k := xkeyOf(3)
	tpl := leafTemplate("h", 4)
	m.f(tpl, v)
	der, err := x509.CreateCertificate(kit.NewRand("h"), tpl, tpl, k.pub, k.s)
	t.Step(1)
	if err != nil {
		t.Check(der == nil, "refused", "error %v and %d bytes", err, len(der))
		t.Outcome("%s %d refused", m.name, v)
		return
	}
	c, err := x509.ParseCertificate(der)
	t.Step(1)
	t.Check(err == nil, "unreadable", "a certificate made with %s value %d is not readable: %v: %x", m.name, v, err, der)
	if d := diffViews(certView(c), c11Expect(tpl, tpl, ref.Parse(c.RawSubjectPublicKeyInfo, 0)[0].At(1).Body[1:], c)); d != "" {
		t.Fail("field", "the certificate made with %s value %d has %s: %x", m.name, v, d, der)
	}
	t.Check(bytes.Equal(c.Raw, der), "raw", "Raw")
	t.Outcome("%s %d made", m.name, v)
}

func c13Hostile(t *engine.T) {
	mi := t.Pick("field", len(c13HostileMods))
	v := t.Pick("value", c13HostileMods[mi].n)
	t.Begin()
	m := c13HostileMods[mi]
	k := xkeyOf(3)
	tpl := csrTemplate()
	m.f(tpl, v)
	der, err := x509.CreateCertificateRequest(kit.NewRand("h"), tpl, k.s)
	t.Step(1)
	if err != nil {
		t.Check(der == nil, "refused", "error %v and %d bytes", err, len(der))
		t.Outcome("%s %d refused", m.name, v)
		return
	}
	c, err := x509.ParseCertificateRequest(der)
	t.Step(1)
	t.Check(err == nil, "unreadable", "a request made with %s value %d is not readable: %v: %x", m.name, v, err, der)
	if m.name != "rawSAN" {
		_, dns, mail, ip, uri := c13Exts(tpl)
		t.Check(fmt.Sprintf("%q %q", c.DNSNames, c.EmailAddresses) == fmt.Sprintf("%q %q", dns, mail) && ips(c.IPAddresses) == ip && uris(c.URIs) == uri, "names", "the request made with %s value %d has names %q %q %v %v instead of %q %q %v %v", m.name, v, c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs, dns, mail, ip, uri)
	} else {
		t.Check(len(c.DNSNames)+len(c.EmailAddresses)+len(c.IPAddresses)+len(c.URIs) == 0, "names", "names from nowhere")
	}
	t.Check(c.CheckSignature() == nil, "verify", "the request made with %s value %d is refused: %v", m.name, v, c.CheckSignature())
	t.Outcome("%s %d made", m.name, v)
}

var c13HostileMods = []struct {
	name string
	n    int
	f    func(c *x509.CertificateRequest, v int)
}{
	{"dns", 13, func(c *x509.CertificateRequest, v int) { c.DNSNames = []string{c11Odd[v], "ok"} }},
	{"email", 13, func(c *x509.CertificateRequest, v int) { c.EmailAddresses = []string{c11Odd[v]} }},
	{"ip", 34, func(c *x509.CertificateRequest, v int) { c.IPAddresses = []net.IP{kit.Stream("ip", v)} }},
	{"uri", 13, func(c *x509.CertificateRequest, v int) {
		d := &x509.Certificate{}
		c11HostileMods[4].f(d, v)
		c.URIs = d.URIs
	}},
	{"uriOpaque", 13, func(c *x509.CertificateRequest, v int) { c.URIs = []*url.URL{{Scheme: "urn", Opaque: c11Odd[v]}} }},
	{"extraId", c11NumOIDs, func(c *x509.CertificateRequest, v int) {
		c.ExtraExtensions = []pkix.Extension{{Id: c11OIDs(v), Value: []byte{5, 0}}}
	}},
	{"attrId", c11NumOIDs, func(c *x509.CertificateRequest, v int) {
		c.Attributes = []pkix.AttributeTypeAndValueSET{{Type: c11OIDs(v), Value: [][]pkix.AttributeTypeAndValue{{{Type: oid(1, 2, 3), Value: "x"}}}}}
	}},
	{"attrValueId", c11NumOIDs, func(c *x509.CertificateRequest, v int) {
		c.Attributes = []pkix.AttributeTypeAndValueSET{{Type: oidExtReq, Value: [][]pkix.AttributeTypeAndValue{{{Type: c11OIDs(v), Value: []byte("x")}}}}}
	}},
	{"attrValue", 12, func(c *x509.CertificateRequest, v int) {
		c.Attributes = []pkix.AttributeTypeAndValueSET{{Type: oid(1, 2, 3), Value: [][]pkix.AttributeTypeAndValue{{{Type: oid(1, 2, 4), Value: c11Values[v]}}}}}
	}},
	{"extReqValue", 12, func(c *x509.CertificateRequest, v int) {
		c.Attributes = []pkix.AttributeTypeAndValueSET{{Type: oidExtReq, Value: [][]pkix.AttributeTypeAndValue{{{Type: oid(1, 2, 4), Value: c11Values[v]}}}}}
		c.DNSNames = []string{"x"}
	}},
	{"nameId", c11NumOIDs, func(c *x509.CertificateRequest, v int) {
		c.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: c11OIDs(v), Value: "v"}}
	}},
	{"nameValue", 12, func(c *x509.CertificateRequest, v int) {
		c.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 4, 12), Value: c11Values[v]}}
	}},
	{"rawSubject", 5, func(c *x509.CertificateRequest, v int) {
		c.RawSubject = [][]byte{{5, 0}, {0x30, 1}, {0x30, 0, 0}, {0x31, 0}, {0x30, 2, 0x31, 0}}[v]
	}},
	{"rawSAN", 5, func(c *x509.CertificateRequest, v int) {
		c.ExtraExtensions = []pkix.Extension{{Id: oid(2, 5, 29, 17), Value: [][]byte{nil, {5, 0}, {0x30, 0}, {0x30, 1}, {0x30, 3, 0x87, 1, 1}}[v]}}
	}},
}

func c14Hostile(t *engine.T) {
	fn := t.Pick("function", 2)
	mi := t.Pick("field", len(c14HostileMods))
	v := t.Pick("value", c14HostileMods[mi].n)
	t.Begin()
	m := c14HostileMods[mi]
	k := xkeyOf(3)
	s := c14Spec()
	m.f(s, v)
	der, err := c14Make(t, fn, s, k, 0, "h")
	if err != nil {
		t.Check(der == nil, "refused", "error %v and %d bytes", err, len(der))
		t.Outcome("%s %d refused", m.name, v)
		return
	}
	l, err := x509.ParseDERCRL(der)
	t.Step(1)
	t.Check(err == nil, "unreadable", "a list made with %s value %d is not readable: %v: %x", m.name, v, err, der)
	t.Check(tm(l.TBSCertList.ThisUpdate) == tm(s.this) && tm(l.TBSCertList.NextUpdate) == tm(s.next), "dates", "dates %v %v instead of %v %v", l.TBSCertList.ThisUpdate, l.TBSCertList.NextUpdate, s.this, s.next)
	t.Check(len(l.TBSCertList.RevokedCertificates) == len(s.revoked), "entries", "%d entries instead of %d", len(l.TBSCertList.RevokedCertificates), len(s.revoked))
	for i, r := range l.TBSCertList.RevokedCertificates {
		w := s.revoked[i]
		t.Check(r.SerialNumber.Cmp(w.SerialNumber) == 0 && tm(r.RevocationTime) == tm(w.RevocationTime) && exts(r.Extensions) == exts(w.Extensions), "entries", "entry %v instead of %v", r, w)
	}
	t.Outcome("%s %d made", m.name, v)
}

var c14HostileMods = []struct {
	name string
	n    int
	f    func(s *crlSpec, v int)
}{
	{"this", 12, func(s *crlSpec, v int) { s.this, s.next = c11Times[v], t2040 }},
	{"next", 12, func(s *crlSpec, v int) { s.this, s.next = time.Date(-5000, 1, 1, 0, 0, 0, 0, time.UTC), c11Times[v] }},
	{"next2", 12, func(s *crlSpec, v int) { s.this, s.next = c11Times[v], c11Times[v] }},
	{"revoked", 12, func(s *crlSpec, v int) {
		s.revoked = []pkix.RevokedCertificate{{SerialNumber: kit.B(1), RevocationTime: c11Times[v]}}
	}},
	{"serial", 5, func(s *crlSpec, v int) {
		c := &x509.Certificate{}
		c11HostileMods[26].f(c, v)
		s.revoked = []pkix.RevokedCertificate{{SerialNumber: c.SerialNumber, RevocationTime: t2020}}
	}},
	{"entryId", c11NumOIDs, func(s *crlSpec, v int) {
		s.revoked = []pkix.RevokedCertificate{{SerialNumber: kit.B(1), RevocationTime: t2020, Extensions: []pkix.Extension{{Id: c11OIDs(v), Value: []byte{5, 0}}}}}
	}},
	{"extraId", c11NumOIDs, func(s *crlSpec, v int) {
		s.extra = []pkix.Extension{{Id: c11OIDs(v), Value: []byte{5, 0}}}
	}},
	{"nameId", c11NumOIDs, func(s *crlSpec, v int) {
		s.issuer.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: c11OIDs(v), Value: "v"}}
	}},
	{"nameValue", 12, func(s *crlSpec, v int) {
		s.issuer.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: oid(2, 5, 4, 12), Value: c11Values[v]}}
	}},
	{"rawSubject", 5, func(s *crlSpec, v int) {
		s.issuer.RawSubject = [][]byte{{5, 0}, {0x30, 1}, {0x30, 0, 0}, {0x31, 0}, {0x30, 2, 0x31, 0}}[v]
	}},
	{"number", 5, func(s *crlSpec, v int) {
		c := &x509.Certificate{}
		c11HostileMods[26].f(c, v)
		s.number = c.SerialNumber
	}},
}

var c11Values = []any{nil, 17, true, []byte{1}, 1.5, "\xff", "\xc3\x28", "a\x00b", "*&@_", "\U0001f512", []string{"x"}, struct{ A int }{4}}

var c11Times = []time.Time{
	time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(-1000, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(9999, 12, 31, 20, 0, 0, 0, time.FixedZone("W", -6*3600)),
	time.Date(10000, 1, 1, 1, 0, 0, 0, time.FixedZone("E", 6*3600)), {}, time.Date(1, 1, 1, 2, 0, 0, 0, time.FixedZone("E", 6*3600)),
	time.Date(2050, 1, 1, 0, 0, 0, -1, time.UTC), time.Date(1950, 1, 1, 0, 0, 0, -1, time.UTC), time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("odd", 8*3600+17)),
}
