package props

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"strings"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// xkey is a signing key of some type.
type xkey struct {
	name string
	s    crypto.Signer
	pub  any
	algs []x509.SignatureAlgorithm // explicit choices that fit the key and are verifiable
	def  x509.SignatureAlgorithm
}

func (k xkey) sm2() *sm2.PrivateKey {
	if s, ok := k.s.(*kit.Signer); ok {
		return s.Key
	}
	return nil
}

var rsaAlgs = []x509.SignatureAlgorithm{x509.SHA256WithRSA, x509.SHA384WithRSA, x509.SHA512WithRSA, x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS}
var ecAlgs = []x509.SignatureAlgorithm{x509.ECDSAWithSHA256, x509.ECDSAWithSHA384, x509.ECDSAWithSHA512}

const numXKeys = 8

// xkeyOf returns key i: 0 SM2, 1 P-256, 2 RSA 2048, 3 Ed25519, 4 P-224, 5 P-384, 6 P-521, 7 SM2 with short coordinates. +100: another key of that type.
func xkeyOf(i int) xkey {
	other := i >= 100
	i %= 100
	d := int64(4711)
	if other {
		d = 815
	}
	ec := func(name string, c elliptic.Curve, def x509.SignatureAlgorithm) xkey {
		k := kit.ECDSA(c, kit.B(d))
		return xkey{name, k, &k.PublicKey, ecAlgs, def}
	}
	switch i {
	case 0, 7:
		sd := kit.Keys[0].D
		if i == 7 {
			sd = kit.Keys[6].D
		}
		if other {
			sd = kit.Keys[4].D
		}
		k := kit.Priv(sd)
		return xkey{"SM2", &kit.Signer{Key: k}, &k.PublicKey, []x509.SignatureAlgorithm{x509.SM2WithSM3}, x509.SM2WithSM3}
	case 1:
		return ec("P-256", elliptic.P256(), x509.ECDSAWithSHA256)
	case 2:
		n := 0
		if other {
			n = 1
		}
		k := kit.RSA(n)
		return xkey{"RSA", k, &k.PublicKey, rsaAlgs, x509.SHA256WithRSA}
	case 3:
		k := kit.Ed(byte(d))
		return xkey{"Ed25519", k, k.Public(), []x509.SignatureAlgorithm{x509.PureEd25519}, x509.PureEd25519}
	case 4:
		return ec("P-224", elliptic.P224(), x509.ECDSAWithSHA256)
	case 5:
		return ec("P-384", elliptic.P384(), x509.ECDSAWithSHA384)
	case 6:
		return ec("P-521", elliptic.P521(), x509.ECDSAWithSHA512)
	}
	panic("xkey")
}

// xverify judges a signature without the code under test.
func xverify(pub any, alg x509.SignatureAlgorithm, msg, sig []byte) bool {
	var hf crypto.Hash
	kind := ""
	switch alg {
	case x509.SHA256WithRSA, x509.SHA256WithRSAPSS, x509.ECDSAWithSHA256:
		hf = crypto.SHA256
	case x509.SHA384WithRSA, x509.SHA384WithRSAPSS, x509.ECDSAWithSHA384:
		hf = crypto.SHA384
	case x509.SHA512WithRSA, x509.SHA512WithRSAPSS, x509.ECDSAWithSHA512:
		hf = crypto.SHA512
	}
	switch alg {
	case x509.SHA256WithRSA, x509.SHA384WithRSA, x509.SHA512WithRSA:
		kind = "rsa"
	case x509.SHA256WithRSAPSS, x509.SHA384WithRSAPSS, x509.SHA512WithRSAPSS:
		kind = "pss"
	case x509.ECDSAWithSHA256, x509.ECDSAWithSHA384, x509.ECDSAWithSHA512:
		kind = "ec"
	case x509.PureEd25519:
		kind = "ed"
	case x509.SM2WithSM3:
		kind = "sm2"
	}
	var dg []byte
	if hf != 0 {
		h := hf.New()
		h.Write(msg)
		dg = h.Sum(nil)
	}
	switch p := pub.(type) {
	case *sm2.PublicKey:
		if kind != "sm2" {
			return false
		}
		r, s, ok := parseSig(sig)
		return ok && ref.VerifyDigest(kit.PointOf(p), ref.Digest(kit.PointOf(p), nil, msg), r, s)
	case *ecdsa.PublicKey:
		return kind == "ec" && ecdsa.VerifyASN1(p, dg, sig)
	case *rsa.PublicKey:
		if kind == "pss" {
			return rsa.VerifyPSS(p, hf, dg, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash}) == nil
		}
		return kind == "rsa" && rsa.VerifyPKCS1v15(p, hf, dg, sig) == nil
	case ed25519.PublicKey:
		return kind == "ed" && ed25519.Verify(p, msg, sig)
	}
	return false
}

// swapSPKI replaces an SM2 subject key by a P-256 one so that crypto/x509 can
// parse the rest of the certificate.
func swapSPKI(der []byte) []byte {
	n := ref.Parse(der, 0)
	if len(n) != 1 || len(n[0].Children) != 3 {
		return der
	}
	tbs := n[0].Children[0]
	i := 5
	if len(tbs.Children) > 0 && tbs.Children[0].Tag == 0xa0 {
		i = 6
	}
	if tbs.At(i) == nil || !bytes.Contains(tbs.At(i).Raw, oidSM2Crv) {
		return der
	}
	k := kit.ECDSA(elliptic.P256(), kit.B(99))
	spki, _ := stdx509.MarshalPKIXPublicKey(&k.PublicKey)
	var parts [][]byte
	for j, c := range tbs.Children {
		if j == i {
			parts = append(parts, spki)
		} else {
			parts = append(parts, c.Raw)
		}
	}
	return ref.Seq(ref.Seq(parts...), n[0].Children[1].Raw, n[0].Children[2].Raw)
}

func nets(l []*net.IPNet) string {
	var s []string
	for _, n := range l {
		s = append(s, fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask)))
	}
	return strings.Join(s, " ")
}

func ips(l []net.IP) string {
	var s []string
	for _, n := range l {
		if v := n.To4(); v != nil {
			n = v
		}
		s = append(s, fmt.Sprintf("%x", []byte(n)))
	}
	return strings.Join(s, " ")
}

func uris(l []*url.URL) string {
	var s []string
	for _, n := range l {
		s = append(s, n.String())
	}
	return strings.Join(s, " ")
}

func oids(l []asn1.ObjectIdentifier) string {
	var s []string
	for _, n := range l {
		s = append(s, n.String())
	}
	return strings.Join(s, " ")
}

func exts(l []pkix.Extension) string {
	var s []string
	for _, n := range l {
		s = append(s, fmt.Sprintf("%v/%v/%x", n.Id, n.Critical, n.Value))
	}
	return strings.Join(s, " ")
}

func tm(t time.Time) string { return t.UTC().Truncate(time.Second).Format(time.RFC3339) }

// derTime is the one DER encoding of a time in certificates and revocation lists.
func derTime(t time.Time) []byte {
	t = t.UTC()
	if t.Year() >= 1950 && t.Year() < 2050 {
		return ref.TLV(0x17, []byte(t.Format("060102150405Z")))
	}
	return ref.TLV(0x18, []byte(t.Format("20060102150405Z")))
}

func nameDER(n pkix.Name) []byte {
	b, err := asn1.Marshal(n.ToRDNSequence())
	if err != nil {
		panic(err)
	}
	return b
}

// certView lists a parsed certificate's semantic content.
func certView(c *x509.Certificate) []string {
	return []string{
		"version " + fmt.Sprint(c.Version), "serial " + c.SerialNumber.String(), fmt.Sprintf("issuer %x", c.RawIssuer), fmt.Sprintf("subject %x", c.RawSubject),
		"issuerName " + c.Issuer.String(), "subjectName " + c.Subject.String(),
		"from " + tm(c.NotBefore), "to " + tm(c.NotAfter), "ku " + fmt.Sprint(int(c.KeyUsage)), "eku " + fmt.Sprint(ekuInts(c.ExtKeyUsage)), "ueku " + oids(c.UnknownExtKeyUsage),
		fmt.Sprintf("bc %v ca %v path %d zero %v", c.BasicConstraintsValid, c.IsCA, c.MaxPathLen, c.MaxPathLenZero),
		fmt.Sprintf("ski %x", c.SubjectKeyId), fmt.Sprintf("aki %x", c.AuthorityKeyId), fmt.Sprintf("ocsp %q", c.OCSPServer), fmt.Sprintf("issuers %q", c.IssuingCertificateURL),
		fmt.Sprintf("dns %q", c.DNSNames), fmt.Sprintf("mail %q", c.EmailAddresses), "ips " + ips(c.IPAddresses), "uris " + uris(c.URIs),
		fmt.Sprintf("nc %v %q %q %q %q %q %q", c.PermittedDNSDomainsCritical, c.PermittedDNSDomains, c.ExcludedDNSDomains, c.PermittedEmailAddresses, c.ExcludedEmailAddresses, c.PermittedURIDomains, c.ExcludedURIDomains),
		"ncip " + nets(c.PermittedIPRanges) + " - " + nets(c.ExcludedIPRanges), fmt.Sprintf("crldp %q", c.CRLDistributionPoints), "policies " + oids(c.PolicyIdentifiers),
		"exts " + exts(c.Extensions), "unhandled " + oids(c.UnhandledCriticalExtensions), fmt.Sprintf("sig %x", c.Signature),
	}
}

func stdView(c *stdx509.Certificate) []string {
	return []string{
		"version " + fmt.Sprint(c.Version), "serial " + c.SerialNumber.String(), fmt.Sprintf("issuer %x", c.RawIssuer), fmt.Sprintf("subject %x", c.RawSubject),
		"issuerName " + c.Issuer.String(), "subjectName " + c.Subject.String(),
		"from " + tm(c.NotBefore), "to " + tm(c.NotAfter), "ku " + fmt.Sprint(int(c.KeyUsage)), "eku " + fmt.Sprint(stdEkuInts(c.ExtKeyUsage)), "ueku " + oids(c.UnknownExtKeyUsage),
		fmt.Sprintf("bc %v ca %v path %d zero %v", c.BasicConstraintsValid, c.IsCA, c.MaxPathLen, c.MaxPathLenZero),
		fmt.Sprintf("ski %x", c.SubjectKeyId), fmt.Sprintf("aki %x", c.AuthorityKeyId), fmt.Sprintf("ocsp %q", c.OCSPServer), fmt.Sprintf("issuers %q", c.IssuingCertificateURL),
		fmt.Sprintf("dns %q", c.DNSNames), fmt.Sprintf("mail %q", c.EmailAddresses), "ips " + ips(c.IPAddresses), "uris " + uris(c.URIs),
		fmt.Sprintf("nc %v %q %q %q %q %q %q", c.PermittedDNSDomainsCritical, c.PermittedDNSDomains, c.ExcludedDNSDomains, c.PermittedEmailAddresses, c.ExcludedEmailAddresses, c.PermittedURIDomains, c.ExcludedURIDomains),
		"ncip " + nets(c.PermittedIPRanges) + " - " + nets(c.ExcludedIPRanges), fmt.Sprintf("crldp %q", c.CRLDistributionPoints), "policies " + oids(c.PolicyIdentifiers),
		"exts " + exts(c.Extensions), "unhandled " + oids(c.UnhandledCriticalExtensions), fmt.Sprintf("sig %x", c.Signature),
	}
}

var ekuNames = []struct {
	lib x509.ExtKeyUsage
	std stdx509.ExtKeyUsage
}{
	{x509.ExtKeyUsageAny, stdx509.ExtKeyUsageAny}, {x509.ExtKeyUsageServerAuth, stdx509.ExtKeyUsageServerAuth}, {x509.ExtKeyUsageClientAuth, stdx509.ExtKeyUsageClientAuth},
	{x509.ExtKeyUsageCodeSigning, stdx509.ExtKeyUsageCodeSigning}, {x509.ExtKeyUsageEmailProtection, stdx509.ExtKeyUsageEmailProtection}, {x509.ExtKeyUsageIPSECEndSystem, stdx509.ExtKeyUsageIPSECEndSystem},
	{x509.ExtKeyUsageIPSECTunnel, stdx509.ExtKeyUsageIPSECTunnel}, {x509.ExtKeyUsageIPSECUser, stdx509.ExtKeyUsageIPSECUser}, {x509.ExtKeyUsageTimeStamping, stdx509.ExtKeyUsageTimeStamping},
	{x509.ExtKeyUsageOCSPSigning, stdx509.ExtKeyUsageOCSPSigning}, {x509.ExtKeyUsageMicrosoftServerGatedCrypto, stdx509.ExtKeyUsageMicrosoftServerGatedCrypto},
	{x509.ExtKeyUsageNetscapeServerGatedCrypto, stdx509.ExtKeyUsageNetscapeServerGatedCrypto}, {x509.ExtKeyUsageMicrosoftCommercialCodeSigning, stdx509.ExtKeyUsageMicrosoftCommercialCodeSigning},
	{x509.ExtKeyUsageMicrosoftKernelCodeSigning, stdx509.ExtKeyUsageMicrosoftKernelCodeSigning},
}

func ekuInts(l []x509.ExtKeyUsage) (out []int) {
	for _, u := range l {
		x := -1
		for i, e := range ekuNames {
			if e.lib == u {
				x = i
			}
		}
		out = append(out, x)
	}
	return
}

func stdEkuInts(l []stdx509.ExtKeyUsage) (out []int) {
	for _, u := range l {
		x := -1
		for i, e := range ekuNames {
			if e.std == u {
				x = i
			}
		}
		out = append(out, x)
	}
	return
}

func diffViews(a, b []string) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%q instead of %q", a[i], b[i])
		}
	}
	return ""
}

var kuNames = []x509.KeyUsage{x509.KeyUsageDigitalSignature, x509.KeyUsageContentCommitment, x509.KeyUsageKeyEncipherment, x509.KeyUsageDataEncipherment,
	x509.KeyUsageKeyAgreement, x509.KeyUsageCertSign, x509.KeyUsageCRLSign, x509.KeyUsageEncipherOnly, x509.KeyUsageDecipherOnly}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func mustNet(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

var (
	t2020 = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	t2040 = time.Date(2040, 6, 7, 8, 9, 10, 0, time.UTC)
)

// mkCert creates and parses a certificate, failing the execution on errors.
func mkCert(t *engine.T, r io.Reader, tpl, parent *x509.Certificate, pub any, signer crypto.Signer) *x509.Certificate {
	der, err := x509.CreateCertificate(r, tpl, parent, pub, signer)
	t.Check(err == nil, "create", "CreateCertificate: %v", err)
	c, err := x509.ParseCertificate(der)
	t.Check(err == nil, "parse", "ParseCertificate of %x: %v", der, err)
	t.Step(2)
	return c
}

func caTemplate(cn string, serial int64) *x509.Certificate {
	return &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn, Organization: []string{"verif"}}, NotBefore: t2020, NotAfter: t2040,
		BasicConstraintsValid: true, IsCA: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, SubjectKeyId: []byte("ski-" + cn)}
}

func leafTemplate(cn string, serial int64) *x509.Certificate {
	return &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn, Country: []string{"CN"}}, NotBefore: t2020, NotAfter: t2040,
		KeyUsage: x509.KeyUsageDigitalSignature}
}

func p256() elliptic.Curve { return elliptic.P256() }

func ipList(l ...string) (out []net.IP) {
	for _, s := range l {
		out = append(out, net.ParseIP(s))
	}
	return
}

func netList(l ...string) (out []*net.IPNet) {
	for _, s := range l {
		out = append(out, mustNet(s))
	}
	return
}
