package props

import (
	"bytes"
	"crypto/rand"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C16", Harnesses: []engine.Harness{
		{Name: "content", Rule: "contents of every length 0..280 and around 2^16, x key or callback form: parsed back, verified, judged by an independent reader", Run: c16Content},
		{Name: "signers", Rule: "17 keys x serial numbers x issuer names x made by the code or by hand x both forms", Run: c16Signers},
		{Name: "zones", Rule: "local time zones x key or callback form: the message is the same but for time and signature, and valid", Run: c16Zones},
		{Name: "faults", Rule: "the random source fails after every number of bytes, the callback fails, keys of other types: an error and no message; a callback that returns something else, or another key: never verifies", Run: c16Faults},
		{Name: "foreign", Rule: "messages made without the code: 0-3 signers with or without attributes, attribute order, more certificates, revocation lists, content lengths: parsed and verified", Run: c16Foreign},
		{Name: "near", Rule: "every ordered pair of 29 issuer/serial identities that differ in case, spaces, string type, order, sign or single bits: the signer's certificate is found next to the other's, in both orders, with and without attributes", Run: c16Near},
		{Name: "attributes", Rule: "one more attribute with each of 36 identifiers close to the usual ones x 4 values: valid messages verify", Run: c16NearAttr},
		{Name: "many", Rule: "certificates (signer's anywhere among them), signers, attributes, attribute values, revocation lists up to 257 or 1001, contents, attributes and names up to 2^17 or 2^20 bytes, at all sizes around powers of two and ten: parsed and verified", Run: c16Many},
	}, Assume: []string{"the system clock does not step during one signing"}})
}

// withRand runs f with the process-wide random source replaced.
func withRand(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

func c16Cert(t *engine.T, d *big.Int, serial *big.Int, name pkix.Name) *x509.Certificate {
	k := kit.Priv(d)
	tpl := leafTemplate("p7", 1)
	tpl.SerialNumber, tpl.Subject = serial, name
	return mkCert(t, kit.NewRand("p7cert"), tpl, tpl, &k.PublicKey, &kit.Signer{Key: k})
}

// c16Make signs with one of the two forms; seen is what a callback was given.
func c16Make(form int, cert *x509.Certificate, k *sm2.PrivateKey, data []byte, seed string) (der []byte, seen []byte, err error) {
	withRand(kit.NewRand(seed), func() {
		if form == 0 {
			der, err = x509.NewSignedData(cert, k, data)
			return
		}
		der, err = x509.NewSignedDataCallBack(cert, func(b []byte) ([]byte, error) {
			seen = kit.Clone(b)
			return sm2.Sign(kit.NewRand(seed), k, b, nil)
		}, data)
	})
	return
}

// c16Check judges a message over data by cert's key.
func c16Check(t *engine.T, der, seen []byte, form int, cert *x509.Certificate, k *sm2.PrivateKey, data []byte, before, after time.Time) {
	m := p7Parse(der)
	t.Check(m != nil, "shape", "not a signed message: %x", der)
	t.Check(m.has && bytes.Equal(m.content, data), "content", "message carries %x instead of %x", m.content, data)
	t.Check(len(m.certs) == 1 && bytes.Equal(m.certs[0], cert.Raw), "certs", "%d certificates, not the signer's", len(m.certs))
	t.Check(len(m.signers) == 1, "signers", "%d signers", len(m.signers))
	s := &m.signers[0]
	t.Check(bytes.Equal(s.issuer, cert.RawIssuer) && bytes.Equal(s.serial, ref.DERInt(cert.SerialNumber)), "identity", "signer named %x %x", s.issuer, s.serial)
	t.Check(s.ok(&k.PublicKey, data), "signature", "signature or digest wrong in %x", der)
	if form == 1 {
		t.Check(bytes.Equal(seen, s.tbs(data)), "callback", "the callback was given %x, the message needs a signature over %x", seen, s.tbs(data))
	}
	p, err := x509.ParsePKCS7(der)
	t.Check(err == nil, "parse", "ParsePKCS7: %v", err)
	t.Check(bytes.Equal(p.Content, data), "parse-content", "parsed content %x instead of %x", p.Content, data)
	t.Check(len(p.Certificates) == 1 && bytes.Equal(p.Certificates[0].Raw, cert.Raw), "parse-certs", "parsed %d certificates", len(p.Certificates))
	o := p.GetOnlySigner()
	t.Check(o != nil && bytes.Equal(o.Raw, cert.Raw), "only-signer", "GetOnlySigner is not the signer")
	err = p.Verify()
	t.Check(err == nil, "verify", "Verify: %v", err)
	err = p.Verify()
	t.Check(err == nil, "verify-again", "second Verify: %v", err)
	var md []byte
	err = p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &md)
	t.Check(err == nil && bytes.Equal(md, ref.SM3(data)), "attribute", "message digest attribute %x, %v", md, err)
	var ct asn1.ObjectIdentifier
	err = p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &ct)
	t.Check(err == nil && ct.String() == "1.2.156.10197.6.1.4.2.1", "attribute", "content type attribute %v, %v", ct, err)
	st0 := s.attr(oidST)
	t.Check(len(st0) > 2 && (st0[0] == 0x17 && len(st0) == 15 || st0[0] == 0x18 && len(st0) == 17) && st0[len(st0)-1] == 'Z', "time-form", "the signing time %q is not in UTC in its only form", st0)
	var attrs [][]byte
	for _, a := range ref.Parse(s.attrs, 0) {
		attrs = append(attrs, a.Raw)
	}
	t.Check(bytes.Equal(s.attrs, derSorted(attrs)), "order", "attributes are not in DER order: %x", s.attrs)
	var st time.Time
	err = p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}, &st)
	t.Check(err == nil && !st.Before(before.Add(-2*time.Second)) && !st.After(after.Add(2*time.Second)), "time", "signing time %v, %v", st, err)
	err = p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 3}, &md)
	t.Check(err != nil, "attribute", "an attribute that is not there was found")
	t.Step(8)
}

func c16Content(t *engine.T) {
	form := t.Pick("form", 2)
	n := t.Pick("length", 281+9)
	t.Begin()
	if n > 280 {
		n = []int{511, 512, 4095, 4096, 65500, 65534, 65535, 65536, 70000}[n-281]
	}
	cert := c16Cert(t, kit.Keys[0].D, kit.B(1), pkix.Name{CommonName: "p7"})
	k := kit.Priv(kit.Keys[0].D)
	for _, p := range []int{0, 1} {
		data := kit.Pattern(p, n)
		if n == 0 && p == 1 {
			data = nil
		}
		arg := kit.Clone(data)
		before := time.Now()
		der, seen, err := c16Make(form, cert, k, arg, fmt.Sprintf("c16 %d", n))
		t.Check(err == nil, "sign", "signing %d bytes: %v", n, err)
		t.Check(bytes.Equal(arg, data), "input", "the content was changed")
		c16Check(t, der, seen, form, cert, k, data, before, time.Now())
	}
	t.State("len %d form %d", n, form)
}

// zones are the local time zones a process may live in.
var zones = []*time.Location{
	time.UTC, time.FixedZone("CST", 8*3600), time.FixedZone("west", -9*3600-1800), time.FixedZone("nepal", 5*3600+45*60),
	time.FixedZone("LMT", 8*3600+5*60+43), time.FixedZone("far", 14*3600), time.FixedZone("farther", -12*3600), time.FixedZone("", 59),
}

func c16Zones(t *engine.T) {
	zone := t.Pick("zone", len(zones))
	form := t.Pick("form", 2)
	t.Begin()
	defer func(l *time.Location) { time.Local = l }(time.Local)
	time.Local = zones[zone]
	cert := c16Cert(t, kit.Keys[0].D, kit.B(1), pkix.Name{CommonName: "p7"})
	k := kit.Priv(kit.Keys[0].D)
	data := kit.Pattern(0, 70)
	before := time.Now()
	der, seen, err := c16Make(form, cert, k, data, "c16 zone")
	t.Check(err == nil, "sign", "signing in zone %v: %v", zones[zone], err)
	c16Check(t, der, seen, form, cert, k, data, before, time.Now())
	t.State("zone %d form %d", zone, form)
}

var c16Names = []pkix.Name{
	{CommonName: "a"}, {}, {CommonName: "名字 with UTF-8", Organization: []string{"o"}},
	{Country: []string{"CN"}, Organization: []string{"x", "y"}, OrganizationalUnit: []string{"u"}, Locality: []string{"l"}, Province: []string{"p"}, StreetAddress: []string{"s"}, PostalCode: []string{"1"}, SerialNumber: "77", CommonName: "full"},
	{CommonName: string(kit.Pattern(4, 0)) + "long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long"},
}

var c16Serials = []*big.Int{kit.B(1), kit.B(0x7f), kit.B(0x80), kit.B(0xff), kit.B(0x100), kit.H("7fffffffffffffffffffffffffffffffffffffff"), kit.H("00ff00000000000000000000000000000000000000"), kit.H("80000000000000000000000000000000")}

func c16Signers(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	form := t.Pick("form", 2)
	hand := t.Pick("hand-made", 2) == 1
	t.Begin()
	k := kit.Priv(kit.Keys[ki].D)
	for si, serial := range c16Serials {
		for ni, name := range c16Names {
			if hand && ni > 0 {
				break
			}
			if ki > 3 && si > 2 && ni > 0 && !t.Thorough() {
				break
			}
			var cert *x509.Certificate
			if hand {
				var err error
				body := ref.Seq(ref.Ctx(0, ref.Int(2)), ref.DERInt(serial), sigSM2AI, nameCN("issuer of it"), ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z"))), nameCN("subject"), sm2PKIX(kit.PubPoint(k.D)))
				cert, err = x509.ParseCertificate(ref.Seq(body, sigSM2AI, ref.BitStr(signBytes(xkeyOf(0), body, 3))))
				t.Check(err == nil, "parse", "certificate: %v", err)
			} else {
				cert = c16Cert(t, k.D, serial, name)
			}
			data := kit.Stream(fmt.Sprint(ki, si, ni), 40)
			before := time.Now()
			der, seen, err := c16Make(form, cert, k, data, fmt.Sprint("c16s", ki, si, ni))
			t.Check(err == nil, "sign", "signing: %v", err)
			c16Check(t, der, seen, form, cert, k, data, before, time.Now())
			t.State("key %d serial %d name %d form %d", ki, si, ni, form)
		}
	}
}

func c16Faults(t *engine.T) {
	kind := t.Pick("fault", 5)
	i := t.Pick("case", 60)
	t.Begin()
	k := kit.Priv(kit.Keys[0].D)
	cert := c16Cert(t, k.D, kit.B(7), pkix.Name{CommonName: "f"})
	data := []byte("data to sign")
	var der []byte
	var err error
	switch kind {
	case 0: // the random source fails after i bytes
		sc := &kit.Script{Data: kit.Stream("c16f", i)}
		withRand(sc, func() { der, err = x509.NewSignedData(cert, k, data) })
		if err == nil {
			// fewer bytes than i were needed; then the message must be right
			t.Check(i >= 32, "fault", "signed with only %d random bytes", i)
			c16Check(t, der, nil, 0, cert, k, data, time.Now(), time.Now())
		} else {
			t.Check(len(der) == 0, "output", "a message of %d bytes came with the error %v", len(der), err)
		}
		t.State("rand %d ok %v", i, err == nil)
	case 1: // the callback fails
		if i > 2 {
			return
		}
		boom := errors.New("boom")
		der, err = x509.NewSignedDataCallBack(cert, func(b []byte) ([]byte, error) {
			switch i {
			case 0:
				return nil, boom
			case 1:
				return []byte{1, 2, 3}, boom
			}
			s, _ := sm2.Sign(kit.NewRand("x"), k, b, nil)
			return s, boom
		}, data)
		t.Check(err != nil && len(der) == 0, "callback-error", "message %x, error %v although the callback failed", der, err)
		t.Check(errors.Is(err, boom) || strings.Contains(err.Error(), "boom"), "callback-error", "the callback failed with %q, reported is %q", boom, err)
		t.State("callback error %d", i)
	case 2: // the callback returns something else than a signature of its input
		other := kit.Priv(kit.Keys[4].D)
		der, err = x509.NewSignedDataCallBack(cert, func(b []byte) ([]byte, error) {
			switch {
			case i == 0:
				return nil, nil
			case i == 1:
				return []byte{}, nil
			case i == 2:
				return []byte{0}, nil
			case i == 3:
				return kit.Clone(b), nil
			case i == 4:
				return sm2.Sign(kit.NewRand("x"), other, b, nil)
			case i == 5:
				return sm2.Sign(kit.NewRand("x"), k, data, nil)
			case i == 6:
				return sm2.Sign(kit.NewRand("x"), k, b, []byte("other uid"))
			case i == 7:
				return ref.DERSig(kit.B(0), kit.B(0)), nil
			case i == 8:
				return ref.DERSig(kit.B(1), kit.NSub(1)), nil
			case i < 40:
				s, e := sm2.Sign(kit.NewRand("x"), k, b, nil)
				return s[:len(s)*(i-9)/31], e
			}
			s, e := sm2.Sign(kit.NewRand("x"), k, b, nil)
			s[len(s)-1-(i-40)*3%60] ^= 1
			return s, e
		}, data)
		if err == nil {
			p, e := x509.ParsePKCS7(der)
			if e == nil {
				t.Check(p.Verify() != nil, "accepted", "message with a bad signature verifies (case %d)", i)
			}
		}
		t.State("callback bad %d %v", i, err == nil)
	case 3: // keys of other types
		keys := []any{xkeyOf(1).s, xkeyOf(2).s, xkeyOf(3).s, "no key", nil, k.PublicKey, &k.PublicKey, *k, kit.Keys[0].D, []byte{1}, &kit.Signer{Key: kit.Priv(kit.Keys[4].D)}}
		if i >= len(keys) {
			return
		}
		withRand(kit.NewRand("k"), func() { der, err = x509.NewSignedData(cert, keys[i], data) })
		if err == nil {
			p, e := x509.ParsePKCS7(der)
			if i == 7 && e == nil {
				e = p.Verify() // a key by value could be supported
				t.Check(e == nil, "verify", "message does not verify: %v", e)
			} else {
				t.Check(e != nil || p.Verify() != nil, "keytype", "message made with key %T verifies", keys[i])
				t.Fail("keytype-accepted", "NewSignedData accepted a %T and returned %x", keys[i], der)
			}
		} else {
			t.Check(len(der) == 0, "output", "message with error")
		}
		t.State("keytype %d %v", i, err == nil)
	case 4: // a key that is not the certificate's
		if i >= len(kit.Keys) || i == 0 {
			return
		}
		other := kit.Priv(kit.Keys[i].D)
		for form := 0; form < 2; form++ {
			der, _, err = c16Make(form, cert, other, data, "o")
			if err == nil {
				p, e := x509.ParsePKCS7(der)
				t.Check(e != nil || p.Verify() != nil, "wrongkey", "message signed by another key verifies")
			}
		}
		t.State("wrong key %d", i)
	}
	t.Step(1)
}

func c16Foreign(t *engine.T) {
	nsig := t.Pick("signers", 4)
	direct := t.Pick("direct", 3) // all with attributes, none, alternating
	n := t.Pick("content", 7)
	more := t.Pick("extras", 6)
	t.Begin()
	content := kit.Pattern(0, []int{0, 1, 31, 127, 128, 256, 3000}[n])
	keys := []int{0, 7, 100}
	var certs, infos, crls [][]byte
	for i := 0; i < nsig; i++ {
		certs = append(certs, p7Cert(keys[i], int64(50+i), fmt.Sprint("iss", i%2)))
		infos = append(infos, p7Good(keys[i], int64(50+i), fmt.Sprint("iss", i%2), content, direct == 1 || direct == 2 && i%2 == 1))
	}
	switch more {
	case 1: // certificates nobody signed with, first
		certs = append([][]byte{p7Cert(1, 90, "iss0"), p7Cert(2, 51, "issX")}, certs...)
	case 2: // and last
		certs = append(certs, p7Cert(3, 91, "iss0"), p7Cert(0, 50, "other issuer"))
	case 3:
		crls = [][]byte{c14Hand(xkeyOf(0), 3)}
	case 4: // reverse certificate order
		for i, j := 0, len(certs)-1; i < j; i, j = i+1, j-1 {
			certs[i], certs[j] = certs[j], certs[i]
		}
	case 5: // attributes not in DER order, more attributes
		if direct != 0 {
			return
		}
		for i := range infos {
			a := append([][]byte{p7Attr(ref.OID(1, 2, 3, 4), ref.Int(5)), p7Attr(ref.OID(1, 2, 3, 5), ref.Oct([]byte("x")), ref.Oct([]byte("y")))}, p7Attrs(content)...)
			b := derSorted(a)
			infos[i] = p7Info(nameCN(fmt.Sprint("iss", i%2)), ref.Int(int64(50+i)), b, p7Sign(keys[i], ref.TLV(0x31, b), 9))
		}
	}
	if certs == nil {
		certs = [][]byte{p7Cert(0, 1, "x")}
	}
	der := p7Build(content, certs, crls, infos...)
	p, err := x509.ParsePKCS7(der)
	t.Check(err == nil, "parse", "ParsePKCS7 of %x: %v", der, err)
	t.Check(bytes.Equal(p.Content, content), "content", "content %x instead of %x", p.Content, content)
	t.Check(len(p.Certificates) == len(certs), "certs", "%d of %d certificates", len(p.Certificates), len(certs))
	for i := range certs {
		t.Check(bytes.Equal(p.Certificates[i].Raw, certs[i]), "certs", "certificate %d differs", i)
	}
	t.Check(len(p.CRLs) == len(crls) && len(p.Signers) == nsig, "parts", "%d CRLs, %d signers", len(p.CRLs), len(p.Signers))
	err = p.Verify()
	t.Check((err == nil) == (nsig > 0), "verify", "Verify of a message with %d good signers: %v", nsig, err)
	o := p.GetOnlySigner()
	t.Check((o != nil) == (nsig == 1), "only", "GetOnlySigner with %d signers: %v", nsig, o != nil)
	if o != nil {
		pk, ok := o.PublicKey.(*sm2.PublicKey)
		t.Check(ok && kit.PointOf(pk).Equal(kit.PubPoint(kit.Keys[0].D)), "only", "GetOnlySigner is another certificate")
	}
	t.Step(5)
	t.Outcome("%d signers direct %d content %d extras %d", nsig, direct, len(content), more)
}
