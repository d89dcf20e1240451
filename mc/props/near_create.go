package props

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"net/url"
	"sort"
	"strings"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"crypto/x509/pkix"

	"github.com/mmdet/mcrypto/x509"
)

// nearArcs are identifiers that a careless comparison takes for o.
func nearArcs(o []int) (l [][]int) {
	n := len(o)
	c := func(i, v int) []int {
		x := append([]int{}, o...)
		x[i] = v
		return x
	}
	last := o[n-1]
	l = append(l, append([]int{}, o...), o[:n-1:n-1], append(append([]int{}, o...), 0), append(append([]int{}, o...), 1), c(n-1, last+1), c(n-1, last+128), c(n-1, last+256), c(n-1, last+65536), c(n-1, last*10+5),
		c(n-2, o[n-2]+1), c(n-2, o[n-2]-1), c(n-2, o[n-2]+128), c(0, 1), c(0, 0), c(1, o[1]+1), []int{1, 2, 3, last}, []int{1, 2, 3, 4, last}, append([]int{1, 2}, o...), append(c(n-1, last+1), last), o[:2:2])
	if last > 0 {
		l = append(l, c(n-1, last-1))
	} else {
		l = append(l, c(n-1, 7))
	}
	if last >= 10 {
		l = append(l, c(n-1, last/10))
	} else {
		l = append(l, c(n-1, last+10))
	}
	return l
}

const nearArcsN = 22

// nearExts lists the extensions of a certificate or request as text.
func nearExts(list *ref.Node) (l []string) {
	for _, e := range list.Children {
		s := ""
		for _, p := range e.Children {
			s += fmt.Sprintf("%x ", p.Raw)
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func nearFull() *x509.Certificate {
	u, _ := url.Parse("http://a.example/x")
	c := leafTemplate("full", 5)
	c.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
	c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	c.BasicConstraintsValid, c.IsCA = true, true
	c.SubjectKeyId = []byte("own")
	c.OCSPServer = []string{"http://ocsp.example"}
	c.DNSNames, c.URIs = []string{"a.example"}, []*url.URL{u}
	c.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3}}
	c.PermittedDNSDomains = []string{"example"}
	c.CRLDistributionPoints = []string{"http://crl.example"}
	return c
}

func c11Near(t *engine.T) {
	std := [][]int{{2, 5, 29, 15}, {2, 5, 29, 37}, {2, 5, 29, 19}, {2, 5, 29, 14}, {2, 5, 29, 35}, {1, 3, 6, 1, 5, 5, 7, 1, 1}, {2, 5, 29, 17}, {2, 5, 29, 32}, {2, 5, 29, 30}, {2, 5, 29, 31}}
	ei := t.Pick("extension", len(std))
	ni := t.Pick("near", nearArcsN)
	form := t.Pick("form", 6)
	t.Begin()
	k, ca := xkeyOf(3), caTemplate("ca", 1)
	id := nearArcs(std[ei])[ni]
	for _, o := range std {
		if asn1.ObjectIdentifier(id).Equal(o) { // these values are read and must be well-formed; harness extensions has them
			t.Outcome("standard")
			return
		}
	}
	extra := pkix.Extension{Id: id, Critical: form&1 == 1, Value: ref.Null()}
	make1 := func(x []pkix.Extension) []string {
		tpl := nearFull()
		tpl.ExtraExtensions = x
		der, err := x509.CreateCertificate(kit.NewRand("c11near"), tpl, ca, k.pub, k.s)
		t.Step(1)
		t.Check(err == nil, "near", "extra extension %v: %v", id, err)
		tbs := ref.Parse(der, 0)[0].At(0)
		return nearExts(tbs.Children[len(tbs.Children)-1].Children[0])
	}
	base := make1(nil)
	t.Check(len(base) == len(std), "near", "%d extensions: %v", len(base), base)
	want := append([]string{}, base...)
	put := func(e pkix.Extension) {
		pre := fmt.Sprintf("%x ", ref.OID(e.Id...))
		var w []string
		for _, s := range want {
			if !strings.HasPrefix(s, pre) {
				w = append(w, s)
			}
		}
		s := pre
		if e.Critical {
			s += "0101ff "
		}
		want = append(w, s+fmt.Sprintf("%x ", ref.Oct(e.Value)))
	}
	list := []pkix.Extension{extra}
	put(extra)
	if form >= 2 { // next to another one, before or after it
		o := pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 840, 7}, Value: ref.Int(5)}
		put(o)
		list = append(list, o)
		if form >= 4 {
			list[0], list[1] = list[1], list[0]
		}
	}
	sort.Strings(want)
	got := make1(list)
	t.Check(strings.Join(got, "\n") == strings.Join(want, "\n"), "near", "extra extension %v: the certificate has\n%s\nwant\n%s", id, strings.Join(got, "\n"), strings.Join(want, "\n"))
	t.State("%d %d %d", ei, ni, form)
	t.Outcome("extension %d", ei)
}

// nearNames are subjects for a template that also has an encoded one.
func nearNames() []pkix.Name {
	return []pkix.Name{{}, {CommonName: "other"}, {ExtraNames: []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "extra"}}}, {CommonName: "other", ExtraNames: []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{2, 5, 4, 10}, Value: "extra"}}},
		{Names: []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "names"}}}, {CommonName: "raw"}, {SerialNumber: "5"}, {Country: []string{"CN"}, Organization: []string{"o"}}}
}

// c11Raw: the encoded names of templates and parents are used as they are.
func c11Raw(t *engine.T) {
	what := t.Pick("what", 4)
	si := t.Pick("subject", 8)
	ri := t.Pick("raw", 5)
	pi := t.Pick("parent", 8)
	t.Begin()
	raws := nearRaws()
	raw := raws[ri]
	k := xkeyOf(3)
	tpl, parent := leafTemplate("x", 5), caTemplate("ca", 1)
	tpl.Subject, tpl.RawSubject = nearNames()[si], kit.Clone(raw)
	parent.Subject, parent.RawSubject = nearNames()[pi], kit.Clone(raws[(ri+1)%len(raws)])
	parent.PublicKey = k.pub
	r := kit.NewRand("c11raw")
	tail := func(der []byte, err error) *ref.Node {
		t.Step(1)
		t.Check(err == nil, "raw", "%v", err)
		return ref.Parse(der, 0)[0].At(0)
	}
	switch what {
	case 0:
		n := tail(x509.CreateCertificate(r, tpl, parent, k.pub, k.s))
		t.Check(bytes.Equal(n.At(5).Raw, raw), "raw", "subject %x, want %x", n.At(5).Raw, raw)
		t.Check(bytes.Equal(n.At(3).Raw, parent.RawSubject), "raw", "issuer %x, want %x", n.At(3).Raw, parent.RawSubject)
	case 1:
		n := tail(x509.CreateCertificateRequest(r, &x509.CertificateRequest{RawSubject: kit.Clone(raw), Subject: nearNames()[si]}, k.s))
		t.Check(bytes.Equal(n.At(1).Raw, raw), "raw", "subject %x, want %x", n.At(1).Raw, raw)
	case 2:
		n := tail(parent.CreateCRL(r, k.s, nil, t2020, t2040))
		t.Check(bytes.Equal(n.At(2).Raw, parent.RawSubject), "raw", "issuer %x, want %x", n.At(2).Raw, parent.RawSubject)
	case 3:
		n := tail(x509.CreateRevocationList(r, &x509.RevocationList{Number: kit.B(5), ThisUpdate: t2020, NextUpdate: t2040}, parent, k.s))
		t.Check(bytes.Equal(n.At(2).Raw, parent.RawSubject), "raw", "issuer %x, want %x", n.At(2).Raw, parent.RawSubject)
	}
	t.State("%d %d %d %d", what, si, ri, pi)
	t.Outcome("%d", what)
}

func c13Near(t *engine.T) {
	ni := t.Pick("near", nearArcsN)
	form := t.Pick("form", 4)
	what := t.Pick("what", 2)
	t.Begin()
	k := xkeyOf(3)
	tpl := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "near"}, DNSNames: []string{"a.example"}}
	san := ref.Seq(ref.TLV(0x82, []byte("a.example")))
	sanID, reqID := ref.OID(2, 5, 29, 17), ref.OID(1, 2, 840, 113549, 1, 9, 14)
	var exts, atts []string
	sanArcs, reqArcs := asn1.ObjectIdentifier{2, 5, 29, 17}, asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
	if what == 0 && sanArcs.Equal(nearArcs(sanArcs)[ni]) { // must be well-formed
		t.Outcome("standard")
		return
	}
	if what == 0 { // an extension beside the alternative name
		id := nearArcs(sanArcs)[ni]
		tpl.ExtraExtensions = []pkix.Extension{{Id: id, Critical: form&1 == 1, Value: ref.Null()}}
		if form >= 2 {
			tpl.ExtraExtensions = append([]pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 840, 7}, Value: ref.Int(5)}}, tpl.ExtraExtensions...)
			exts = append(exts, fmt.Sprintf("%x %x ", ref.OID(1, 2, 840, 7), ref.Oct(ref.Int(5))))
		}
		s := fmt.Sprintf("%x ", ref.OID(id...))
		if form&1 == 1 {
			s += "0101ff "
		}
		exts = append(exts, s+fmt.Sprintf("%x ", ref.Oct(ref.Null())))
		exts = append(exts, fmt.Sprintf("%x %x ", sanID, ref.Oct(san)))
	} else { // an attribute beside the requested extensions
		id := nearArcs(reqArcs)[ni]
		val := []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 3}, Value: []byte{5}}}
		one := ref.Seq(ref.OID(1, 2, 3), ref.Oct([]byte{5}))
		vals := [][]pkix.AttributeTypeAndValue{val}
		raw := [][]byte{ref.Seq(one)}
		if form&1 == 1 {
			vals[0] = append(vals[0], val[0])
			raw[0] = ref.Seq(one, one)
		}
		a := pkix.AttributeTypeAndValueSET{Type: id, Value: vals}
		tpl.Attributes = []pkix.AttributeTypeAndValueSET{a}
		if form >= 2 {
			tpl.Attributes = append([]pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 840, 7}, Value: vals}}, a)
			atts = append(atts, fmt.Sprintf("%x", ref.Seq(ref.OID(1, 2, 840, 7), ref.Set(raw...))))
		}
		if !reqArcs.Equal(id) {
			atts = append(atts, fmt.Sprintf("%x", ref.Seq(ref.OID(id...), ref.Set(raw...))))
			exts = append(exts, fmt.Sprintf("%x %x ", sanID, ref.Oct(san)))
		} else {
			for i := 0; i <= form&1; i++ {
				exts = append(exts, fmt.Sprintf("%x %x ", ref.OID(1, 2, 3), ref.Oct([]byte{5})))
			}
			exts = append(exts, fmt.Sprintf("%x %x ", sanID, ref.Oct(san)))
		}
	}
	der, err := x509.CreateCertificateRequest(kit.NewRand("c13near"), tpl, k.s)
	t.Step(1)
	t.Check(err == nil, "near", "%d %d: %v", what, ni, err)
	var gotE, gotA []string
	for _, a := range ref.Parse(der, 0)[0].At(0, 3).Children {
		if bytes.Equal(a.At(0).Raw, reqID) {
			gotE = append(gotE, nearExts(a.At(1, 0))...)
		} else {
			gotA = append(gotA, fmt.Sprintf("%x", a.Raw))
		}
	}
	for _, l := range [][]string{gotE, gotA, exts, atts} {
		sort.Strings(l)
	}
	t.Check(fmt.Sprint(gotE) == fmt.Sprint(exts), "near", "%d %d %d: extensions %v, want %v: %x", what, ni, form, gotE, exts, der)
	t.Check(fmt.Sprint(gotA) == fmt.Sprint(atts), "near", "%d %d %d: attributes %v, want %v: %x", what, ni, form, gotA, atts, der)
	t.State("%d %d %d", what, ni, form)
	t.Outcome("%d", what)
}

// nearRaws are encoded names.
func nearRaws() [][]byte {
	return [][]byte{nameCN("raw"), ref.Seq(), ref.Seq(ref.Set(ref.Seq(ref.OID(2, 5, 4, 3), ref.TLV(0x14, []byte("teletex")))), ref.Set(ref.Seq(ref.OID(2, 5, 4, 6), ref.TLV(0x13, []byte("CN"))))),
		ref.Seq(ref.Set(ref.Seq(ref.OID(1, 2, 3), ref.TLV(0x16, []byte("ia5"))))), ref.Seq(ref.Set(ref.Seq(ref.OID(2, 5, 4, 10), ref.TLV(0x0c, []byte("b"))), ref.Seq(ref.OID(2, 5, 4, 11), ref.TLV(0x0c, []byte("a")))))}
}

func c13Raw(t *engine.T) {
	si := t.Pick("subject", 8)
	ri := t.Pick("raw", 5)
	t.Begin()
	raw := nearRaws()[ri]
	k := xkeyOf(3)
	der, err := x509.CreateCertificateRequest(kit.NewRand("c13raw"), &x509.CertificateRequest{RawSubject: kit.Clone(raw), Subject: nearNames()[si]}, k.s)
	t.Step(1)
	t.Check(err == nil, "raw", "%v", err)
	got := ref.Parse(der, 0)[0].At(0, 1).Raw
	t.Check(bytes.Equal(got, raw), "raw", "subject %x, want %x", got, raw)
	t.State("%d %d", si, ri)
	t.Outcome("raw %d", ri)
}
