package props

import (
	"bytes"
	"encoding/pem"
	"fmt"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

// c26Armour reads revocation lists in and around PEM: only text that begins
// with a list's armour is unwrapped, whatever else the input contains.
func c26Armour(t *engine.T) {
	inner := t.Pick("inner", 6)
	place := t.Pick("place", 5)
	outer := t.Pick("outer", 14)
	t.Begin()
	ai := ref.Seq(ref.OID(1, 3, 101, 112))
	utc := ref.TLV(0x17, []byte("200101000000Z"))
	list := func(n int64, name string, v []byte, tail ...[]byte) []byte {
		body := [][]byte{ref.Int(1), ai, nameCN(name), utc, utc, ref.Seq(ref.Seq(ref.Int(n), utc))}
		if v != nil {
			body = append(body, ref.Ctx(0, ref.Seq(c26Ext(ref.OID(1, 2, 3), false, v))))
		}
		sig := make([]byte, 64)
		for _, b := range tail {
			sig = b
		}
		return ref.Seq(ref.Seq(body...), ai, ref.BitStr(sig))
	}
	arm := func(typ string, der []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}) }
	own := list(1, "inner", nil)
	text := [][]byte{nil, arm("X509 CRL", own), arm("CRL", own), append([]byte("\n"), arm("X509 CRL", own)...), arm("X509 CRL", own[:9]), []byte("-----BEGIN X509 CRL")}[inner]
	var der []byte
	switch place {
	case 0:
		der = list(2, "outer", text)
	case 1:
		der = list(2, string(text), nil)
	case 2:
		der = list(2, "outer", nil, text)
	case 3:
		der = append(list(2, "outer", nil), text...)
	case 4:
		der = append(kit.Clone(text), list(2, "outer", nil)...)
	}
	in := der
	switch outer {
	case 1:
		in = arm("X509 CRL", der)
	case 2:
		in = arm("CERTIFICATE", der)
	case 3:
		in = append([]byte("a line before\n"), arm("X509 CRL", der)...)
	case 4:
		in = append(arm("X509 CRL", der), "a line after\n"...)
	case 5:
		in = append(arm("X509 CRL", der), arm("X509 CRL", own)...)
	case 6:
		in = append(arm("X509 CRL", own), arm("X509 CRL", der)...)
	case 7:
		in = append(arm("X509 CRL", own), der...)
	case 8:
		in = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der, Headers: map[string]string{"a": "b"}})
	case 9:
		in = bytes.ReplaceAll(arm("X509 CRL", der), []byte("\n"), []byte("\r\n"))
	case 10:
		in = bytes.Replace(arm("X509 CRL", der), []byte("END X509"), []byte("END"), 1)
	case 11:
		in = arm("X509 CRL 2", der)
	case 12:
		in = bytes.TrimRight(arm("X509 CRL", der), "\n")
	case 13:
		in = arm("X509 CRL", arm("X509 CRL", der))
	}
	keep := kit.Clone(in)
	ok := c26JudgeCRL(t, fmt.Sprintf("list %d in %d in %d", inner, place, outer), in)
	t.Check(bytes.Equal(in, keep), "input-modified", "list %x changed to %x", keep, in)
	t.Outcome("outer %d read %v", outer, ok)
}

// c26Equal compares certificates that differ in one byte, or are of another
// length, with Equal.
func c26Equal(t *engine.T) {
	shape := t.Pick("shape", 3)
	t.Begin()
	p := []c26Parts{{}, {version: []byte{}}, {exts: [][]byte{extBC(true), extKU(6)}}}[shape]
	der := p.der()
	first, err := x509.ParseCertificate(kit.Clone(der))
	t.Check(err == nil, "refused", "%v", err)
	t.Check(first.Equal(first), "not-itself", "a certificate is not equal to itself")
	t.Check(!first.Equal(nil), "equals-nil", "a certificate equals none")
	t.Check(!(*x509.Certificate)(nil).Equal(first), "equals-nil", "no certificate equals one")
	t.Check((*x509.Certificate)(nil).Equal(nil), "not-itself", "none is not equal to none")
	cs := []*x509.Certificate{first}
	add := func(b []byte) {
		if c, err := x509.ParseCertificate(b); err == nil {
			cs = append(cs, c)
		}
		t.Step(1)
	}
	add(kit.Clone(der))
	for i := range der {
		for bit := 0; bit < 8; bit++ {
			b := kit.Clone(der)
			b[i] ^= 1 << bit
			add(b)
		}
	}
	for _, q := range []c26Parts{{serial: ref.Int(70000)}, {issuer: nameCN("s"), subject: nameCN("i")}, {subject: ref.Seq()}, {exts: [][]byte{extBC(false)}}, {spki: spkiOf(xkeyOf(1).pub)}} {
		add(q.der())
	}
	n := 0
	for _, a := range cs {
		t.Step(len(cs))
		for _, b := range cs {
			same := bytes.Equal(a.Raw, b.Raw)
			t.Check(a.Equal(b) == same, "equal", "certificates %x and %x: equal %v", a.Raw, b.Raw, !same)
			if same {
				n++
			}
		}
	}
	t.Outcome("shape %d: %d certificates, %d equal pairs", shape, len(cs), n)
}

// c26Chains reads several certificates in a row.
func c26Chains(t *engine.T) {
	var p [3]int
	for i := range p {
		p[i] = t.Pick(fmt.Sprint("piece ", i), 13)
	}
	t.Begin()
	v3, v1, ext := c26Parts{}.der(), c26Parts{version: []byte{}, serial: ref.Int(9)}.der(), c26Parts{exts: [][]byte{extBC(true)}, serial: ref.Int(10)}.der()
	long := append([]byte{0x30, 0x83, 0}, v3[2:]...) // a length in more bytes than needed
	if v3[1] == 0x81 {
		long = append([]byte{0x30, 0x82, 0}, v3[2:]...)
	}
	pieces := [][]byte{v3, v1, ext, {0}, {0, 0}, ref.Null(), ref.Seq(), v3[:len(v3)-7], v3[:1], ref.Oct(v3), ref.Seq(v3), long}
	var in []byte
	var want [][]byte
	good, gap := true, false
	for _, i := range p {
		if i == 12 { // nothing
			gap = true
			continue
		}
		if gap {
			t.Outcome("same as a shorter one")
			return
		}
		in = append(in, pieces[i]...)
		if i < 3 {
			want = append(want, pieces[i])
		} else {
			good = false
		}
	}
	keep := kit.Clone(in)
	cs, err := x509.ParseCertificates(in)
	t.Step(1)
	t.Check(bytes.Equal(in, keep), "input-modified", "%x changed to %x", keep, in)
	if !good {
		t.Check(err != nil && len(cs) == 0, "accepted", "pieces %v: read as %d certificates, error %v: %x", p, len(cs), err, in)
	} else {
		t.Check(err == nil && len(cs) == len(want), "refused", "pieces %v: %d certificates, error %v", p, len(cs), err)
		for i, c := range cs {
			t.Check(bytes.Equal(c.Raw, want[i]), "other", "pieces %v: certificate %d is %x, not %x", p, i, c.Raw, want[i])
		}
	}
	if len(want) != 1 || !good {
		c, err := x509.ParseCertificate(in)
		t.Step(1)
		t.Check(c == nil && err != nil, "accepted", "pieces %v: read as one certificate (%v): %x", p, err, in)
	}
	t.State("%v", p)
	t.Outcome("%d certificates, all good %v", len(want), good)
}
