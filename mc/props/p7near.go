package props

import (
	"bytes"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

// p7ID is what a signer entry names its certificate by.
type p7ID struct {
	what         string
	name, serial []byte
}

// p7IDs are identities that differ from the first in one respect, some of
// them only just.
func p7IDs() []p7ID {
	rdn := func(atvs ...[]byte) []byte { return ref.Set(atvs...) }
	atv := func(oid []byte, tag byte, v string) []byte { return ref.Seq(oid, ref.TLV(tag, []byte(v))) }
	cn, o := ref.OID(2, 5, 4, 3), ref.OID(2, 5, 4, 10)
	s := kit.B(0x414243)
	base := nameCN("Issuer A")
	num := func(x *big.Int) []byte { return ref.DERInt(x) }
	ids := []p7ID{
		{"itself", base, num(s)},
		{"name in lower case", nameCN("issuer a"), num(s)},
		{"name with a space behind", nameCN("Issuer A "), num(s)},
		{"name with two spaces", nameCN("Issuer  A"), num(s)},
		{"name shortened", nameCN("Issuer "), num(s)},
		{"name extended", nameCN("Issuer AA"), num(s)},
		{"name as PrintableString", ref.Seq(rdn(atv(cn, 0x13, "Issuer A"))), num(s)},
		{"name as TeletexString", ref.Seq(rdn(atv(cn, 0x14, "Issuer A"))), num(s)},
		{"name as BMPString", ref.Seq(rdn(atv(cn, 0x1e, "\x00I\x00s\x00s\x00u\x00e\x00r\x00 \x00A"))), num(s)},
		{"other attribute", ref.Seq(rdn(atv(o, 0x0c, "Issuer A"))), num(s)},
		{"no name", ref.Seq(), num(s)},
		{"name twice", ref.Seq(rdn(atv(cn, 0x0c, "Issuer A")), rdn(atv(cn, 0x0c, "Issuer A"))), num(s)},
		{"two names", ref.Seq(rdn(atv(o, 0x0c, "Org")), rdn(atv(cn, 0x0c, "Issuer A"))), num(s)},
		{"two names exchanged", ref.Seq(rdn(atv(cn, 0x0c, "Issuer A")), rdn(atv(o, 0x0c, "Org"))), num(s)},
		{"two names in one set", ref.Seq(rdn(atv(cn, 0x0c, "Issuer A"), atv(o, 0x0c, "Org"))), num(s)},
		{"serial negated", base, num(new(big.Int).Neg(s))},
		{"serial zero", base, num(kit.B(0))},
		{"serial plus 1", base, num(new(big.Int).Add(s, ref.One))},
	}
	for _, n := range []uint{8, 16, 24, 32, 63, 64, 128, 152} {
		x := new(big.Int).Lsh(ref.One, n)
		ids = append(ids, p7ID{"serial plus a power of two", base, num(x.Add(x, s))})
	}
	for _, sh := range []uint{8, 40} {
		ids = append(ids, p7ID{"serial shifted", base, num(new(big.Int).Lsh(s, sh))})
	}
	return append(ids, p7ID{"serial shifted down", base, num(new(big.Int).Rsh(s, 8))})
}

// p7CertID is a certificate for key ki with that identity; nothing checks its
// signature.
func p7CertID(ki int, id p7ID) []byte {
	c := ref.Parse(p7Cert(ki, 1, "x"), 0)[0]
	tbs := c.Children[0]
	parts := [][]byte{tbs.Children[0].Raw, id.serial, tbs.Children[2].Raw, id.name}
	for _, n := range tbs.Children[4:] {
		parts = append(parts, n.Raw)
	}
	return ref.Seq(ref.Seq(parts...), c.Children[1].Raw, c.Children[2].Raw)
}

func c16Near(t *engine.T) {
	ids := p7IDs()
	si := t.Pick("signer", len(ids))
	ni := t.Pick("near", len(ids))
	direct := t.Pick("direct", 2) == 1
	t.Begin()
	if si == ni || bytes.Equal(ids[si].name, ids[ni].name) && bytes.Equal(ids[si].serial, ids[ni].serial) {
		return
	}
	content := []byte("content")
	exact, near := p7CertID(0, ids[si]), p7CertID(7, ids[ni])
	a := derSorted(p7Attrs(content))
	info := p7Info(ids[si].name, ids[si].serial, a, p7Sign(0, ref.TLV(0x31, a), 6))
	if direct {
		info = p7Info(ids[si].name, ids[si].serial, nil, p7Sign(0, content, 5))
	}
	for order, certs := range [][][]byte{{near, exact}, {exact, near}} {
		p, err := x509.ParsePKCS7(p7Build(content, certs, nil, info))
		t.Check(err == nil, "parse", "%v", err)
		err = p.Verify()
		t.Check(err == nil, "near", "signer %q, order %d, with a certificate of %q: a valid message is refused: %v", ids[si].what, order, ids[ni].what, err)
		o := p.GetOnlySigner()
		t.Check(o != nil && bytes.Equal(o.Raw, exact), "near", "signer %q, order %d, with a certificate of %q: another certificate is given as the signer's", ids[si].what, order, ids[ni].what)
		t.Step(3)
	}
	t.State("%d %d %v", si, ni, direct)
}

// c17Near: the identity is that of one certificate, the signature by the key
// of the other.
func c17Near(t *engine.T) {
	ids := p7IDs()
	si := t.Pick("signer", len(ids))
	ni := t.Pick("near", len(ids))
	direct := t.Pick("direct", 2) == 1
	t.Begin()
	if si == ni || bytes.Equal(ids[si].name, ids[ni].name) && bytes.Equal(ids[si].serial, ids[ni].serial) {
		return
	}
	content := []byte("content")
	exact, near := p7CertID(7, ids[si]), p7CertID(0, ids[ni])
	a := derSorted(p7Attrs(content))
	info := p7Info(ids[si].name, ids[si].serial, a, p7Sign(0, ref.TLV(0x31, a), 6))
	if direct {
		info = p7Info(ids[si].name, ids[si].serial, nil, p7Sign(0, content, 5))
	}
	sets := [][][]byte{{near, exact}, {exact, near}}
	if ni > 8 && si > 8 || ni == 0 && si > 8 || si == 0 && ni > 8 { // names that no comparison takes for the same
		sets = append(sets, [][]byte{near})
	}
	for order, certs := range sets {
		p, err := x509.ParsePKCS7(p7Build(content, certs, nil, info))
		t.Check(err == nil, "parse", "%v", err)
		t.Check(p.Verify() != nil, "near", "signer %q, order %d, signed by the key of %q: accepted", ids[si].what, order, ids[ni].what)
		t.Step(1)
	}
	t.State("%d %d %v", si, ni, direct)
}

// nearOIDs are identifiers close to those of the usual attributes.
func nearOIDs() [][]byte {
	var out [][]byte
	for _, last := range []int{3, 4, 5} {
		out = append(out, ref.OID(1, 2, 840, 113549, 1, 9, last, 1), ref.OID(1, 2, 840, 113549, 1, 9, last, 0), ref.OID(1, 2, 840, 113549, 1, 9, last+128), ref.OID(1, 2, 840, 113549, 1, 9, last*128),
			ref.OID(1, 2, 840, 113549, 1, last), ref.OID(1, 2, 840, 113549, 1, 9, 1, last), ref.OID(1, 2, 840, 113550, 1, 9, last), ref.OID(1, 3, 840, 113549, 1, 9, last), ref.OID(2, 840, 113549, 1, 9, last),
			ref.OID(1, 2, 840, 113549, 1, 9, last+256), ref.OID(1, 2, 840, 113549, 1, 9, 1<<31-1))
	}
	return append(out, ref.OID(1, 2, 840, 113549, 1, 9), ref.OID(1, 2), ref.OID(2, 5, 4, 3), oidCT, oidST)
}

// p7Orders are the attributes with one more, before, behind, in DER order.
func p7Orders(attrs [][]byte, more []byte) [][]byte {
	j := bytes.Join(attrs, nil)
	return [][]byte{append(kit.Clone(more), j...), append(kit.Clone(j), more...), derSorted(append([][]byte{more}, attrs...))}
}

func c16NearAttr(t *engine.T) {
	oids := nearOIDs()
	oi := t.Pick("oid", len(oids)-2) // those of other usual attributes are there once
	val := t.Pick("value", 4)
	order := t.Pick("order", 3)
	t.Begin()
	content := []byte("content")
	v := [][]byte{ref.Oct(ref.SM3([]byte("other"))), ref.Oct(nil), ref.Int(1), oidP7Data}[val]
	body := p7Orders(p7Attrs(content), p7Attr(oids[oi], v))[order]
	if order != 2 { // signatures are over the attributes as a SET in the order they have
		if !bytes.Equal(body, p7Orders(p7Attrs(content), p7Attr(oids[oi], v))[2]) {
			return
		}
	}
	p, err := x509.ParsePKCS7(p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, nil, p7Info(nameCN("iss"), ref.Int(50), body, p7Sign(0, ref.TLV(0x31, body), 6))))
	t.Check(err == nil, "parse", "%v", err)
	err = p.Verify()
	t.Check(err == nil, "near-attribute", "another attribute %x = %x: a valid message is refused: %v", oids[oi], v, err)
	t.Step(2)
	t.State("%d %d %d", oi, val, order)
}

// c17NearAttr: the right digest is in an attribute that is not the digest's.
func c17NearAttr(t *engine.T) {
	oids := nearOIDs()
	oi := t.Pick("oid", len(oids))
	kind := t.Pick("digest", 3)
	order := t.Pick("order", 3)
	t.Begin()
	content, other := []byte("content"), []byte("other")
	attrs := p7Attrs(content)[:2]
	if oi >= len(oids)-2 {
		attrs = attrs[1:]
		if oi == len(oids)-1 {
			attrs = p7Attrs(content)[:1]
		}
	}
	switch kind {
	case 1: // of something else
		attrs = append(attrs, p7Attr(oidMD, ref.Oct(ref.SM3(other))))
	case 2:
		attrs = append(attrs, p7Attr(oidMD, ref.Oct(nil)))
	}
	body := p7Orders(attrs, p7Attr(oids[oi], ref.Oct(ref.SM3(content))))[order]
	for _, set := range [][]byte{body, bytes.Join(attrs, nil)} {
		p, err := x509.ParsePKCS7(p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, nil, p7Info(nameCN("iss"), ref.Int(50), body, p7Sign(0, ref.TLV(0x31, set), 6))))
		t.Check(err != nil || p.Verify() != nil, "near-attribute", "content's digest in attribute %x, digest attribute of kind %d, order %d: accepted", oids[oi], kind, order)
		t.Step(1)
	}
	t.State("%d %d %d", oi, kind, order)
}
