package props

import (
	"bytes"
	"fmt"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

// The harnesses of this file put signatures that are not the right one under
// certificates, requests, lists and messages whose fields have all kinds of
// values, usual and unusual: no value of any field makes a signature valid.

var forgeKinds = []string{"right", "none", "other key", "other text", "zeros", "r=s=0", "r=s=1", "r=n-1 s=1", "digest", "extended", "cut", "one byte", "whole"}

// forgeSig is a signature of the given kind over tbs.
func forgeSig(kind, ki int, tbs []byte) []byte {
	k := xkeyOf(ki)
	good := func() []byte { return signBytes(k, tbs, 31) }
	switch forgeKinds[kind] {
	case "right":
		return good()
	case "none":
		return nil
	case "other key":
		return signBytes(xkeyOf(100+ki%100), tbs, 32)
	case "other text":
		return signBytes(k, append(kit.Clone(tbs), 0), 33)
	case "zeros":
		return make([]byte, len(good()))
	case "r=s=0":
		return ref.DERSig(kit.B(0), kit.B(0))
	case "r=s=1":
		return ref.DERSig(kit.B(1), kit.B(1))
	case "r=n-1 s=1":
		return ref.DERSig(kit.B(1).Sub(ref.N, kit.B(1)), kit.B(1))
	case "digest":
		return ref.SM3(tbs)
	case "extended":
		return append(good(), 0)
	case "cut":
		s := good()
		return s[:len(s)-1]
	case "one byte":
		return []byte{0x30}
	case "whole":
		return tbs
	}
	panic(kind)
}

var forgeKeys = []int{0, 1, 2, 3}

func c12Forged(t *engine.T) {
	ki := forgeKeys[t.Pick("key", len(forgeKeys))]
	kind := t.Pick("signature", len(forgeKinds))
	k := xkeyOf(ki)
	tm := func(tag byte, s string) []byte { return ref.TLV(tag, []byte(s)) }
	version := t.Choose("version", 5)
	serial := t.Choose("serial", 8)
	names := t.Choose("names", 6)
	valid := t.Choose("validity", 7)
	spki := t.Choose("key info", 7)
	ids := t.Choose("identifiers", 3)
	ext := t.Choose("extensions", 14)
	parentExt := t.Choose("parent", 6)
	t.Begin()
	parent, err := x509.ParseCertificate(handCert(1, 2, "ca", "ca", spkiOf(k.pub), k, [][][]byte{{extBC(true), extKU(0x60)}, {extBC(true)}, {extBC(true), extKU(0)}, {extBC(true), extKU(0x1ff)},
		{c26Ext(ref.OID(2, 5, 29, 19), true, ref.Seq(ref.TLV(1, []byte{0xff}), ref.Int(0))), extKU(0x20)}, {extBC(true), extKU(0x60), c26Ext(ref.OID(2, 5, 29, 14), false, ref.Oct([]byte("ski")))}}[parentExt]...))
	t.Check(err == nil, "parent", "%v", err)
	var body [][]byte
	body = append(body, [][]byte{ref.Ctx(0, ref.Int(2)), {}, ref.Ctx(0, ref.Int(0)), ref.Ctx(0, ref.Int(1)), ref.Ctx(0, ref.Int(3))}[version],
		[][]byte{ref.Int(7), ref.Int(0), ref.Int(1), ref.Int(-1), ref.TLV(2, bytes.Repeat([]byte{0x7f}, 20)), ref.TLV(2, bytes.Repeat([]byte{0x80}, 21)), ref.TLV(2, []byte{1, 0, 0, 0, 0, 0, 0, 0, 0}), ref.Int(1 << 32)}[serial], aiOf(k))
	iss, sub := nameCN("ca"), nameCN("leaf")
	switch names {
	case 1:
		sub = nameCN("ca")
	case 2:
		sub = ref.Seq()
	case 3:
		iss = ref.Seq()
	case 4:
		iss = nameCN("another")
	case 5:
		iss, sub = nameCN("another"), nameCN("another")
	}
	val := [][2][]byte{{tm(0x17, "200101000000Z"), tm(0x17, "400101000000Z")}, {tm(0x17, "400101000000Z"), tm(0x17, "200101000000Z")}, {tm(0x18, "20500101000000Z"), tm(0x18, "99991231235959Z")}, {tm(0x18, "19000101000000Z"), tm(0x18, "19010101000000Z")},
		{tm(0x17, "500101000000Z"), tm(0x17, "491231235959Z")}, {tm(0x17, "200101000000Z"), tm(0x17, "200101000000Z")}, {tm(0x18, "00010101000000Z"), tm(0x18, "00010101000000Z")}}[valid]
	sp := spkiOf(xkeyOf(100).pub)
	switch spki {
	case 1:
		sp = spkiOf(k.pub)
	case 2:
		sp = spkiOf(xkeyOf(1).pub)
	case 3:
		sp = spkiOf(xkeyOf(2).pub)
	case 4:
		sp = spkiOf(xkeyOf(3).pub)
	case 5:
		sp = ref.Seq(ref.Seq(ref.OID(1, 2, 3, 4), ref.Null()), ref.BitStr([]byte{1, 2, 3}))
	case 6:
		sp = ref.Seq(ref.Seq(ref.OID(1, 3, 101, 110)), ref.BitStr(make([]byte, 32)))
	}
	body = append(body, iss, ref.Seq(val[0], val[1]), sub, sp)
	if ids > 0 {
		body = append(body, ref.TLV(byte(0x80+ids), []byte{0, 1}))
	}
	o := func(n int) []byte { return ref.OID(2, 5, 29, n) }
	e := [][][]byte{nil, {extBC(true), extKU(0x60)}, {extBC(false)}, {extKU(0)}, {extKU(1)}, {c26Ext(o(35), false, ref.Seq(ref.TLV(0x80, []byte("ski"))))}, {c26Ext(o(35), false, ref.Seq(ref.TLV(0x80, []byte("other"))))}, {c26Ext(o(14), false, ref.Oct([]byte("ski")))},
		{c26Ext(ref.OID(1, 3, 6, 1, 4, 1, 11129, 2, 4, 3), true, ref.Null())}, {c26Ext(ref.OID(1, 2, 3, 4), true, nil)}, {c26Ext(o(30), true, ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x82, []byte("a"))))))},
		{c26Ext(o(37), false, ref.Seq(ref.OID(2, 5, 29, 37, 0)))}, {c26Ext(o(17), false, ref.Seq(ref.TLV(0x82, []byte("localhost"))))}, {c26Ext(ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 1, 5), false, ref.Null())}}[ext]
	if e != nil {
		body = append(body, ref.Ctx(3, ref.Seq(e...)))
	}
	tbs := ref.Seq(body...)
	sig := forgeSig(kind, ki, tbs)
	c, err := x509.ParseCertificate(ref.Seq(tbs, aiOf(k), ref.BitStr(sig)))
	t.Step(1)
	if err != nil {
		t.Outcome("%s not read", forgeKinds[kind])
		return
	}
	want := xverify(k.pub, k.def, tbs, sig)
	t.Check(want == (kind == 0), "harness", "signature kind %s valid: %v", forgeKinds[kind], want)
	err = c.CheckSignatureFrom(parent)
	t.Check((err == nil) == want, "accepted", "certificate %x with signature %q by %s: %v", c.Raw, forgeKinds[kind], k.name, err)
	err = parent.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
	t.Check((err == nil) == want, "accepted", "signed part %x with signature %q by %s: %v", tbs, forgeKinds[kind], k.name, err)
	t.Step(2)
	t.State("%d %d %d %d %d %d %d %d %d %d", ki, kind, version, serial, names, valid, spki, ids, ext, parentExt)
	t.Outcome("%s %s", k.name, forgeKinds[kind])
}

func c13Forged(t *engine.T) {
	ki := forgeKeys[t.Pick("key", len(forgeKeys))]
	kind := t.Pick("signature", len(forgeKinds))
	k := xkeyOf(ki)
	version := t.Choose("version", 4)
	name := t.Choose("name", 4)
	attr := t.Choose("attributes", 9)
	t.Begin()
	er := func(e ...[]byte) []byte { return p7Attr(ref.OID(1, 2, 840, 113549, 1, 9, 14), ref.Seq(e...)) }
	parts := [][]byte{ref.Int([]int64{0, 1, 2, -1}[version]), [][]byte{nameCN("r"), ref.Seq(), nameCN(""), nameCN(string(kit.Stream("forge", 0)) + "a longer name than that")}[name], spkiOf(k.pub)}
	a := [][]byte{ref.Ctx(0), nil, ref.Ctx(0, p7Attr(ref.OID(1, 2, 840, 113549, 1, 9, 7), ref.TLV(0x0c, []byte("challenge")))), ref.Ctx(0, er(c26Ext(ref.OID(2, 5, 29, 17), false, ref.Seq(ref.TLV(0x82, []byte("a.b")))))), ref.Ctx(0, er()),
		ref.Ctx(0, p7Attr(ref.OID(1, 2, 3, 4), ref.Null())), ref.Ctx(0, p7Attr(ref.OID(1, 2, 3, 4))), ref.Ctx(0, er(c26Ext(ref.OID(2, 5, 29, 19), true, ref.Seq(ref.TLV(1, []byte{0xff})))), er()),
		ref.Ctx(0, er(extBC(true), extKU(0x60), c26Ext(ref.OID(2, 5, 29, 17), false, ref.Seq(ref.TLV(0x82, []byte("a.b")))), c26Ext(ref.OID(1, 2, 3, 4), false, nil), c26Ext(ref.OID(1, 2, 3, 5), true, nil)))}[attr]
	if a != nil {
		parts = append(parts, a)
	}
	tbs := ref.Seq(parts...)
	sig := forgeSig(kind, ki, tbs)
	c, err := x509.ParseCertificateRequest(ref.Seq(tbs, aiOf(k), ref.BitStr(sig)))
	t.Step(1)
	if err != nil {
		t.Outcome("%s not read", forgeKinds[kind])
		return
	}
	want := xverify(k.pub, k.def, tbs, sig)
	t.Check(want == (kind == 0), "harness", "signature kind %s valid: %v", forgeKinds[kind], want)
	err = c.CheckSignature()
	t.Step(1)
	t.Check((err == nil) == want, "accepted", "request %x with signature %q by %s: %v", c.Raw, forgeKinds[kind], k.name, err)
	t.State("%d %d %d %d %d", ki, kind, version, name, attr)
	t.Outcome("%s %s", k.name, forgeKinds[kind])
}

func c14Forged(t *engine.T) {
	ki := forgeKeys[t.Pick("key", len(forgeKeys))]
	kind := t.Pick("signature", len(forgeKinds))
	k := xkeyOf(ki)
	version := t.Choose("version", 4)
	name := t.Choose("issuer", 3)
	times := t.Choose("times", 6)
	revoked := t.Choose("revoked", 5)
	ext := t.Choose("extensions", 8)
	t.Begin()
	tm := func(tag byte, s string) []byte { return ref.TLV(tag, []byte(s)) }
	rv := func(n int64, e ...[]byte) []byte {
		l := [][]byte{ref.Int(n), tm(0x17, "210101000000Z")}
		if len(e) > 0 {
			l = append(l, ref.Seq(e...))
		}
		return ref.Seq(l...)
	}
	parts := [][]byte{[][]byte{ref.Int(1), {}, ref.Int(0), ref.Int(2)}[version], aiOf(k), [][]byte{nameCN("crl issuer"), nameCN("another"), ref.Seq()}[name],
		[][]byte{append(tm(0x17, "200101000000Z"), tm(0x17, "400101000000Z")...), tm(0x17, "200101000000Z"), append(tm(0x17, "200101000000Z"), tm(0x17, "200102000000Z")...), append(tm(0x18, "20500101000000Z"), tm(0x18, "99991231235959Z")...), append(tm(0x17, "400101000000Z"), tm(0x17, "200101000000Z")...), tm(0x18, "00010101000000Z")}[times],
		[][]byte{ref.Seq(rv(5)), {}, ref.Seq(), ref.Seq(rv(0), rv(-1), rv(1<<40)), ref.Seq(rv(5, c26Ext(ref.OID(2, 5, 29, 21), false, ref.TLV(10, []byte{8}))))}[revoked]}
	o := func(n int) []byte { return ref.OID(2, 5, 29, n) }
	e := [][][]byte{nil, {c26Ext(o(35), false, ref.Seq(ref.TLV(0x80, []byte("ski"))))}, {c26Ext(o(20), false, ref.Int(0))}, {c26Ext(o(20), false, ref.Int(9)), c26Ext(o(27), true, ref.Int(3))}, {c26Ext(o(28), true, ref.Seq())}, {c26Ext(ref.OID(1, 2, 3), true, nil)}, {}, {c26Ext(o(20), false, ref.Int(-1))}}[ext]
	if e != nil {
		parts = append(parts, ref.Ctx(0, ref.Seq(e...)))
	}
	tbs := ref.Seq(parts...)
	sig := forgeSig(kind, ki, tbs)
	der := ref.Seq(tbs, aiOf(k), ref.BitStr(sig))
	l, err := x509.ParseDERCRL(der)
	t.Step(1)
	if err != nil {
		t.Outcome("%s not read", forgeKinds[kind])
		return
	}
	want := xverify(k.pub, k.def, tbs, sig)
	t.Check(want == (kind == 0), "harness", "signature kind %s valid: %v", forgeKinds[kind], want)
	parent, err := x509.ParseCertificate(handCert(1, 2, "crl issuer", "crl issuer", spkiOf(k.pub), k, extBC(true), extKU(0x60)))
	t.Check(err == nil, "parent", "%v", err)
	err = parent.CheckCRLSignature(l)
	t.Step(1)
	t.Check((err == nil) == want, "accepted", "list %x with signature %q by %s: %v", der, forgeKinds[kind], k.name, err)
	t.State("%d %d %d %d %d %d %d", ki, kind, version, name, times, revoked, ext)
	t.Outcome("%s %s", k.name, forgeKinds[kind])
}

func c17Forged(t *engine.T) {
	kind := t.Pick("signature", len(forgeKinds))
	direct := t.Pick("direct", 2)
	outer := t.Choose("version", 6)
	algs := t.Choose("algorithms", 5)
	ctype := t.Choose("type", 4)
	cont := t.Choose("content", 5)
	certs := t.Choose("certificates", 5)
	ver := t.Choose("signer version", 5)
	dalg := t.Choose("digest algorithm", 7)
	salg := t.Choose("signature algorithm", 7)
	attr := t.Choose("attributes", 8)
	tail := t.Choose("unsigned attributes", 4)
	t.Begin()
	content := [][]byte{kit.Pattern(0, 20), {}, nil, make([]byte, 32), ref.SM3(nil)}[cont]
	sha := func(n int) []byte { return ref.Seq(ref.OID(2, 16, 840, 1, 101, 3, 4, 2, n), ref.Null()) }
	attrs := p7Attrs(content)
	switch attr {
	case 1: // none at all, but the field is there
		attrs = nil
	case 2:
		attrs = attrs[2:]
	case 3:
		attrs = append(attrs, p7Attr(ref.OID(1, 2, 3, 4), ref.Null()))
	case 4:
		attrs[1] = p7Attr(oidST, ref.TLV(0x18, []byte("20500101000000Z")))
	case 5:
		attrs[0] = p7Attr(oidCT, ref.OID(1, 2, 3))
	case 6:
		attrs = append(attrs, attrs[2])
	case 7:
		attrs = attrs[:2]
	}
	body := derSorted(attrs)
	tbs := ref.TLV(0x31, body)
	if direct == 1 {
		tbs = content
	}
	if kind == 0 {
		kind = 2
	}
	parts := [][]byte{ref.Int([]int64{1, 0, 2, 3, -1, 5}[ver]), ref.Seq(nameCN("iss"), ref.Int(50)), [][]byte{aiSM3, ref.Seq(ref.OID(1, 2, 156, 10197, 1, 401), ref.Null()), sha(1), sha(3), ref.Seq(ref.OID(1, 3, 14, 3, 2, 26), ref.Null()), ref.Seq(ref.OID(1, 2, 840, 113549, 2, 5), ref.Null()), ref.Seq(ref.OID(1, 2, 3))}[dalg]}
	if direct == 0 {
		parts = append(parts, ref.Ctx(0, body))
	}
	parts = append(parts, [][]byte{ref.Seq(ref.OID(1, 2, 156, 10197, 1, 501)), ref.Seq(ref.OID(1, 2, 156, 10197, 1, 301, 1)), ref.Seq(oidECPub), ref.Seq(ref.OID(1, 2, 840, 113549, 1, 1, 1), ref.Null()), ref.Seq(ref.OID(1, 2, 840, 113549, 1, 1, 4), ref.Null()), ref.Seq(ref.OID(1, 2, 840, 10045, 4, 1)), ref.Seq(ref.OID(1, 2, 3))}[salg], ref.Oct(forgeSig(kind, 0, tbs)))
	switch tail {
	case 1:
		parts = append(parts, ref.Ctx(1))
	case 2:
		parts = append(parts, ref.Ctx(1, p7Attr(ref.OID(1, 2, 840, 113549, 1, 9, 6), ref.Null())))
	case 3:
		parts = append(parts, ref.Ctx(1, p7Attr(oidMD, ref.Oct(ref.SM3(content)))))
	}
	ci := [][]byte{[][]byte{oidP7Data, ref.OID(1, 2, 840, 113549, 1, 7, 1), ref.OID(1, 2, 3), oidP7Signed}[ctype]}
	if content != nil {
		ci = append(ci, ref.Ctx(0, ref.Oct(content)))
	}
	one, other := p7Cert(0, 50, "iss"), p7Cert(7, 51, "iss")
	sd := [][]byte{ref.Int([]int64{1, 0, 2, 3, -1, 5}[outer]), [][]byte{ref.Set(aiSM3), ref.Set(), ref.Set(sha(1)), ref.Set(sha(1), aiSM3), ref.Set(ref.Seq(ref.OID(1, 2, 3)))}[algs], ref.Seq(ci...)}
	switch certs {
	case 0:
		sd = append(sd, ref.Ctx(0, one))
	case 1:
		sd = append(sd, ref.Ctx(0, other, one))
	case 2:
		sd = append(sd, ref.Ctx(0))
	case 3:
	case 4:
		sd = append(sd, ref.Ctx(0, one, one), ref.Ctx(1, c14Hand(xkeyOf(0), 1)))
	}
	sd = append(sd, ref.Set(ref.Seq(parts...)))
	for _, ot := range [][]byte{oidP7Signed, ref.OID(1, 2, 840, 113549, 1, 7, 2)} {
		der := ref.Seq(ot, ref.Ctx(0, ref.Seq(sd...)))
		p, err := x509.ParsePKCS7(der)
		t.Step(1)
		if err == nil {
			err = p.Verify()
			t.Step(1)
		}
		t.Check(err != nil, "accepted", "message %x with signature %q accepted", der, forgeKinds[kind])
	}
	t.State("%s", fmt.Sprint(kind, direct, outer, algs, ctype, cont, certs, ver, dalg, salg, attr, tail))
	t.Outcome("direct %d %s", direct, forgeKinds[kind])
}
