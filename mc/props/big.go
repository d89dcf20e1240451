package props

import (
	"bytes"
	stdx509 "crypto/x509"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf16"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// limitsOf gives the sizes from lo to hi at which a limit, a counter or a
// buffer could end: those around powers of two and ten, and in between.
func limitsOf(lo, hi int) []int {
	in := map[int]bool{}
	add := func(p int) {
		for d := -1; d <= 1; d++ {
			in[p+d] = true
		}
	}
	for p := 8; p <= 2*hi; p *= 2 {
		add(p)
		in[p+p/2] = true
	}
	for p := 10; p <= 2*hi; p *= 10 {
		add(p)
		in[2*p], in[5*p] = true, true
	}
	var out []int
	for p := lo; p <= hi; p++ {
		if in[p] || p == lo || p == hi || p <= 20 {
			out = append(out, p)
		}
	}
	return out
}

// spots are positions in a sequence of n.
func spots(n int) []int {
	if n <= 34 {
		var out []int
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	out := []int{0, n / 2, n - 2, n - 1}
	for p := 8; p < n-2; p *= 2 {
		out = append(out, p-1, p)
	}
	return out
}

// --- C08

// transient fails once, with no bytes, after off bytes; then it goes on.
type transient struct {
	data   []byte
	at     int
	failed bool
	kind   int
	off    int
}

func (f *transient) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(f.data)
	if !f.failed {
		end = f.at
	}
	n := copy(p, f.data[f.off:end])
	f.off += n
	if !f.failed && (n == 0 || f.kind >= 2 && f.off == f.at && n < len(p)) {
		f.failed = true
		if f.kind%2 == 1 {
			return n, io.EOF
		}
		return n, errFault
	}
	if n == 0 {
		return 0, errFault
	}
	return n, nil
}

func c08Transient(t *engine.T) {
	op := c08Ops[t.Pick("op", len(c08Ops))]
	kind := t.Pick("kind", 4)
	t.Begin()
	need, _ := needed(t, op, "transient")
	data := kit.Stream("transient", need+200)
	for i := 0; i < need; i++ {
		f := &transient{data: data, at: i, kind: kind}
		_, _, err, nilOut := op.call(t, f)
		if !f.failed {
			t.Fail("harness", "%s: the fault at %d was not met", op.name, i)
		}
		t.Check(err != nil, "fault-ignored", "%s: the source failed once, after %d of %d bytes (kind %d), and a result was returned", op.name, i, need, kind)
		t.Check(nilOut, "result-with-error", "%s: result together with error %v", op.name, err)
	}
	t.Outcome("%s: one failure at 0..%d reported (kind %d)", op.name, need-1, kind)
}

// --- C12

func c12Self(t *engine.T) {
	ki := t.Pick("key", 4)
	at := t.Pick("byte", 900)
	t.Begin()
	k := xkeyOf(ki)
	der := handCert(5, 2, "root", "root", spkiOf(k.pub), k, extBC(true), extKU(0x60))
	if at >= len(der) {
		return
	}
	good, err := x509.ParseCertificate(der)
	t.Check(err == nil && good.CheckSignatureFrom(good) == nil, "good", "unchanged self-signed certificate not accepted from itself: %v", err)
	again, err := x509.ParseCertificate(der)
	t.Check(err == nil && again.CheckSignatureFrom(good) == nil, "good", "unchanged self-signed certificate not accepted from its copy: %v", err)
	parsed := 0
	for b := 0; b < 8; b++ {
		m := kit.Clone(der)
		m[at] ^= 1 << b
		c, err := x509.ParseCertificate(m)
		t.Step(1)
		if err != nil {
			continue
		}
		parsed++
		t.Check(c.CheckSignatureFrom(c) != nil, "self", "%s self-signed certificate with bit %d of byte %d changed is accepted from itself: %x", k.name, b, at, m)
		t.Check(c.CheckSignatureFrom(good) != nil, "self", "%s self-signed certificate with bit %d of byte %d changed is accepted from the unchanged one: %x", k.name, b, at, m)
	}
	if at == 0 { // one that is not self-signed although its names say so
		for _, o := range []xkey{xkeyOf(100 + ki), xkeyOf((ki + 1) % 4)} {
			c, err := x509.ParseCertificate(handCert(5, 2, "root", "root", spkiOf(k.pub), o, extBC(true), extKU(0x60)))
			t.Check(err == nil, "parse", "%v", err)
			t.Check(c.CheckSignatureFrom(c) != nil, "self", "certificate for a %s key signed by another key is accepted from itself", k.name)
			t.Check(c.CheckSignatureFrom(good) != nil, "self", "certificate for a %s key signed by another key is accepted from its namesake", k.name)
		}
	}
	t.Outcome("%s byte %d: %d of 8 parse", k.name, at, parsed)
}

func c12Long(t *engine.T) {
	ki := t.Pick("key", numXKeys)
	n := limitsOf(64, t.Size(1<<17, 1<<21))
	i := t.Pick("length", len(n))
	t.Begin()
	k := xkeyOf(ki)
	cert := &x509.Certificate{PublicKey: k.pub}
	msg := kit.Stream("long", n[i])
	sig := signBytes(k, msg, int64(n[i]))
	err := cert.CheckSignature(k.def, msg, sig)
	t.Check(err == nil, "valid", "%s: valid signature over %d bytes refused: %v", k.name, n[i], err)
	for _, at := range []int{0, n[i] / 2, n[i] - 1} {
		m := kit.Clone(msg)
		m[at] ^= 0x40
		t.Check(cert.CheckSignature(k.def, m, sig) != nil, "invalid", "%s: message of %d bytes with byte %d changed accepted", k.name, n[i], at)
	}
	t.Check(cert.CheckSignature(k.def, msg[:n[i]-1], sig) != nil && cert.CheckSignature(k.def, append(kit.Clone(msg), 0), sig) != nil, "invalid", "%s: message of %d bytes with another length accepted", k.name, n[i])
	t.Step(6)
	t.State("%s %d", k.name, n[i])
}

// --- C15

// c15Empty: signatures over the empty message and short ones.
func c15Empty(t *engine.T) {
	ki := t.Pick("signer", numXKeys)
	n := t.Pick("length", 3)
	ci := t.Pick("checker", 2*numXKeys)
	t.Begin()
	k := xkeyOf(ki)
	bi := ci
	if ci >= numXKeys {
		bi = 100 + ci - numXKeys
	}
	ck := xkeyOf(bi)
	msg := kit.Pattern(3, n)
	good := signBytes(k, msg, 77)
	sigs := [][]byte{good, signBytes(k, []byte("other"), 78), make([]byte, len(good)), bytes.Repeat([]byte{0xff}, len(good)), {}, nil, {0}, make([]byte, 64), ref.DERSig(kit.B(1), kit.B(1))}
	flip := kit.Clone(good)
	flip[len(flip)-1] ^= 1
	sigs = append(sigs, flip)
	cert := &x509.Certificate{PublicKey: ck.pub}
	msgs := [][]byte{msg}
	if n == 0 {
		msgs = append(msgs, nil)
	}
	for si, sig := range sigs {
		for _, m := range msgs {
			for _, alg := range allSigAlgs {
				want := xverify(ck.pub, alg, msg, sig)
				err := cert.CheckSignature(alg, m, sig)
				t.Step(1)
				t.Check((err == nil) == want, "binding", "signature kind %d by %s over %d bytes, key %s, claimed %v: %v, want accepted=%v", si, k.name, n, ck.name, alg, err, want)
			}
		}
	}
	t.Outcome("%s %d bytes key %s", k.name, n, ck.name)
}

// --- C16

// p7Serials are certificates that differ in the serial number only; nothing
// checks their signatures.
func p7Serials(ki, n int, issuer string) [][]byte {
	base := ref.Parse(p7Cert(ki, 70000, issuer), 0)[0]
	var out [][]byte
	for i := 0; i < n; i++ {
		tbs := base.Children[0]
		parts := [][]byte{tbs.Children[0].Raw, ref.Int(int64(1000 + i))}
		for _, c := range tbs.Children[2:] {
			parts = append(parts, c.Raw)
		}
		out = append(out, ref.Seq(ref.Seq(parts...), base.Children[1].Raw, base.Children[2].Raw))
	}
	return out
}

func c16Many(t *engine.T) {
	what := t.Pick("what", 8)
	his := []int{1001, 257, 257, 1 << 17, 1 << 17, 1 << 20, 257, 1001}
	n := limitsOf(1, his[what])
	i := t.Pick("size", len(n))
	t.Begin()
	size := n[i]
	content := []byte("content")
	judge := func(der []byte, ncerts, ncrls, nsig int, only []byte) {
		p, err := x509.ParsePKCS7(der)
		t.Check(err == nil, "parse", "kind %d size %d: ParsePKCS7: %v", what, size, err)
		t.Check(bytes.Equal(p.Content, content), "content", "kind %d size %d: other content", what, size)
		t.Check(len(p.Certificates) == ncerts && len(p.CRLs) == ncrls && len(p.Signers) == nsig, "parts", "kind %d size %d: %d certificates, %d lists, %d signers", what, size, len(p.Certificates), len(p.CRLs), len(p.Signers))
		err = p.Verify()
		t.Check(err == nil, "verify", "kind %d size %d: Verify: %v", what, size, err)
		if nsig == 1 {
			o := p.GetOnlySigner()
			t.Check(o != nil && bytes.Equal(o.Raw, only), "only", "kind %d size %d: GetOnlySigner is another certificate", what, size)
		} else {
			t.Check(p.GetOnlySigner() == nil, "only", "one signer of %d", nsig)
		}
		t.Step(3)
	}
	info := func(serial int64, issuer string, extra ...[]byte) []byte {
		a := derSorted(append(append([][]byte{}, extra...), p7Attrs(content)...))
		return p7Info(nameCN(issuer), ref.Int(serial), a, p7Sign(0, ref.TLV(0x31, a), 6))
	}
	one := p7Cert(0, 50, "iss")
	switch what {
	case 0: // certificates, the signer's anywhere among them
		certs := p7Serials(0, size, "iss")
		for _, at := range spots(size) {
			if size > 40 && at%3 == 1 && at != size-1 {
				continue
			}
			judge(p7Build(content, certs, nil, p7Good(0, int64(1000+at), "iss", content, false)), size, 0, 1, certs[at])
		}
	case 1: // signers
		certs := p7Serials(0, size, "iss")
		var infos [][]byte
		g := info(0, "iss")
		n := ref.Parse(g, 0)[0]
		for j := 0; j < size; j++ {
			infos = append(infos, p7Info(nameCN("iss"), ref.Int(int64(1000+size-1-j)), n.Children[3].Body, n.Children[5].Body))
		}
		judge(p7Build(content, certs, nil, infos...), size, 0, size, certs[0])
	case 2: // signed attributes
		var extra [][]byte
		for j := 0; j < size; j++ {
			extra = append(extra, p7Attr(ref.OID(1, 2, 3, 4+j), ref.Int(5)))
		}
		judge(p7Build(content, [][]byte{one}, nil, info(50, "iss", extra...)), 1, 0, 1, one)
	case 3: // length of an attribute
		judge(p7Build(content, [][]byte{one}, nil, info(50, "iss", p7Attr(ref.OID(1, 2, 3, 4), ref.Oct(kit.Stream("attr", size))))), 1, 0, 1, one)
	case 4: // length of the issuer's name
		iss := strings.Repeat("i", size)
		c := p7Cert(0, 50, iss)
		judge(p7Build(content, [][]byte{p7Cert(0, 50, iss+"i"), p7Cert(0, 50, iss[1:]), c}, nil, info(50, iss)), 3, 0, 1, c)
	case 5: // length of the content, with and without attributes
		content = kit.Stream("content", size)
		for _, direct := range []bool{false, true} {
			judge(p7Build(content, [][]byte{one}, nil, p7Good(0, 50, "iss", content, direct)), 1, 0, 1, one)
		}
	case 6: // revocation lists
		l := c14Hand(xkeyOf(0), 3)
		judge(p7Build(content, [][]byte{one}, bytesRepeat(l, size), info(50, "iss")), 1, size, 1, one)
	case 7: // values of an attribute
		var vals [][]byte
		for j := 0; j < size; j++ {
			vals = append(vals, ref.Int(int64(j)))
		}
		judge(p7Build(content, [][]byte{one}, nil, info(50, "iss", p7Attr(ref.OID(1, 2, 3, 4), vals...))), 1, 0, 1, one)
	}
	t.State("%d %d", what, size)
}

func bytesRepeat(b []byte, n int) (out [][]byte) {
	for i := 0; i < n; i++ {
		out = append(out, b)
	}
	return
}

// --- C17

func c17Many(t *engine.T) {
	n := limitsOf(4, t.Size(130, 1025))
	size := n[t.Pick("signers", len(n))]
	defect := t.Pick("defect", 5)
	t.Begin()
	if size > 24 && defect > 0 && !t.Thorough() {
		return
	}
	content := []byte("content")
	a := derSorted(p7Attrs(content))
	sig := p7Sign(0, ref.TLV(0x31, a), 6)
	certs := p7Serials(0, size, "iss")
	var good [][]byte
	for j := 0; j < size; j++ {
		good = append(good, p7Info(nameCN("iss"), ref.Int(int64(1000+j)), a, sig))
	}
	p, err := x509.ParsePKCS7(p7Build(content, certs, nil, good...))
	t.Check(err == nil && p.Verify() == nil, "base", "message with %d good signers does not verify: %v", size, err)
	for _, at := range spots(size) {
		ser := ref.Int(int64(1000 + at))
		var bad []byte
		switch defect {
		case 0: // changed signature
			s := kit.Clone(sig)
			s[len(s)-1] ^= 1
			bad = p7Info(nameCN("iss"), ser, a, s)
		case 1: // right signature over another digest
			b := derSorted(p7Attrs([]byte("other")))
			bad = p7Info(nameCN("iss"), ser, b, p7Sign(0, ref.TLV(0x31, b), 6))
		case 2: // no certificate
			bad = p7Info(nameCN("iss"), ref.Int(7), a, sig)
		case 3: // another issuer
			bad = p7Info(nameCN("iss2"), ser, a, sig)
		case 4: // another key's signature
			bad = p7Info(nameCN("iss"), ser, a, p7Sign(7, ref.TLV(0x31, a), 6))
		}
		infos := append([][]byte{}, good...)
		infos[at] = bad
		p, err := x509.ParsePKCS7(p7Build(content, certs, nil, infos...))
		t.Check(err != nil || p.Verify() != nil, "decision", "message with %d signers verifies although signer %d has defect %d", size, at, defect)
		t.Step(1)
	}
	t.State("%d %d", size, defect)
}

// c17Attrs: the digest attribute far back, among many others, is the one that counts.
func c17Attrs(t *engine.T) {
	n := limitsOf(0, t.Size(130, 1025))
	size := n[t.Pick("attributes", len(n))]
	where := t.Pick("where", 3)
	t.Begin()
	content := []byte("content")
	cert := p7Cert(0, 50, "iss")
	var extra [][]byte
	for j := 0; j < size; j++ {
		if where == 1 || where == 2 && j%2 == 0 { // sorts after the usual ones
			extra = append(extra, p7Attr(ref.OID(1, 2, 3, 4+j), ref.Oct(kit.Stream("v", 60))))
		} else { // sorts before
			extra = append(extra, p7Attr(ref.OID(1, 2, 3, 4+j), ref.Int(1)))
		}
	}
	for _, c := range [][]byte{content, []byte("Content"), {}} {
		b := derSorted(append(append([][]byte{}, extra...), p7Attrs(c)...))
		p, err := x509.ParsePKCS7(p7Build(content, [][]byte{cert}, nil, p7Info(nameCN("iss"), ref.Int(50), b, p7Sign(0, ref.TLV(0x31, b), 6))))
		want := bytes.Equal(c, content)
		t.Check((err == nil && p.Verify() == nil) == want, "decision", "message with %d other attributes and the digest of %q verifies: not %v (%v)", size, c, want, err)
		t.Step(1)
	}
	// no digest attribute at all
	b := derSorted(append(append([][]byte{}, extra...), p7Attrs(content)[:2]...))
	p, err := x509.ParsePKCS7(p7Build(content, [][]byte{cert}, nil, p7Info(nameCN("iss"), ref.Int(50), b, p7Sign(0, ref.TLV(0x31, b), 6))))
	t.Check(err != nil || p.Verify() != nil, "decision", "message with %d attributes, none the digest, verifies", size)
	t.State("%d %d", size, where)
}

func c17Long(t *engine.T) {
	n := limitsOf(32, t.Size(1<<18, 1<<22))
	size := n[t.Pick("length", len(n))]
	direct := t.Pick("direct", 2) == 1
	t.Begin()
	content := kit.Stream("c17long", size)
	cert := p7Cert(0, 50, "iss")
	info := p7Good(0, 50, "iss", content, direct)
	verify := func(c []byte) bool {
		p, err := x509.ParsePKCS7(p7Build(c, [][]byte{cert}, nil, info))
		t.Step(1)
		return err == nil && p.Verify() == nil
	}
	t.Check(verify(content), "base", "message of %d bytes does not verify", size)
	for _, at := range []int{0, size / 2, size - 1} {
		c := kit.Clone(content)
		c[at] ^= 8
		t.Check(!verify(c), "content", "content of %d bytes with byte %d changed accepted", size, at)
	}
	t.Check(!verify(content[:size-1]) && !verify(append(kit.Clone(content), 0)), "content", "content of %d bytes with another length accepted", size)
	t.State("%d %v", size, direct)
}

// --- C18

func c18Big(t *engine.T) {
	what := t.Pick("what", 6)
	his := []int{t.Size(300, 1025), 1 << 17, 1 << 13, 1 << 13, 1 << 15, t.Size(300, 1025)}
	n := limitsOf(4, his[what])
	size := n[t.Pick("size", len(n))]
	ki := t.Pick("key", 2)
	t.Begin()
	k := xkeyOf(ki)
	leaf := p12Leaf(t, ki, 1)
	ca := c18CA(0)
	std := func(b []byte) *stdx509.Certificate { return c18Std(t, b) }
	pw := "pw"
	var cas []*stdx509.Certificate
	want := [][]byte{leaf.Raw}
	encode := func() []byte {
		var der []byte
		var err error
		withRand(kit.NewRand(fmt.Sprint("c18big", what, size)), func() { der, err = pkcs12.Encode(p12Priv(k), leaf, cas, pw) })
		t.Check(err == nil, "encode", "kind %d size %d: %v", what, size, err)
		o, err := p12Open(der, ref.BMP(pw))
		t.Check(err == nil && len(o.keys) == 1 && len(o.certs) == len(want), "interop", "kind %d size %d: independent decoder: %v", what, size, err)
		for i := range want {
			t.Check(bytes.Equal(o.certs[i], want[i]), "interop", "kind %d size %d: certificate %d differs", what, size, i)
		}
		return der
	}
	bmp := func(n int) ([]byte, string) {
		var u []uint16
		for i := 0; i < n; i++ {
			u = append(u, uint16('a'+i%26))
		}
		var b []byte
		for _, x := range u {
			b = append(b, byte(x>>8), byte(x))
		}
		return ref.TLV(0x1e, b), string(utf16.Decode(u))
	}
	switch what {
	case 0: // number of CA certificates
		c := p7Serials(1, size, "chain")
		for i := 0; i < size; i++ {
			cas = append(cas, std(c[i]))
			want = append(want, c[i])
		}
		c18Contents(t, encode(), pw, k, want)
	case 1: // size of a certificate
		big := handCert(9, 2, "big", "big", spkiOf(xkeyOf(1).pub), xkeyOf(1), ref.Seq(ref.OID(1, 2, 3, 4), ref.Oct(kit.Stream("big", size))))
		cas = append(cas, std(ca), std(big), std(ca))
		want = append(want, ca, big, ca)
		c18Contents(t, encode(), pw, k, want)
	case 2: // length of the password
		pw = strings.Repeat("p", size-1) + "w"
		cas, want = append(cas, std(ca)), append(want, ca)
		c18Contents(t, encode(), pw, k, want)
	case 3, 4: // length of a name or an identifier
		o := p12Std("pw")
		o.iter, o.macIter = 1, 1
		b, s := bmp(size)
		at := p12Attr(ref.OIDFriendly, b)
		h := "friendlyName"
		if what == 4 {
			h, s = "localKeyId", fmt.Sprintf("%x", kit.Stream("id", size))
			at = p12Attr(ref.OIDLocalKey, ref.Oct(kit.Stream("id", size)))
		}
		der := p12Build(o, [][]byte{p12CertBag(leaf.Raw, at)}, [][]byte{p12KeyBag(o, p8Of(k), at)})
		bl, err := pkcs12.ToPEM(der, "pw")
		t.Check(k.sm2() != nil || err == nil && len(bl) == 2 && bl[0].Headers[h] == s && bl[1].Headers[h] == s, "pem-header", "%s of size %d: %v", h, size, err)
		c18Contents(t, der, "pw", k, want)
	case 5: // attributes of unknown kinds are refused or ignored, never mixed up; certificates in the file made elsewhere
		o := p12Std("pw")
		o.iter, o.macIter = 1, 1
		var cb [][]byte
		want = p7Serials(1, size, "elsewhere")
		for _, c := range want {
			cb = append(cb, p12CertBag(c))
		}
		c18Contents(t, p12Build(o, cb, [][]byte{p12KeyBag(o, p8Of(k))}), "pw", k, want)
	}
	t.State("%d %d %d", what, size, ki)
}

// c18Contents reads the file in every form.
func c18Contents(t *engine.T, der []byte, pw string, k xkey, want [][]byte) {
	key, all, err := pkcs12.DecodeAll(der, pw)
	t.Check(err == nil && privEqual(key, p12Priv(k)) && len(all) == len(want), "decodeall", "DecodeAll: %d of %d certificates: %v", len(all), len(want), err)
	for i := range want {
		t.Check(bytes.Equal(all[i].Raw, want[i]), "decodeall", "certificate %d of %d differs", i, len(want))
	}
	bl, err := pkcs12.ToPEM(der, pw)
	if err != nil && k.sm2() != nil { // ToPEM has no form for SM2 keys
		t.Check(bl == nil, "topem", "ToPEM returns blocks with the error %v", err)
		t.Step(2)
		return
	}
	t.Check(err == nil && len(bl) == len(want)+1, "topem", "ToPEM: %d blocks for %d certificates: %v", len(bl), len(want), err)
	for i := range want {
		t.Check(bl[i].Type == "CERTIFICATE" && bytes.Equal(bl[i].Bytes, want[i]), "topem", "block %d of %d differs", i, len(bl))
	}
	t.Check(bl[len(want)].Type == "PRIVATE KEY", "topem", "last block is a %s", bl[len(want)].Type)
	if len(want) == 1 {
		key, c, err := pkcs12.Decode(der, pw)
		t.Check(err == nil && privEqual(key, p12Priv(k)) && bytes.Equal(c.Raw, want[0]), "decode", "Decode: %v", err)
	}
	t.Step(3)
}

// --- C19

func c19Long(t *engine.T) {
	n := limitsOf(1, t.Size(4097, 70000))
	size := n[t.Pick("common", len(n))]
	mode := t.Pick("file", 2)
	t.Begin()
	k := xkeyOf(1)
	leaf := p12Leaf(t, 1, 1)
	var pre strings.Builder
	for i := 0; pre.Len() < size; i++ {
		pre.WriteByte(byte('a' + (i*7+i/26)%26))
	}
	p := pre.String()
	pw := p + "x"
	var der []byte
	if mode == 0 {
		var err error
		withRand(kit.NewRand("c19long"), func() { der, err = pkcs12.Encode(p12Priv(k), leaf, nil, pw) })
		t.Check(err == nil, "encode", "%v", err)
	} else {
		o := p12Std(pw)
		o.iter, o.macIter, o.certOID = 1, 1, nil
		der = p12Build(o, [][]byte{p12CertBag(leaf.Raw)}, [][]byte{p12KeyBag(o, p8Of(k))})
	}
	key, certs, err := pkcs12.DecodeAll(der, pw)
	t.Check(err == nil && privEqual(key, p12Priv(k)) && len(certs) == 1, "right", "right password of %d characters: %v", size+1, err)
	mid := []byte(pw)
	mid[size/2] ^= 1
	own := ref.MAC12(nil, nil, ref.BMP(pw), 1)
	for _, w := range []string{p + "y", p, p + "xx", p + "xy", p[1:] + "x", "x" + p, string(mid), p + "X", pw + pw, p + p + "x"} {
		if bytes.Equal(ref.MAC12(nil, nil, ref.BMP(w), 1), own) {
			continue
		}
		key, certs, err := pkcs12.DecodeAll(der, w)
		key2, cert, err2 := pkcs12.Decode(der, w)
		bl, err3 := pkcs12.ToPEM(der, w)
		t.Step(3)
		t.Check(err != nil && err2 != nil && err3 != nil, "wrong-accepted", "file opens with a password that differs after %d characters: %v, %v, %v", size, err, err2, err3)
		t.Check(key == nil && certs == nil && key2 == nil && cert == nil && bl == nil, "wrong-output", "a wrong password gives output")
		t.Check(errors.Is(err, pkcs12.ErrIncorrectPassword) && errors.Is(err2, pkcs12.ErrIncorrectPassword) && errors.Is(err3, pkcs12.ErrIncorrectPassword), "wrong-error", "%v, %v, %v", err, err2, err3)
	}
	t.State("%d %d", size, mode)
}

// --- C20

func c20Big(t *engine.T) {
	what := t.Pick("what", 4)
	his := []int{t.Size(1<<18+1, 1<<21), t.Size(1<<18+1, 1<<21), t.Size(1<<16+1, 1<<20), t.Size(1<<14, 1<<17)}
	n := limitsOf(1, his[what])
	size := n[t.Pick("size", len(n))]
	alg := t.Pick("ciphers", 2)
	t.Begin()
	o := p12Std("pass")
	o.iter, o.macIter, o.certOID = 1, 1, nil
	o.keyOID = [][]byte{ref.OIDPBE3DES, ref.OIDPBERC240}[alg]
	pw := "pass"
	switch what {
	case 0:
		o.iter = size
	case 1:
		if alg == 1 {
			return
		}
		o.macIter = size
	case 2:
		o.salt, o.macSalt = kit.Stream("salt", size), kit.Stream("macsalt", size)
	case 3:
		pw = strings.Repeat("0123456789abcdefg", size/17+1)[:size]
		o.pw = ref.BMP(pw)
	}
	c20Opens(t, o, pw, fmt.Sprintf("%s of size %d", []string{"iterations", "MAC iterations", "salts", "password"}[what], size))
	t.State("%d %d %d", what, size, alg)
}

// --- C21

func c21Big(t *engine.T) {
	n := limitsOf(1, t.Size(1<<18+1, 1<<22))
	size := n[t.Pick("size", len(n))]
	prev := t.Pick("before", 2)
	t.Begin()
	dir := c21Dir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "key.p12")
	if prev == 1 {
		os.WriteFile(fn, kit.Stream("old", size+5000), 0600)
	}
	k := xkeyOf(0)
	raw := handCert(9, 2, "big", "big", spkiOf(k.pub), k, ref.Seq(ref.OID(1, 2, 3, 4), ref.Oct(kit.Stream("big", size))))
	c, err := x509.ParseCertificate(raw)
	t.Check(err == nil, "setup", "%v", err)
	withRand(kit.NewRand("c21big"), func() { err = pkcs12.SM2P12Encrypt(c, "pw", p12Priv(k).(*sm2.PrivateKey), fn) })
	t.Check(err == nil, "encrypt", "certificate of %d bytes: %v", len(raw), err)
	cert, key, err := pkcs12.SM2P12Decrypt(fn, "pw")
	t.Check(err == nil && privEqual(key, p12Priv(k)) && cert != nil && bytes.Equal(cert.Raw, raw), "decrypt", "certificate of %d bytes: reported as stored, SM2P12Decrypt: %v", len(raw), err)
	b, err := os.ReadFile(fn)
	t.Check(err == nil, "read", "%v", err)
	o, err := p12Open(b, ref.BMP("pw"))
	t.Check(err == nil && len(o.certs) == 1 && bytes.Equal(o.certs[0], raw), "interop", "certificate of %d bytes: independent decoder: %v", len(raw), err)
	t.Step(2)
	if prev == 1 { // the disk fills up somewhere
		for _, lim := range spots(len(b)) {
			os.Remove(fn)
			var err error
			withFileLimit(t, lim, func() {
				withRand(kit.NewRand("c21big"), func() { err = pkcs12.SM2P12Encrypt(c, "pw", p12Priv(k).(*sm2.PrivateKey), fn) })
			})
			got, _ := os.ReadFile(fn)
			t.Check(err != nil || bytes.Equal(got, b), "silent", "the file system took %d of %d bytes and SM2P12Encrypt reports success", lim, len(b))
			t.Step(1)
		}
	}
	t.State("%d %d", size, prev)
}
