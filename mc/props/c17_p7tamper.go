package props

import (
	"bytes"
	"encoding/asn1"
	"fmt"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C17", Harnesses: []engine.Harness{
		{Name: "flips", Rule: "every single-bit change of 4 signed messages: does not parse, does not verify, or content, signed attributes and signer key are unchanged", Run: c17Flips},
		{Name: "signers", Rule: "every sequence of 0-3 signer entries, each right or with one of 18 defects: verifies exactly if there is a signer and all are right", Run: c17Signers},
		{Name: "many", Rule: "up to 130 (1025) signers, all right but one with one of 5 defects, at every position (of more than 34: at the ends and powers of two): does not verify", Run: c17Many},
		{Name: "attributes", Rule: "up to 130 (1025) other attributes before, behind and around the digest attribute: verifies exactly if that has the content's digest", Run: c17Attrs},
		{Name: "long", Rule: "contents of lengths around every power of two and ten up to 2^18 (2^22), with and without attributes: a byte changed at the start, middle or end, or another length, does not verify", Run: c17Long},
		{Name: "near", Rule: "every ordered pair of 29 issuer/serial identities that differ in case, spaces, string type, order, sign or single bits: a message that names one and is signed by the key of the other does not verify", Run: c17Near},
		{Name: "elsewhere", Rule: "content's digest in an attribute with each of 38 identifiers close to the digest attribute's, which is missing, of something else or empty x 3 orders: does not verify", Run: c17NearAttr},
		{Name: "content", Rule: "right signature, other content: every truncation, extension, one-byte change of the content, with and without attributes", Run: c17Content},
		{Name: "bytes", Rule: "every truncation of a message, every byte removed, trailing bytes: never a different accepted content", Run: c17Bytes},
		{Name: "malformed", Rule: "each mandatory part of a message removed, replaced by NULL or by another type, emptied or cut: never parsed", Run: c17Malformed},
		{Name: "forged", Rule: "12 wrong signatures x with and without signed attributes x messages differing in at most 2 (3) of 10 fields from the usual one: never verifies", Run: c17Forged, Bound: 2, Deep: 3},
	}})
}

// p7Mandatory are the paths of the parts a signed message cannot be without:
// the type of each follows from the grammar.
var p7Mandatory = [][]int{
	{}, {0}, {1}, {1, 0}, {1, 0, 0}, {1, 0, 1}, {1, 0, 2}, {1, 0, 2, 0}, {1, 0, 4},
	{1, 0, 4, 0}, {1, 0, 4, 0, 0}, {1, 0, 4, 0, 1}, {1, 0, 4, 0, 1, 0}, {1, 0, 4, 0, 1, 1}, {1, 0, 4, 0, 2}, {1, 0, 4, 0, 4}, {1, 0, 4, 0, 5},
}

func c17Malformed(t *engine.T) {
	path := p7Mandatory[t.Pick("part", len(p7Mandatory))]
	op := t.Pick("operation", 9)
	t.Begin()
	der := c17Msg(0)
	c17Base(t, der)
	root := ref.Parse(der, 0)[0]
	node := root.At(path...)
	var repl []byte
	switch op {
	case 0: // removed
	case 1:
		repl = []byte{5, 0}
	case 2: // another type with the same contents
		repl = ref.TLV(map[byte]byte{0x30: 0x31, 0x31: 0x30, 2: 3, 6: 4, 4: 0x16, 0xa0: 0xa5}[node.Tag], node.Body)
	case 3: // emptied
		repl = []byte{node.Tag, 0}
		if node.Tag == 0x31 || node.Tag == 4 {
			return // an empty set or string is well-formed
		}
	case 4: // cut short at the end
		if len(node.Body) == 0 || node.Tag == 2 || node.Tag == 4 || node.Tag == 6 {
			return
		}
		repl = ref.TLV(node.Tag, node.Body[:len(node.Body)-1])
	case 5: // length larger than what is there, at the end of the message only
		if len(path) > 0 {
			return
		}
		repl = append([]byte{}, der...)
		repl[3]++
	case 6: // primitive, or constructed
		repl = ref.TLV(node.Tag^0x20, node.Body)
	case 7: // long form of the length where the short one is due
		if len(node.Body) >= 128 {
			return
		}
		repl = append([]byte{node.Tag, 0x81, byte(len(node.Body))}, node.Body...)
	case 8: // indefinite length
		repl = append(append([]byte{node.Tag, 0x80}, node.Body...), 0, 0)
	}
	if len(path) == 5 && path[4] == 1 || len(path) == 4 && path[2] == 4 || len(path) > 0 && path[len(path)-1] == 0 && len(path) == 6 {
		if op == 0 && len(path) == 4 {
			return // no signers: well-formed
		}
		if len(path) == 6 && op != 7 && op != 8 && op != 0 {
			return // the issuer's name may be any value; it finds no certificate
		}
	}
	d := p7Replace(root, path, repl)
	p, err := x509.ParsePKCS7(d)
	t.Step(1)
	t.Check(err != nil && p == nil, "malformed", "message with operation %d on the part at %v is parsed (%v): %x", op, path, err, d)
	t.Outcome("%v operation %d refused", path, op)
}

// p7Replace encodes n with the part at path replaced.
func p7Replace(n *ref.Node, path []int, repl []byte) []byte {
	if len(path) == 0 {
		return repl
	}
	var parts []byte
	for i, c := range n.Children {
		if i == path[0] {
			parts = append(parts, p7Replace(c, path[1:], repl)...)
		} else {
			parts = append(parts, c.Raw...)
		}
	}
	return ref.TLV(n.Tag, parts)
}

type p7View struct {
	content string
	attrs   [4]string
	nsig    int
	key     string
}

func c17View(p *x509.PKCS7) (v p7View) {
	v.content, v.nsig = string(p.Content), len(p.Signers)
	for i, o := range []asn1.ObjectIdentifier{{1, 2, 840, 113549, 1, 9, 3}, {1, 2, 840, 113549, 1, 9, 4}, {1, 2, 840, 113549, 1, 9, 5}, {1, 2, 3, 4}} {
		var r asn1.RawValue
		if err := p.UnmarshalSignedAttribute(o, &r); err == nil {
			v.attrs[i] = string(r.FullBytes)
		} else {
			v.attrs[i] = "none"
		}
	}
	if c := p.GetOnlySigner(); c != nil {
		if k, ok := c.PublicKey.(*sm2.PublicKey); ok {
			v.key = k.X.Text(16) + k.Y.Text(16)
		} else {
			v.key = fmt.Sprintf("%T", c.PublicKey)
		}
	}
	return
}

func c17Msg(i int) []byte {
	content := kit.Pattern(0, 37)
	switch i {
	case 0: // attributes
		return p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, nil, p7Good(0, 50, "iss", content, false))
	case 1: // direct
		return p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, nil, p7Good(0, 50, "iss", content, true))
	case 2: // two signers
		return p7Build(content, [][]byte{p7Cert(0, 50, "iss"), p7Cert(7, 51, "iss")}, nil, p7Good(0, 50, "iss", content, false), p7Good(7, 51, "iss", content, true))
	}
	// empty content
	return p7Build([]byte{}, [][]byte{p7Cert(7, 300, "is")}, nil, p7Good(7, 300, "is", nil, false))
}

func c17Judge(t *engine.T, what string, der []byte, want p7View) string {
	p, err := x509.ParsePKCS7(der)
	t.Step(1)
	if err != nil {
		t.Check(p == nil, "error-with-result", "%s: a message came with the error %v", what, err)
		return "parse"
	}
	if p.Verify() != nil {
		return "verify"
	}
	got := c17View(p)
	t.Check(got == want, "tampered", "%s: accepted, and reads as %q instead of %q", what, got, want)
	return "same"
}

func c17Base(t *engine.T, der []byte) p7View {
	p, err := x509.ParsePKCS7(der)
	t.Check(err == nil, "base", "the unchanged message: %v", err)
	t.Check(p.Verify() == nil, "base", "the unchanged message does not verify")
	return c17View(p)
}

func c17Flips(t *engine.T) {
	m := t.Pick("message", 4)
	blk := t.Pick("block", 64)
	t.Begin()
	der := c17Msg(m)
	want := c17Base(t, der)
	n := map[string]int{}
	for i := blk * len(der) / 64; i < (blk+1)*len(der)/64; i++ {
		for b := 0; b < 8; b++ {
			d := kit.Clone(der)
			d[i] ^= 1 << b
			r := c17Judge(t, fmt.Sprintf("message %d byte %d bit %d", m, i, b), d, want)
			n[r]++
			t.State("%d %d %d %s", m, i, b, r)
		}
	}
	t.Outcome("message %d block %d: %v", m, blk, n)
}

const numDefects = 19

// c17Info is signer entry slot with defect d (0: none).
func c17Info(slot, d int, content []byte) []byte {
	keys := []int{0, 7, 100}
	ki := keys[slot]
	serial := int64(50 + slot)
	iss := "iss"
	attrs := p7Attrs(content)
	mk := func(a []byte, sig []byte) []byte { return p7Info(nameCN(iss), ref.Int(serial), a, sig) }
	sigOver := func(b []byte) []byte { return p7Sign(ki, b, int64(slot)) }
	set := func(a []byte) []byte { return ref.TLV(0x31, a) }
	body := derSorted(attrs)
	other := append(kit.Clone(content), 'x')
	switch d {
	case 0:
		return mk(body, sigOver(set(body)))
	case 1: // signs the content itself (fine)
		return mk(nil, sigOver(content))
	case 2: // digest of something else, properly signed
		b := derSorted(p7Attrs(other))
		return mk(b, sigOver(set(b)))
	case 3: // no digest attribute
		b := derSorted(attrs[:2])
		return mk(b, sigOver(set(b)))
	case 4: // signature over other attributes
		return mk(body, sigOver(set(derSorted(p7Attrs(other)))))
	case 5: // signature by another key
		return mk(body, p7Sign(keys[(slot+1)%3], set(body), 3))
	case 6: // certificate not there: serial
		serial = 77
		return mk(body, sigOver(set(body)))
	case 7: // certificate not there: issuer
		iss = "iss2"
		return mk(body, sigOver(set(body)))
	case 8: // empty signature
		return mk(body, nil)
	case 9: // signature over the content although attributes are there
		return mk(body, sigOver(content))
	case 10: // direct signature over something else
		return mk(nil, sigOver(other))
	case 11: // digest truncated
		b := derSorted([][]byte{attrs[0], attrs[1], p7Attr(oidMD, ref.Oct(ref.SM3(content)[:31]))})
		return mk(b, sigOver(set(b)))
	case 12: // digest empty
		b := derSorted([][]byte{attrs[0], attrs[1], p7Attr(oidMD, ref.Oct(nil))})
		return mk(b, sigOver(set(b)))
	case 13: // digest attribute with no value
		b := derSorted([][]byte{attrs[0], attrs[1], p7Attr(oidMD)})
		return mk(b, sigOver(set(b)))
	case 14: // r, s swapped
		r, s, _ := parseSig(sigOver(set(body)))
		return mk(body, ref.DERSig(s, r))
	case 15: // signature over the attributes with their implicit tag
		return mk(body, sigOver(ref.TLV(0xa0, body)))
	case 16: // zero signature
		return mk(body, ref.DERSig(kit.B(0), kit.B(0)))
	case 17: // digest extended
		b := derSorted([][]byte{attrs[0], attrs[1], p7Attr(oidMD, ref.Oct(append(ref.SM3(content), 0)))})
		return mk(b, sigOver(set(b)))
	case 18: // points at a certificate with a key of another kind; signed with the SM2 key
		serial = 90
		return mk(body, sigOver(set(body)))
	}
	panic("defect")
}

func c17Signers(t *engine.T) {
	n := t.Pick("signers", 4)
	var ds []int
	for i := 0; i < n; i++ {
		lim := numDefects
		if n == 3 && i < 2 && !t.Thorough() {
			lim = 4
		}
		ds = append(ds, t.Pick("defect", lim))
	}
	t.Begin()
	content := kit.Pattern(0, 20)
	certs := [][]byte{p7Cert(0, 50, "iss"), p7Cert(7, 51, "iss"), p7Cert(100, 52, "iss"), p7Cert(1, 90, "iss")}
	var infos [][]byte
	want := n > 0
	for i, d := range ds {
		infos = append(infos, c17Info(i, d, content))
		want = want && d < 2
	}
	// the three slots in both orders
	for rev := 0; rev < 2 && (rev == 0 || n > 1); rev++ {
		if rev == 1 {
			infos[0], infos[n-1] = infos[n-1], infos[0]
		}
		p, err := x509.ParsePKCS7(p7Build(content, certs, nil, infos...))
		t.Check(err == nil || !want, "parse", "signers %v: %v", ds, err)
		ok := err == nil && p.Verify() == nil
		t.Check(ok == want, "decision", "signers with defects %v (order %d): accepted %v, want %v", ds, rev, ok, want)
		t.Step(1)
	}
	t.State("%v", ds)
}

func c17Content(t *engine.T) {
	direct := t.Pick("direct", 2) == 1
	n := t.Pick("length", 40)
	t.Begin()
	content := kit.Pattern(0, n)
	cert := p7Cert(0, 50, "iss")
	info := p7Good(0, 50, "iss", content, direct)
	try := func(what string, c []byte) {
		if bytes.Equal(c, content) {
			return
		}
		p, err := x509.ParsePKCS7(p7Build(c, [][]byte{cert}, nil, info))
		t.Check(err != nil || p.Verify() != nil, "content", "%s of a %d byte content accepted", what, n)
		t.Step(1)
	}
	p, err := x509.ParsePKCS7(p7Build(content, [][]byte{cert}, nil, info))
	t.Check(err == nil && p.Verify() == nil, "base", "the unchanged message does not verify")
	for i := 0; i < n; i++ {
		try("truncation", content[:i])
		c := kit.Clone(content)
		c[i] ^= 0x10
		try("change", c)
	}
	try("absent content", nil)
	try("extension", append(kit.Clone(content), 0))
	try("prefix", append([]byte{0}, content...))
	try("doubling", append(kit.Clone(content), content...))
	try("hash", ref.SM3(content))
	t.State("direct %v len %d", direct, n)
}

func c17Bytes(t *engine.T) {
	m := t.Pick("message", 4)
	blk := t.Pick("block", 32)
	t.Begin()
	der := c17Msg(m)
	want := c17Base(t, der)
	n := map[string]int{}
	for i := blk * len(der) / 32; i < (blk+1)*len(der)/32; i++ {
		r := c17Judge(t, fmt.Sprintf("message %d cut to %d bytes", m, i), der[:i:i], want)
		n[r]++
		t.Check(r != "same", "truncated", "message %d cut to %d bytes accepted", m, i)
		d := append(kit.Clone(der[:i]), der[i+1:]...)
		n[c17Judge(t, fmt.Sprintf("message %d without byte %d", m, i), d, want)]++
		d = append(append(kit.Clone(der[:i]), 0), der[i:]...)
		n[c17Judge(t, fmt.Sprintf("message %d with a byte inserted at %d", m, i), d, want)]++
		t.State("%d %d", m, i)
	}
	for _, tail := range [][]byte{{0}, {5, 0}, der} {
		_, err := x509.ParsePKCS7(append(kit.Clone(der), tail...))
		t.Check(err != nil, "trailing", "message %d with trailing bytes %x parses", m, tail)
	}
	t.Outcome("message %d block %d: %v", m, blk, n)
}
