package props

import (
	"bytes"

	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

var (
	oidP7Data   = ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 1)
	oidP7Signed = ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 2)
	oidCT       = ref.OID(1, 2, 840, 113549, 1, 9, 3)
	oidMD       = ref.OID(1, 2, 840, 113549, 1, 9, 4)
	oidST       = ref.OID(1, 2, 840, 113549, 1, 9, 5)
	aiSM3       = ref.Seq(ref.OID(1, 2, 156, 10197, 1, 401))
)

// p7Signer is one signerInfo taken apart.
type p7Signer struct {
	issuer, serial, attrs []byte // attrs: body of the [0], nil if absent
	hasAttrs              bool
	sig                   []byte
}

// p7Msg is a signed message taken apart without the code under test.
type p7Msg struct {
	content []byte
	has     bool
	certs   [][]byte
	signers []p7Signer
}

// p7Parse reads a message produced by the code under test.
func p7Parse(der []byte) *p7Msg {
	n := ref.Parse(der, 0)
	if len(n) != 1 || n[0].Tag != 0x30 || len(n[0].Children) != 2 || !bytes.Equal(n[0].Children[0].Raw, oidP7Signed) || n[0].Children[1].Tag != 0xa0 {
		return nil
	}
	sd := n[0].At(1, 0)
	if sd == nil || sd.Tag != 0x30 || len(sd.Children) < 4 || len(n[0].Children[1].Children) != 1 {
		return nil
	}
	if sd.Children[0].Tag != 2 || sd.Children[1].Tag != 0x31 {
		return nil
	}
	m := &p7Msg{}
	ci := sd.Children[2]
	if ci.Tag != 0x30 || len(ci.Children) < 1 || ci.Children[0].Tag != 6 {
		return nil
	}
	if len(ci.Children) == 2 {
		o := ci.At(1, 0)
		if ci.Children[1].Tag != 0xa0 || o == nil || o.Tag != 4 || len(ci.Children[1].Children) != 1 {
			return nil
		}
		m.content, m.has = o.Body, true
	}
	i := 3
	if sd.Children[i].Tag == 0xa0 {
		for _, c := range sd.Children[i].Children {
			m.certs = append(m.certs, c.Raw)
		}
		i++
	}
	if i < len(sd.Children) && sd.Children[i].Tag == 0xa1 {
		i++
	}
	if i != len(sd.Children)-1 || sd.Children[i].Tag != 0x31 {
		return nil
	}
	for _, s := range sd.Children[i].Children {
		var si p7Signer
		if s.Tag != 0x30 || len(s.Children) < 5 || s.Children[0].Tag != 2 || len(s.Children[1].Children) != 2 {
			return nil
		}
		si.issuer, si.serial = s.Children[1].Children[0].Raw, s.Children[1].Children[1].Raw
		j := 3
		if s.Children[j].Tag == 0xa0 {
			si.attrs, si.hasAttrs = s.Children[j].Body, true
			j++
		}
		if j+1 >= len(s.Children) || s.Children[j].Tag != 0x30 || s.Children[j+1].Tag != 4 {
			return nil
		}
		si.sig = s.Children[j+1].Body
		m.signers = append(m.signers, si)
	}
	return m
}

// attr returns the single value of an attribute.
func (s *p7Signer) attr(oid []byte) []byte {
	var out []byte
	for _, a := range ref.Parse(s.attrs, 0) {
		if len(a.Children) == 2 && bytes.Equal(a.Children[0].Raw, oid) && a.Children[1].Tag == 0x31 && len(a.Children[1].Children) == 1 {
			if out != nil {
				return nil
			}
			out = a.Children[1].Children[0].Raw
		}
	}
	return out
}

// tbs is what the signature covers.
func (s *p7Signer) tbs(content []byte) []byte {
	if s.hasAttrs {
		return ref.TLV(0x31, s.attrs)
	}
	return content
}

// ok reports whether the signature is pub's and binds content.
func (s *p7Signer) ok(pub *sm2.PublicKey, content []byte) bool {
	if s.hasAttrs && !bytes.Equal(s.attr(oidMD), ref.Oct(ref.SM3(content))) {
		return false
	}
	return xverify(pub, x509.SM2WithSM3, s.tbs(content), s.sig)
}

// p7Attr is one attribute with its values.
func p7Attr(oid []byte, vals ...[]byte) []byte { return ref.Seq(oid, ref.Set(vals...)) }

// p7Attrs is the usual attribute list (DER order is the caller's business).
func p7Attrs(content []byte) [][]byte {
	return [][]byte{
		p7Attr(oidCT, oidP7Data),
		p7Attr(oidST, ref.TLV(0x17, []byte("240102030405Z"))),
		p7Attr(oidMD, ref.Oct(ref.SM3(content))),
	}
}

// derSorted is the body of a SET OF in DER order.
func derSorted(parts [][]byte) []byte {
	p := append([][]byte{}, parts...)
	for i := range p {
		for j := i; j > 0 && bytes.Compare(p[j-1], p[j]) > 0; j-- {
			p[j-1], p[j] = p[j], p[j-1]
		}
	}
	return bytes.Join(p, nil)
}

// p7Info builds one signerInfo. attrs nil: the content is signed directly.
func p7Info(issuer, serial []byte, attrs []byte, sig []byte) []byte {
	parts := [][]byte{ref.Int(1), ref.Seq(issuer, serial), aiSM3}
	if attrs != nil {
		parts = append(parts, ref.Ctx(0, attrs))
	}
	parts = append(parts, ref.Seq(ref.OID(1, 2, 156, 10197, 1, 501)), ref.Oct(sig))
	return ref.Seq(parts...)
}

// p7Build wraps signer infos and certificates. content nil: detached.
func p7Build(content []byte, certs [][]byte, crls [][]byte, infos ...[]byte) []byte {
	ci := ref.Seq(oidP7Data)
	if content != nil {
		ci = ref.Seq(oidP7Data, ref.Ctx(0, ref.Oct(content)))
	}
	parts := [][]byte{ref.Int(1), ref.Set(aiSM3), ci}
	if certs != nil {
		parts = append(parts, ref.Ctx(0, certs...))
	}
	if crls != nil {
		parts = append(parts, ref.Ctx(1, crls...))
	}
	parts = append(parts, ref.Set(infos...))
	return ref.Seq(oidP7Signed, ref.Ctx(0, ref.Seq(parts...)))
}

// p7Sign is the reference signature of key d over msg.
func p7Sign(ki int, msg []byte, seed int64) []byte {
	return signBytes(xkeyOf(ki), msg, seed)
}

// p7Cert is a hand-made certificate for key ki.
func p7Cert(ki int, serial int64, issuer string) []byte {
	k := xkeyOf(ki)
	return handCert(serial, 2, issuer, "signer", spkiOf(k.pub), xkeyOf(0))
}

// p7Good is a correct signerInfo over content.
func p7Good(ki int, serial int64, issuer string, content []byte, direct bool) []byte {
	if direct {
		return p7Info(nameCN(issuer), ref.Int(serial), nil, p7Sign(ki, content, 5))
	}
	a := derSorted(p7Attrs(content))
	return p7Info(nameCN(issuer), ref.Int(serial), a, p7Sign(ki, ref.TLV(0x31, a), 6))
}

var _ = kit.B
