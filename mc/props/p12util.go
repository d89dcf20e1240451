package props

import (
	"bytes"
	"crypto/sha1"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"sync"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

// p12Opt says how the reference encoder makes a file.
type p12Opt struct {
	pw         []byte // encoded password (ref.BMP)
	certOID    []byte // nil: certificates not encrypted
	keyOID     []byte
	salt       []byte
	iter       int
	macSalt    []byte
	macIter    int
	noIter     bool // leave MAC iterations out (default 1)
	noMAC      bool
	keyFirst   bool                // key safe before certificate safe
	keyPad     func([]byte) []byte // encrypts the key (nil: standard padding)
	certPad    func([]byte) []byte // encrypts the certificates
	oneSafe    bool
	emptyThird bool
}

func p12Std(pw string) p12Opt {
	return p12Opt{pw: ref.BMP(pw), certOID: ref.OIDPBERC240, keyOID: ref.OIDPBE3DES, salt: []byte("saltsalt"), iter: 3, macSalt: []byte("macsalt!"), macIter: 2}
}

func pbeAI(oid, salt []byte, iter int) []byte {
	return ref.Seq(oid, ref.Seq(ref.Oct(salt), ref.Int(int64(iter))))
}

func p12CertBag(der []byte, attrs ...[]byte) []byte {
	p := [][]byte{ref.OIDCertBag, ref.Ctx(0, ref.Seq(ref.OIDX509Cert, ref.Ctx(0, ref.Oct(der))))}
	if len(attrs) > 0 {
		p = append(p, ref.Set(attrs...))
	}
	return ref.Seq(p...)
}

func p12KeyBag(o p12Opt, p8 []byte, attrs ...[]byte) []byte {
	ct, err := ref.PBE(o.keyOID, p8, o.salt, o.pw, o.iter, false)
	if err != nil {
		panic(err)
	}
	if o.keyPad != nil {
		ct = o.keyPad(p8)
	}
	p := [][]byte{ref.OIDKeyBag, ref.Ctx(0, ref.Seq(pbeAI(o.keyOID, o.salt, o.iter), ref.Oct(ct)))}
	if len(attrs) > 0 {
		p = append(p, ref.Set(attrs...))
	}
	return ref.Seq(p...)
}

func p12Attr(oid []byte, val []byte) []byte { return ref.Seq(oid, ref.Set(val)) }

// p12Build is a PFX with two safes.
func p12Build(o p12Opt, certBags, keyBags [][]byte) []byte {
	enc := func(oid []byte, bags [][]byte) []byte {
		data := ref.Seq(bags...)
		if oid == nil {
			return ref.Seq(ref.OIDData, ref.Ctx(0, ref.Oct(data)))
		}
		ct, err := ref.PBE(oid, data, o.salt, o.pw, o.iter, false)
		if err != nil {
			panic(err)
		}
		if o.certPad != nil {
			ct = o.certPad(data)
		}
		return ref.Seq(ref.OIDEncData, ref.Ctx(0, ref.Seq(ref.Int(0), ref.Seq(ref.OIDData, pbeAI(oid, o.salt, o.iter), ref.TLV(0x80, ct)))))
	}
	a, b := enc(o.certOID, certBags), enc(nil, keyBags)
	if o.keyFirst {
		a, b = b, a
	}
	auth := ref.Seq(a, b)
	if o.oneSafe {
		auth = ref.Seq(enc(o.certOID, append(append([][]byte{}, certBags...), keyBags...)))
	}
	if o.emptyThird {
		auth = ref.Seq(a, b, enc(nil, nil))
	}
	parts := [][]byte{ref.Int(3), ref.Seq(ref.OIDData, ref.Ctx(0, ref.Oct(auth)))}
	if !o.noMAC {
		iter := o.macIter
		m := [][]byte{ref.Seq(ref.Seq(ref.OIDSHA1, ref.Null()), ref.Oct(ref.MAC12(auth, o.macSalt, o.pw, iter))), ref.Oct(o.macSalt)}
		if !o.noIter {
			m = append(m, ref.Int(int64(iter)))
		}
		parts = append(parts, ref.Seq(m...))
	}
	return ref.Seq(parts...)
}

// p12Content is what the reference decoder finds.
type p12Content struct {
	certs    [][]byte
	keys     [][]byte // PKCS #8
	certIDs  [][]byte // local key ids (nil: none)
	keyIDs   [][]byte
	salts    [][]byte
	weak     string
	certsEnc bool
}

func localID(bag *ref.Node) []byte {
	if len(bag.Children) < 3 {
		return nil
	}
	for _, a := range bag.Children[2].Children {
		if len(a.Children) == 2 && bytes.Equal(a.Children[0].Raw, ref.OIDLocalKey) && a.At(1, 0) != nil {
			return a.At(1, 0).Body
		}
	}
	return nil
}

func smallInt(n *ref.Node) int {
	if n == nil || n.Tag != 2 || len(n.Body) > 3 {
		return -1
	}
	v := 0
	for _, b := range n.Body {
		v = v<<8 | int(b)
	}
	return v
}

// p12Open reads a file made by the code under test, checking its MAC.
func p12Open(der []byte, pw []byte) (*p12Content, error) {
	bad := func(f string, a ...any) (*p12Content, error) { return nil, fmt.Errorf(f, a...) }
	n := ref.Parse(der, 0)
	if len(n) != 1 || n[0].Tag != 0x30 || len(n[0].Children) != 3 || smallInt(n[0].Children[0]) != 3 {
		return bad("not a PFX")
	}
	as := n[0].At(1, 1, 0)
	if as == nil || as.Tag != 4 || !bytes.Equal(n[0].At(1, 0).Raw, ref.OIDData) {
		return bad("no authenticated safe")
	}
	md := n[0].Children[2]
	c := &p12Content{}
	if md.At(0, 0, 0) == nil || !bytes.Equal(md.At(0, 0, 0).Raw, ref.OIDSHA1) || len(md.Children) < 2 {
		return bad("no SHA-1 MAC")
	}
	iter := 1
	if len(md.Children) > 2 {
		iter = smallInt(md.Children[2])
	}
	c.salts = append(c.salts, md.Children[1].Body)
	if !bytes.Equal(md.At(0, 1).Body, ref.MAC12(as.Body, md.Children[1].Body, pw, iter)) {
		return bad("MAC does not verify")
	}
	pbe := func(ai *ref.Node, ct []byte) ([]byte, error) {
		if ai.At(1, 1) == nil || ai.At(1, 0).Tag != 4 {
			return nil, fmt.Errorf("PBE parameters")
		}
		c.salts = append(c.salts, ai.At(1, 0).Body)
		return ref.PBE(ai.At(0).Raw, ct, ai.At(1, 0).Body, pw, smallInt(ai.At(1, 1)), true)
	}
	auth := ref.Parse(as.Body, 0)
	if len(auth) != 1 {
		return bad("authenticated safe")
	}
	for _, ci := range auth[0].Children {
		if len(ci.Children) != 2 || ci.At(1, 0) == nil {
			return bad("content info")
		}
		var data []byte
		enc := false
		switch {
		case bytes.Equal(ci.Children[0].Raw, ref.OIDData):
			data = ci.At(1, 0).Body
		case bytes.Equal(ci.Children[0].Raw, ref.OIDEncData):
			enc = true
			e := ci.At(1, 0)
			if smallInt(e.At(0)) != 0 || e.At(1, 2) == nil || e.At(1, 2).Tag != 0x80 || !bytes.Equal(e.At(1, 0).Raw, ref.OIDData) {
				return bad("encrypted data")
			}
			d, err := pbe(e.At(1, 1), e.At(1, 2).Body)
			if err != nil {
				return bad("encrypted data: %v", err)
			}
			data = d
		default:
			return bad("content type %x", ci.Children[0].Raw)
		}
		sc := ref.Parse(data, 0)
		if len(sc) != 1 || sc[0].Tag != 0x30 {
			return bad("safe contents")
		}
		for _, b := range sc[0].Children {
			if len(b.Children) < 2 || b.At(1, 0) == nil {
				return bad("safe bag")
			}
			switch {
			case bytes.Equal(b.Children[0].Raw, ref.OIDCertBag):
				v := b.At(1, 0, 1, 0)
				if v == nil || v.Tag != 4 || !bytes.Equal(b.At(1, 0, 0).Raw, ref.OIDX509Cert) {
					return bad("certificate bag")
				}
				c.certs, c.certIDs = append(c.certs, v.Body), append(c.certIDs, localID(b))
				c.certsEnc = enc
			case bytes.Equal(b.Children[0].Raw, ref.OIDKeyBag):
				e := b.At(1, 0)
				if len(e.Children) != 2 || e.Children[1].Tag != 4 {
					return bad("key bag")
				}
				p8, err := pbe(e.Children[0], e.Children[1].Body)
				if err != nil {
					return bad("key bag: %v", err)
				}
				c.keys, c.keyIDs = append(c.keys, p8), append(c.keyIDs, localID(b))
			default:
				return bad("bag type %x", b.Children[0].Raw)
			}
		}
	}
	return c, nil
}

func p12Priv(k xkey) any {
	if s := k.sm2(); s != nil {
		return s
	}
	return k.s
}

var (
	p12Mu    sync.Mutex
	p12Certs = map[[2]int]*x509.Certificate{}
)

// p12Leaf is a certificate for key i (cached, made by the code under test).
func p12Leaf(t *engine.T, i, serial int) *x509.Certificate {
	p12Mu.Lock()
	defer p12Mu.Unlock()
	if c := p12Certs[[2]int{i, serial}]; c != nil {
		return c
	}
	k := xkeyOf(i)
	tpl := leafTemplate(fmt.Sprint("p12 ", i, serial), int64(serial))
	tpl.Issuer = pkix.Name{}
	c := mkCert(t, kit.NewRand(fmt.Sprint("p12cert", i, serial)), tpl, tpl, k.pub, k.s)
	p12Certs[[2]int{i, serial}] = c
	return c
}

// p8Of is the PKCS #8 encoding of k, made without the code under test.
func p8Of(k xkey) []byte {
	if s := k.sm2(); s != nil {
		return pkcs8Wrap(ref.Seq(oidECPub, oidSM2Crv), sm2SEC1(s.D, ref.B32(s.D), true, true))
	}
	b, err := stdx509.MarshalPKCS8PrivateKey(k.s)
	if err != nil {
		panic(err)
	}
	return b
}

func fingerprint(der []byte) []byte { s := sha1.Sum(der); return s[:] }
