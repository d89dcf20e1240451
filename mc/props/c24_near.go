package props

import (
	"bytes"
	stdx509 "crypto/x509"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sync"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

// nearItem is a call whose result is known, by construction or from the
// reference implementation.
type nearItem struct {
	what string
	want string
	run  func() string
}

// Every family holds calls that differ in as little as possible: one
// parameter, one byte, one part. What one of them leaves behind must not
// serve another.
var nearFamilies = []struct {
	name string
	make func() []nearItem
}{
	{"store", nearStores}, {"verify", nearVerify}, {"sign", nearSign}, {"decrypt", nearDecrypt}, {"trust", nearTrust}, {"message", nearMessages},
	{"request", nearRequests}, {"list", nearLists}, {"key", nearKeys}, {"hash", nearHash}, {"file", nearFiles},
}

var (
	nearOnce  [16]sync.Once
	nearCache [16][]nearItem
)

func nearOf(f int) []nearItem {
	nearOnce[f].Do(func() { nearCache[f] = nearFamilies[f].make() })
	return nearCache[f]
}

const nearMax = 48

func c24Near(t *engine.T) {
	f := t.Pick("family", len(nearFamilies))
	a := t.Pick("first", nearMax)
	t.Begin()
	items := nearOf(f)
	if len(items) > nearMax {
		panic(fmt.Sprint(nearFamilies[f].name, len(items)))
	}
	if a >= len(items) {
		return
	}
	for b := range items {
		for n, i := range []int{a, b, a, b} {
			got := items[i].run()
			t.Step(1)
			t.Check(got == items[i].want, "near", "%s: %s and %s in turn, call %d (%s) gives %s, want %s", nearFamilies[f].name, items[a].what, items[b].what, n+1, items[i].what, got, items[i].want)
			if b == a && n == 1 {
				break
			}
		}
	}
	t.State("%d %d", f, a)
	t.Outcome("%s", nearFamilies[f].name)
}

func nearPrivate(k any, certs [][]byte) string {
	s := fmt.Sprintf("%T", k)
	if p, ok := k.(*sm2.PrivateKey); ok {
		s = fmt.Sprintf("SM2 %x %x %x", p.D, p.X, p.Y)
	} else if b, err := stdx509.MarshalPKCS8PrivateKey(k); err == nil {
		s = fmt.Sprintf("%x", b)
	}
	for _, c := range certs {
		s += fmt.Sprintf(" %x", ref.SM3(c)[:6])
	}
	return s
}

// nearStoreData lists files, passwords and what they hold.
func nearStoreData() (l []struct {
	what, pw, want string
	der            []byte
}) {
	type opt = p12Opt
	add := func(what string, pw string, good bool, o opt, ki int, certs ...[]byte) {
		k := xkeyOf(ki)
		var bags [][]byte
		for _, c := range certs {
			bags = append(bags, p12CertBag(c))
		}
		x := struct {
			what, pw, want string
			der            []byte
		}{what, pw, "error", p12Build(o, bags, [][]byte{p12KeyBag(o, p8Of(k))})}
		if good {
			x.want = nearPrivate(p12Priv(k), certs)
		}
		l = append(l, x)
	}
	leaf := func(ki int, serial int64) []byte {
		return handCert(serial, 2, "ca", "leaf", spkiOf(xkeyOf(ki).pub), xkeyOf(0))
	}
	c0 := leaf(0, 1)
	std := func() opt { return p12Std("pw") }
	add("usual", "pw", true, std(), 0, c0)
	add("another password tried", "pW", false, std(), 0, c0)
	add("no password tried", "", false, std(), 0, c0)
	for _, s := range []string{"pW", "pw2", "wp", ""} {
		add(fmt.Sprintf("password %q", s), s, true, p12Std(s), 0, c0)
	}
	add("the first password tried on that of another", "pw", false, p12Std("pW"), 0, c0)
	for _, n := range []int{1, 2, 4, 300} {
		o := std()
		o.iter = n
		add(fmt.Sprint("encryption iterations ", n), "pw", true, o, 0, c0)
	}
	for _, n := range []int{1, 3, 4, 300} {
		o := std()
		o.macIter = n
		add(fmt.Sprint("MAC iterations ", n), "pw", true, o, 0, c0)
	}
	for _, s := range []string{"saltsalu", "taltsalt", "saltsal", "saltsaltsalt", "macsalt!"} {
		o := std()
		o.salt = []byte(s)
		add(fmt.Sprintf("salt %q", s), "pw", true, o, 0, c0)
	}
	for _, s := range []string{"macsalt?", "nacsalt!", "macsalt", "saltsalt"} {
		o := std()
		o.macSalt = []byte(s)
		add(fmt.Sprintf("MAC salt %q", s), "pw", true, o, 0, c0)
	}
	for i, id := range [][]byte{ref.OIDPBE3DES, nil} {
		o := std()
		o.certOID = id
		add(fmt.Sprint("certificate encryption ", i), "pw", true, o, 0, c0)
	}
	o := std()
	o.keyOID = ref.OIDPBERC240
	add("key encryption RC2", "pw", true, o, 0, c0)
	add("another certificate", "pw", true, std(), 0, leaf(0, 2))
	add("another key", "pw", true, std(), 100, leaf(100, 1))
	add("another type of key", "pw", true, std(), 1, leaf(1, 1))
	add("two certificates", "pw", true, std(), 0, c0, leaf(0, 3))
	add("the same in the other order", "pw", true, std(), 0, leaf(0, 3), c0)
	// a MAC made with other parameters than those stated
	for i, e := range []func(*opt){func(o *opt) { o.macIter = 3 }, func(o *opt) { o.macSalt = []byte("macsalt?") }, func(o *opt) { o.pw = ref.BMP("pW") }, func(o *opt) { o.salt = []byte("taltsalt") }} {
		good, other := std(), std()
		e(&other)
		g := ref.Parse(p12Build(good, [][]byte{p12CertBag(c0)}, [][]byte{p12KeyBag(good, p8Of(xkeyOf(0)))}), 0)[0]
		b := ref.Parse(p12Build(other, [][]byte{p12CertBag(c0)}, [][]byte{p12KeyBag(other, p8Of(xkeyOf(0)))}), 0)[0]
		mac := ref.Seq(b.At(2, 0).Raw, g.At(2, 1).Raw, g.At(2, 2).Raw)
		add(fmt.Sprint("MAC of other parameters ", i), "pw", false, std(), 0, c0)
		l[len(l)-1].der = ref.Seq(g.At(0).Raw, g.At(1).Raw, mac)
	}
	return l
}

func nearStores() (l []nearItem) {
	for _, x := range nearStoreData() {
		l = append(l, nearItem{x.what, x.want, func() string {
			k, certs, err := pkcs12.DecodeAll(kit.Clone(x.der), x.pw)
			if err != nil {
				return "error"
			}
			var raw [][]byte
			for _, c := range certs {
				raw = append(raw, c.Raw)
			}
			return nearPrivate(k, raw)
		}})
	}
	return l
}

func nearFiles() (l []nearItem) {
	dir, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "near")
	if err != nil {
		panic(err)
	}
	name := filepath.Join(dir, "store")
	for _, x := range nearStoreData() {
		if x.what == "another type of key" {
			continue
		}
		want := x.want
		if x.what == "two certificates" {
			want = "" // which one is not said
		}
		if want == "" || x.what == "the same in the other order" {
			continue
		}
		l = append(l, nearItem{x.what, want, func() string {
			if err := os.WriteFile(name, x.der, 0o600); err != nil {
				panic(err)
			}
			c, k, err := pkcs12.SM2P12Decrypt(name, x.pw)
			if err != nil {
				return "error"
			}
			return nearPrivate(k, [][]byte{c.Raw})
		}})
	}
	return l
}

func nearVerify() (l []nearItem) {
	d, d2 := kit.Keys[4].D, kit.Keys[5].D
	neg := new(big.Int).Sub(ref.N, d)
	msg, uid := []byte("a message to be signed"), []byte("someone")
	sign := func(d *big.Int, uid, msg []byte, k int64) []byte {
		r, s, ok := ref.SignK(d, kit.B(k), ref.Digest(kit.PubPoint(d), uid, msg))
		if !ok {
			panic("sign")
		}
		return ref.DERSig(r, s)
	}
	alt := func(b []byte, i int) []byte { c := kit.Clone(b); c[i] ^= 1; return c }
	add := func(what string, d *big.Int, uid, msg, sig []byte) {
		dg := ref.Digest(kit.PubPoint(d), uid, msg)
		r, s, ok := parseSig(sig)
		want := fmt.Sprint(ok && ref.VerifyDigest(kit.PubPoint(d), dg, r, s))
		l = append(l, nearItem{what, want, func() string {
			pub := kit.Pub(kit.PubPoint(d))
			a := pub.Verify(kit.Clone(msg), kit.Clone(uid), kit.Clone(sig))
			b := sm2.VerifyDigest(pub, kit.Clone(dg), kit.Clone(sig))
			if a != b {
				return "not the same"
			}
			return fmt.Sprint(a)
		}})
	}
	good := sign(d, uid, msg, 77)
	for i, x := range []*big.Int{d, neg, d2} {
		for j, m := range [][]byte{msg, alt(msg, 0), alt(msg, len(msg)-1), msg[:len(msg)-1], append(kit.Clone(msg), 0)} {
			add(fmt.Sprintf("key %d, message %d", i, j), x, uid, m, good)
		}
		for j, u := range [][]byte{alt(uid, 0), alt(uid, 6), nil, uid[:6]} {
			add(fmt.Sprintf("key %d, user %d", i, j), x, u, msg, good)
			add(fmt.Sprintf("key %d, signature for user %d", i, j), x, u, msg, sign(x, u, msg, 77))
		}
		add(fmt.Sprintf("key %d, another nonce", i), x, uid, msg, sign(x, uid, msg, 78))
	}
	r, s, _ := parseSig(good)
	add("s and r exchanged", d, uid, msg, ref.DERSig(s, r))
	add("-s", d, uid, msg, ref.DERSig(r, new(big.Int).Sub(ref.N, s)))
	return l
}

func nearSign() (l []nearItem) {
	d, d2 := kit.Keys[4].D, kit.Keys[5].D
	msg, uid := []byte("a message to be signed"), []byte("someone")
	alt := func(b []byte, i int) []byte { c := kit.Clone(b); c[i] ^= 1; return c }
	for i, x := range []*big.Int{d, new(big.Int).Sub(ref.N, d), d2} {
		for j, m := range [][]byte{msg, alt(msg, 0), alt(msg, len(msg)-1), msg[:5]} {
			for k, u := range [][]byte{uid, alt(uid, 0), nil} {
				l = append(l, nearItem{fmt.Sprintf("key %d, message %d, user %d", i, j, k), "valid", func() string {
					sig, err := kit.Priv(x).Sign(kit.NewRand("near"), kit.Clone(m), kit.Clone(u))
					if err != nil {
						return err.Error()
					}
					if r, s, ok := parseSig(sig); !ok || !ref.VerifyDigest(kit.PubPoint(x), ref.Digest(kit.PubPoint(x), u, m), r, s) {
						return fmt.Sprintf("%x", sig)
					}
					return "valid"
				}})
			}
		}
	}
	return l
}

func nearDecrypt() (l []nearItem) {
	d, d2 := kit.Keys[4].D, kit.Keys[5].D
	neg := new(big.Int).Sub(ref.N, d)
	enc := func(d *big.Int, k int64, m string) []byte {
		c, ok := ref.EncryptK(kit.PubPoint(d), kit.B(k), []byte(m))
		if !ok {
			panic("encrypt")
		}
		return c
	}
	add := func(what string, d *big.Int, c []byte) {
		want := "error"
		if m, err := ref.Decrypt(d, c); err == nil {
			want = string(m)
		}
		l = append(l, nearItem{what, want, func() string {
			m, err := sm2.Decryt(kit.Priv(d), kit.Clone(c))
			if err != nil {
				return "error"
			}
			return string(m)
		}})
	}
	base := enc(d, 77, "a message")
	for i, x := range []*big.Int{d, neg, d2} {
		add(fmt.Sprintf("key %d, usual", i), x, base)
		for j, m := range []string{"a message", "b message", "a messagf", "a messag", "a message that is longer"} {
			add(fmt.Sprintf("key %d, message %d", i, j), x, enc(x, 77, m))
			add(fmt.Sprintf("key %d, message %d, another nonce", i, j), x, enc(x, 78, m))
		}
	}
	n := new(big.Int).Sub(ref.N, kit.B(77))
	c, _ := ref.EncryptK(kit.PubPoint(d), n, []byte("a message"))
	add("point negated, made so", d, c)
	m := kit.Clone(base)
	copy(m[33:65], c[33:65])
	add("point negated", d, m)
	for _, i := range []int{1, 33, 65, 96, 97, len(base) - 1} {
		m := kit.Clone(base)
		m[i] ^= 1
		add(fmt.Sprintf("byte %d changed", i), d, m)
	}
	return l
}

// nearTBS takes a signed structure apart.
func nearTBS(der []byte) (tbs, alg, sig []byte) {
	n := ref.Parse(der, 0)[0]
	return n.At(0).Raw, n.At(1).Raw, n.At(2).Raw
}

func nearTrust() (l []nearItem) {
	ca, other := xkeyOf(0), xkeyOf(100)
	child := handCert(9, 2, "ca", "leaf", spkiOf(xkeyOf(7).pub), ca)
	forged := handCert(9, 2, "ca", "leaf", spkiOf(xkeyOf(7).pub), other)
	twin := handCert(9, 2, "ca", "lean", spkiOf(xkeyOf(7).pub), ca)
	tbs, alg, sig := nearTBS(child)
	ttbs, _, tsig := nearTBS(twin)
	_, _, fsig := nearTBS(forged)
	children := [][]byte{child, forged, twin, ref.Seq(ttbs, alg, sig), ref.Seq(tbs, alg, tsig), ref.Seq(ttbs, alg, fsig)}
	spki := spkiOf(ca.pub)
	parents := [][]byte{handCert(1, 2, "ca", "ca", spki, ca, extBC(true), extKU(0x60)), handCert(1, 2, "ca", "ca", spkiOf(other.pub), ca, extBC(true), extKU(0x60)), handCert(1, 2, "ca", "ca", spki, ca, extBC(false), extKU(0x60)),
		handCert(1, 2, "ca", "ca", spki, ca, extBC(true), extKU(0x40)), handCert(1, 2, "ca", "ca", spki, ca), handCert(1, 2, "ca", "ca", spki, ca, extBC(true)), handCert(1, 2, "ca", "cb", spkiOf(other.pub), other, extBC(true))}
	may := []bool{true, true, false, false, false, true, true}
	keys := []xkey{ca, other, ca, ca, ca, ca, other}
	for i, c := range children {
		for j, p := range parents {
			ct, _, _ := nearTBS(c)
			sv := ref.Parse(c, 0)[0].At(2).Body[1:]
			want := fmt.Sprint(may[j] && xverify(keys[j].pub, x509.SM2WithSM3, ct, sv))
			l = append(l, nearItem{fmt.Sprintf("child %d, parent %d", i, j), want, func() string {
				cc, err := x509.ParseCertificate(kit.Clone(c))
				if err != nil {
					return err.Error()
				}
				pp, err := x509.ParseCertificate(kit.Clone(p))
				if err != nil {
					return err.Error()
				}
				if !bytes.Equal(cc.Raw, c) || !bytes.Equal(pp.Raw, p) {
					return "another certificate"
				}
				return fmt.Sprint(cc.CheckSignatureFrom(pp) == nil)
			}})
		}
	}
	return l
}

func nearMessages() (l []nearItem) {
	type variant struct {
		what    string
		content []byte
		certs   [][]byte
		info    []byte
		ok      bool
	}
	a, b := []byte("content"), []byte("contenu")
	one, two, fake, next := p7Cert(0, 50, "iss"), p7Cert(7, 51, "iss"), p7Cert(7, 50, "iss"), p7Cert(0, 51, "iss")
	var vs []variant
	for d := 0; d < 2; d++ {
		direct := d == 1
		ga, gb, g7, gn := p7Good(0, 50, "iss", a, direct), p7Good(0, 50, "iss", b, direct), p7Good(7, 50, "iss", a, direct), p7Good(0, 51, "iss", a, direct)
		w := func(s string) string { return fmt.Sprintf("%s, direct %v", s, direct) }
		vs = append(vs, variant{w("usual"), a, [][]byte{one}, ga, true}, variant{w("other content"), b, [][]byte{one}, gb, true}, variant{w("content exchanged"), b, [][]byte{one}, ga, false}, variant{w("signature exchanged"), a, [][]byte{one}, gb, false},
			variant{w("certificate exchanged"), a, [][]byte{fake}, ga, false}, variant{w("other key"), a, [][]byte{fake}, g7, true}, variant{w("other key, usual certificate"), a, [][]byte{one}, g7, false},
			variant{w("other serial"), a, [][]byte{next}, gn, true}, variant{w("other serial, certificate of another"), a, [][]byte{two}, gn, false}, variant{w("certificate missing"), a, nil, ga, false},
			variant{w("both certificates"), a, [][]byte{two, one}, ga, true}, variant{w("no content"), []byte{}, [][]byte{one}, ga, false}, variant{w("content longer"), append(kit.Clone(a), 0), [][]byte{one}, ga, false})
	}
	for _, v := range vs {
		der := p7Build(v.content, v.certs, nil, v.info)
		l = append(l, nearItem{v.what, fmt.Sprintf("%v %q %d", v.ok, v.content, len(v.certs)), func() string {
			p, err := x509.ParsePKCS7(kit.Clone(der))
			if err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%v %q %d", p.Verify() == nil, p.Content, len(p.Certificates))
		}})
	}
	return l
}

func nearRequests() (l []nearItem) {
	ks := []xkey{xkeyOf(0), xkeyOf(100), xkeyOf(1)}
	for i, k := range ks {
		for _, cn := range []string{"request", "requesu"} {
			for j, signer := range ks {
				tbs := ref.Seq(ref.Int(0), nameCN(cn), spkiOf(k.pub), ref.Ctx(0))
				der := ref.Seq(tbs, aiOf(k), ref.BitStr(signBytes(signer, tbs, 5)))
				want := fmt.Sprintf("%s %v", cn, i == j)
				l = append(l, nearItem{fmt.Sprintf("%s of key %d by %d", cn, i, j), want, func() string {
					r, err := x509.ParseCertificateRequest(kit.Clone(der))
					if err != nil {
						return err.Error()
					}
					return fmt.Sprintf("%s %v", r.Subject.CommonName, r.CheckSignature() == nil)
				}})
			}
		}
	}
	return l
}

func nearLists() (l []nearItem) {
	ks := []xkey{xkeyOf(0), xkeyOf(100), xkeyOf(1)}
	for i, k := range ks {
		for n := int64(1); n < 3; n++ {
			for j, iss := range ks {
				der, parent := c14Hand(k, n), handCert(1, 2, "crl issuer", "crl issuer", spkiOf(iss.pub), xkeyOf(0), extBC(true), extKU(0x60))
				l = append(l, nearItem{fmt.Sprintf("list %d of key %d, issuer %d", n, i, j), fmt.Sprintf("%d %v", 5+n, i == j), func() string {
					c, err := x509.ParseCRL(kit.Clone(der))
					if err != nil {
						return err.Error()
					}
					p, err := x509.ParseCertificate(kit.Clone(parent))
					if err != nil {
						return err.Error()
					}
					return fmt.Sprintf("%v %v", c.TBSCertList.RevokedCertificates[0].SerialNumber, p.CheckCRLSignature(c) == nil)
				}})
			}
		}
	}
	return l
}

func nearKeys() (l []nearItem) {
	d, d2 := kit.Keys[4].D, kit.Keys[5].D
	ds := []*big.Int{d, new(big.Int).Sub(ref.N, d), d2, new(big.Int).Add(d, kit.B(1))}
	for i, x := range ds {
		q := kit.PubPoint(x)
		spki := spkiOf(kit.Pub(q))
		l = append(l, nearItem{fmt.Sprint("public ", i), fmt.Sprintf("%x %x", q.X, q.Y), func() string {
			k, err := x509.ParsePKIXPublicKey(kit.Clone(spki))
			p, ok := k.(*sm2.PublicKey)
			if err != nil || !ok {
				return fmt.Sprintf("%T %v", k, err)
			}
			return fmt.Sprintf("%x %x", p.X, p.Y)
		}})
		bad := kit.Clone(spki)
		bad[len(bad)-1] ^= 1
		l = append(l, nearItem{fmt.Sprint("public, off the curve ", i), "true", func() string {
			_, err := x509.ParsePKIXPublicKey(kit.Clone(bad))
			return fmt.Sprint(err != nil)
		}})
		for mode := 0; mode < 3; mode++ {
			inner := sm2SEC1(x, ref.B32(x), mode > 0, mode > 1)
			p8 := pkcs8Wrap(ref.Seq(oidECPub, oidSM2Crv), inner)
			l = append(l, nearItem{fmt.Sprintf("private %d, form %d", i, mode), fmt.Sprintf("%x %x %x", x, q.X, q.Y), func() string {
				k, err := x509.ParsePKCS8PrivateKey(kit.Clone(p8))
				p, ok := k.(*sm2.PrivateKey)
				if err != nil || !ok {
					return fmt.Sprintf("%T %v", k, err)
				}
				return fmt.Sprintf("%x %x %x", p.D, p.X, p.Y)
			}})
			if mode == 0 {
				continue
			}
			l = append(l, nearItem{fmt.Sprintf("SEC1 %d, form %d", i, mode), fmt.Sprintf("%x %x %x", x, q.X, q.Y), func() string {
				k, err := x509.ParseECPrivateKey(kit.Clone(inner))
				p, ok := k.(*sm2.PrivateKey)
				if err != nil || !ok {
					return fmt.Sprintf("%T %v", k, err)
				}
				return fmt.Sprintf("%x %x %x", p.D, p.X, p.Y)
			}})
		}
	}
	return l
}

func nearHash() (l []nearItem) {
	for _, n := range []int{0, 1, 55, 56, 63, 64, 65, 200} {
		base := kit.Pattern(1, n)
		ms := [][]byte{base}
		if n > 0 {
			a, b := kit.Clone(base), kit.Clone(base)
			a[0] ^= 1
			b[n-1] ^= 1
			ms = append(ms, a, b)
		}
		for i, m := range ms {
			want := fmt.Sprintf("%x", ref.SM3(m))
			l = append(l, nearItem{fmt.Sprintf("one-shot, %d bytes, %d", n, i), want, func() string { return fmt.Sprintf("%x", sm3.Sum(kit.Clone(m))) }}, nearItem{fmt.Sprintf("object, %d bytes, %d", n, i), want, func() string {
				h := sm3.New()
				h.Write(kit.Clone(m))
				return fmt.Sprintf("%x", h.Sum(nil))
			}})
		}
	}
	return l
}
