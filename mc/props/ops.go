package props

import (
	"bytes"
	"crypto"
	"crypto/elliptic"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

// The operations that the concurrency (C22) and history (C24) checks combine.
// Every operation is a call, or a few, into the code under test with fixed
// arguments taken from a world; its result is one string.

// fixtures are the byte strings the operations use. They are computed once,
// by the process that coordinates, so that a fresh process need not run the
// code under test to get them.
type fixtures struct {
	B     map[string][]byte
	Nonce bool // the code's nonces are a function of the random source
}

var (
	fixOnce sync.Once
	fixVal  *fixtures
)

func fixes() *fixtures {
	fixOnce.Do(func() {
		if fn := os.Getenv("MC_FIX"); fn != "" {
			b, err := os.ReadFile(fn)
			if err == nil {
				err = json.Unmarshal(b, &fixVal)
			}
			if err != nil {
				panic(err)
			}
			return
		}
		fixVal = makeFixes()
	})
	return fixVal
}

func makeFixes() *fixtures {
	f := &fixtures{B: map[string][]byte{}, Nonce: kit.NonceControl()}
	ok := func(b []byte, err error) []byte {
		if err != nil {
			panic(err)
		}
		return b
	}
	d := kit.Keys[0].D
	d1 := kit.Keys[4].D
	msg := kit.Pattern(0, 133)
	f.B["msg"] = msg
	f.B["msg2"] = kit.Pattern(3, 70)
	f.B["long"] = kit.Pattern(3, 300)
	f.B["uid"] = []byte("alice@example.com")
	f.B["prefix"] = []byte("prefix")
	dg := ref.Digest(kit.PubPoint(d), nil, msg)
	f.B["digest"] = dg
	r, s, _ := ref.SignK(d, kit.B(7777777), dg)
	f.B["sig"] = ref.DERSig(r, s)
	r, s, _ = ref.SignK(d, kit.B(7777778), ref.Digest(kit.PubPoint(d), f.B["uid"], msg))
	f.B["siguid"] = ref.DERSig(r, s)
	r, s, _ = ref.SignK(d1, kit.B(7777779), ref.Digest(kit.PubPoint(d1), nil, f.B["msg2"]))
	f.B["sig1"] = ref.DERSig(r, s)
	// what the rotated world has instead of sig and siguid
	r, s, _ = ref.SignK(d1, kit.B(7777780), ref.Digest(kit.PubPoint(d1), nil, f.B["long"]))
	f.B["sigrot"] = ref.DERSig(r, s)
	r, s, _ = ref.SignK(d1, kit.B(7777781), ref.Digest(kit.PubPoint(d1), f.B["prefix"], f.B["long"]))
	f.B["siguidrot"] = ref.DERSig(r, s)
	bad := kit.Clone(f.B["sig"])
	bad[len(bad)-1] ^= 1
	f.B["badsig"] = bad
	ct, _ := ref.EncryptK(kit.PubPoint(d), kit.B(99), msg)
	f.B["ct"] = ct
	ct, _ = ref.EncryptK(kit.PubPoint(d1), kit.B(98), f.B["long"])
	f.B["ct1"] = ct
	badct := kit.Clone(f.B["ct"])
	badct[100] ^= 1
	f.B["badct"] = badct
	for i := 0; i < 4; i++ {
		f.B[fmt.Sprint("p8-", i)] = p8Of(xkeyOf(i))
		f.B[fmt.Sprint("pkix-", i)] = spkiOf(xkeyOf(i).pub)
	}
	f.B["sec1"] = ok(stdx509.MarshalECPrivateKey(kit.ECDSA(elliptic.P256(), kit.B(4711))))
	f.B["pkcs1"] = stdx509.MarshalPKCS1PrivateKey(kit.RSA(2))
	f.B["pkcs1pub"] = stdx509.MarshalPKCS1PublicKey(&kit.RSA(2).PublicKey)
	ec := xkeyOf(1)
	full := c23Full()
	f.B["full"] = ok(stdx509.CreateCertificate(kit.NewRand("seed"), full, full, ec.pub, ec.s))
	f.B["ca"] = handCert(10, 2, "ca", "ca", spkiOf(xkeyOf(0).pub), xkeyOf(0), extBC(true), extKU(0x60))
	f.B["leaf"] = handCert(11, 2, "ca", "leaf", spkiOf(xkeyOf(7).pub), xkeyOf(0))
	f.B["edca"] = handCert(12, 2, "ed", "ed", spkiOf(xkeyOf(3).pub), xkeyOf(3), extBC(true), extKU(0x60))
	f.B["edleaf"] = handCert(13, 2, "ed", "leaf", spkiOf(xkeyOf(1).pub), xkeyOf(3))
	f.B["rsaca"] = handCert(14, 2, "rsa", "rsa", spkiOf(xkeyOf(2).pub), xkeyOf(2), extBC(true), extKU(0x60))
	f.B["ecca"] = handCert(15, 2, "ec", "ec", spkiOf(xkeyOf(1).pub), xkeyOf(1), extBC(true), extKU(0x60))
	f.B["csr"] = c13Make(xkeyOf(0), "x")
	f.B["csred"] = c13Make(xkeyOf(3), "y")
	f.B["crl"] = c14Hand(xkeyOf(0), 4)
	f.B["edcrl"] = c14Hand(xkeyOf(3), 5)
	content := []byte("content of a message")
	f.B["content"] = content
	f.B["p7"] = p7Build(content, [][]byte{p7Cert(0, 50, "iss")}, nil, p7Good(0, 50, "iss", content, false))
	f.B["p7direct"] = p7Build(content, [][]byte{p7Cert(7, 51, "iss")}, nil, p7Good(7, 51, "iss", content, true))
	o := p12Std("pw")
	o.iter, o.macIter = 3, 3
	id := p12Attr(ref.OIDLocalKey, ref.Oct([]byte{1, 2, 3}))
	f.B["pfx"] = p12Build(o, [][]byte{p12CertBag(f.B["leaf"], id)}, [][]byte{p12KeyBag(o, f.B["p8-0"], id)})
	o2 := p12Std("秘密")
	o2.iter, o2.macIter = 2, 1
	f.B["pfxec"] = p12Build(o2, [][]byte{p12CertBag(f.B["edleaf"], id)}, [][]byte{p12KeyBag(o2, f.B["p8-1"], id)})
	f.B["rc2key"] = kit.Pattern(3, 16)
	f.B["block"] = []byte("8 bytes!")
	return f
}

// world holds arguments. In C22 both threads use one world.
type world struct {
	mu   sync.Mutex
	bufs map[string][]byte // whole buffers: content + sentinels
	objs map[string]any
	dir  string
	// frozen: everything is there; no locks, which would order the threads
	frozen bool
	// rot: operations get other keys and contents (the rotated world)
	rot int
}

// rotated gives the fixtures an operation gets in the rotated world.
var rotated = map[string]string{
	"msg": "long", "long": "msg", "msg2": "msg", "uid": "prefix", "digest": "rc2key", "sig": "sigrot", "sig1": "siguid", "siguid": "siguidrot",
	"ct": "ct1", "ct1": "ct", "ca": "edca", "edca": "rsaca", "rsaca": "ecca", "ecca": "ca", "leaf": "edleaf", "edleaf": "leaf",
	"csr": "csred", "csred": "csr", "crl": "edcrl", "edcrl": "crl", "p7": "p7direct", "p7direct": "p7",
	"p8-0": "p8-1", "p8-1": "p8-2", "p8-2": "p8-3", "p8-3": "p8-0", "pkix-0": "pkix-1", "pkix-1": "pkix-2", "pkix-2": "pkix-3", "pkix-3": "pkix-0",
}

func (w *world) fx(name string) string {
	if r, ok := rotated[name]; ok && w.rot > 0 {
		return r
	}
	return name
}

func newRotated() *world {
	w := newWorld()
	w.rot = 1
	return w
}

// worldFor gives the world of operation i: from len(ops) on, operations are
// those of the rotated world.
func worldFor(i int, w, r *world) *world {
	if i >= len(ops) {
		return r
	}
	return w
}

func opAt(i int) *opDef { return &ops[i%len(ops)] }

func opName(i int) string {
	if i >= len(ops) {
		return ops[i%len(ops)].name + " (other arguments)"
	}
	return ops[i].name
}

// raceQuiet: results are not wanted, and making them would order the threads.
var raceQuiet bool

const sentinels = 24

func newWorld() *world { return &world{bufs: map[string][]byte{}, objs: map[string]any{}} }

func (w *world) buf(name string) []byte {
	if w.frozen {
		b := w.bufs[name]
		return b[:len(b)-sentinels]
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	b, ok := w.bufs[name]
	src, ok2 := fixes().B[w.fx(name)]
	if !ok2 {
		panic("no fixture " + name)
	}
	if !ok {
		b = make([]byte, len(src)+sentinels)
		copy(b, src)
		for i := 0; i < sentinels; i++ {
			b[len(src)+i] = 0xC3
		}
		w.bufs[name] = b
	}
	return b[:len(src)] // capacity includes the sentinels
}

// intact reports which argument was changed.
func (w *world) intact() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	for name, b := range w.bufs {
		src := fixes().B[w.fx(name)]
		if !bytes.Equal(b[:len(src)], src) {
			return "argument " + name + " was changed"
		}
		for _, c := range b[len(src):] {
			if c != 0xC3 {
				return "memory behind argument " + name + " was changed"
			}
		}
	}
	for name, o := range w.objs {
		if k, ok := o.(*sm2.PrivateKey); ok && strings.HasPrefix(name, "key") {
			i := int(name[3] - '0')
			d := w.d(i)
			if k.D.Cmp(d) != 0 || !kit.PointOf(&k.PublicKey).Equal(kit.PubPoint(d)) {
				return "the key " + name + " was changed"
			}
		}
		if x, ok := o.(*big.Int); ok {
			if x.Cmp(worldInt(name)) != 0 {
				return "the integer " + name + " was changed"
			}
		}
	}
	return ""
}

var worldKeys = []int{0, 4, 6}

func (w *world) obj(name string, f func() any) any {
	if w.frozen {
		o, ok := w.objs[name]
		if !ok {
			panic("frozen world without " + name)
		}
		return o
	}
	w.mu.Lock()
	o, ok := w.objs[name]
	w.mu.Unlock()
	if ok {
		return o
	}
	o = f()
	w.mu.Lock()
	w.objs[name] = o
	w.mu.Unlock()
	return o
}

func (w *world) d(i int) *big.Int { return kit.Keys[worldKeys[(i+w.rot)%len(worldKeys)]].D }

func (w *world) key(i int) *sm2.PrivateKey {
	return w.obj("key"+strconv.Itoa(i), func() any { return kit.Priv(w.d(i)) }).(*sm2.PrivateKey)
}

func worldInt(name string) *big.Int {
	r, s, _ := parseSig(fixes().B["sig"])
	if name == "int-r" {
		return r
	}
	if name == "int-s" {
		return s
	}
	return kit.H("1234567890ABCDEF1234567890ABCDEF1234567890ABCDEF1234567890ABCDEF")
}

func (w *world) num(name string) *big.Int {
	return w.obj("int-"+name, func() any { return worldInt("int-" + name) }).(*big.Int)
}

func (w *world) xkey(i int) xkey {
	return w.obj("xkey"+strconv.Itoa(i), func() any {
		if i == 0 {
			k := w.key(0)
			return xkey{"SM2", &kit.Signer{Key: k}, &k.PublicKey, nil, x509.SM2WithSM3}
		}
		return xkeyOf(100*w.rot + i)
	}).(xkey)
}

func (w *world) cert(name string) *x509.Certificate {
	return w.obj("cert-"+name, func() any {
		c, err := x509.ParseCertificate(w.buf(name))
		if err != nil {
			panic(engine.Failure{Key: "fixture", Msg: name + " does not parse: " + err.Error()})
		}
		return c
	}).(*x509.Certificate)
}

// opRun is one execution of an operation.
type opRun struct {
	w    *world
	b    strings.Builder
	outs [][]byte
	own  []any // results to change when all is done
	bad  string
}

func (r *opRun) in(name string) []byte { return r.w.buf(name) }

// out adds a byte result and remembers to scribble over it afterwards.
func (r *opRun) out(label string, b []byte, err error) []byte {
	if err != nil {
		r.put("%s: error %v %d", label, err, len(b))
		return nil
	}
	if !raceQuiet {
		r.put("%s: %s", label, hexShort(b))
	}
	r.outs = append(r.outs, b)
	return b
}

// mine notes results that belong to the operation; it changes them at its end.
func (r *opRun) mine(v ...any) { r.own = append(r.own, v...) }

func (r *opRun) put(f string, a ...any) {
	if raceQuiet {
		return
	}
	fmt.Fprintf(&r.b, f+"\n", a...)
}

func (r *opRun) must(ok bool, f string, a ...any) {
	if !ok && r.bad == "" {
		r.bad = fmt.Sprintf(f, a...)
	}
}

func hexShort(b []byte) string {
	if len(b) <= 48 {
		return hex.EncodeToString(b)
	}
	return fmt.Sprintf("%d bytes %x %x", len(b), b[:4], ref.SM3(b))
}

// finish returns the result after writing over everything returned.
func (r *opRun) finish() string {
	for _, o := range r.outs {
		o = o[:cap(o)]
		for i := range o {
			o[i] = 0x5A
		}
	}
	for _, o := range r.own {
		scribble(o)
	}
	if r.bad != "" {
		if r.w.rot > 0 { // what it expects of its arguments need not hold there
			return "OTHER\n" + r.b.String()
		}
		return "WRONG " + r.bad + "\n" + r.b.String()
	}
	return r.b.String()
}

type opDef struct {
	name string
	prep func(w *world) // objects that are parsed by the code under test
	run  func(r *opRun)
	// quick: part of the quick tier of C22
	quick bool
}

func runOp(i int, w *world) (res string) {
	r := &opRun{w: w}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(engine.Failure); ok {
				res = "PANIC " + f.Msg
				return
			}
			res = fmt.Sprintf("PANIC %v", e)
		}
	}()
	if p := opAt(i).prep; p != nil {
		p(w)
	}
	opAt(i).run(r)
	return r.finish()
}

// sigOut records a signature: its bytes when nonces are reproducible, and
// whether it is right in any case.
func (r *opRun) sigOut(label string, der []byte, err error, d *big.Int, digest []byte) {
	if err != nil {
		r.put("%s: error %v", label, err)
		return
	}
	a, b, ok := parseSig(der)
	r.must(ok && ref.VerifyDigest(kit.PubPoint(d), digest, a, b), "%s: the signature %x is wrong", label, der)
	if fixes().Nonce {
		r.out(label, der, nil)
	} else {
		r.put("%s: fine", label)
		r.outs = append(r.outs, der)
	}
}

// signedOut records a signed structure without its signature.
func (r *opRun) signedOut(label string, der []byte, err error, k xkey) {
	if err != nil {
		r.put("%s: error %v", label, err)
		return
	}
	n := ref.Parse(der, 0)
	if len(n) != 1 || n[0].At(2) == nil {
		r.must(false, "%s: not a signed structure: %x", label, der)
		return
	}
	tbs := n[0].At(0).Raw
	sig := n[0].At(2).Body
	r.must(len(sig) > 1 && xverify(k.pub, k.def, tbs, sig[1:]), "%s: the signature is wrong", label)
	r.put("%s: %s", label, hexShort(tbs))
	r.outs = append(r.outs, der)
}

func (w *world) certs(names ...string) {
	for _, n := range names {
		w.cert(n)
	}
}

func (w *world) tempDir() string {
	return w.obj("dir", func() any {
		d, err := os.MkdirTemp("", "mcops-")
		if err != nil {
			panic(err)
		}
		w.dir = d
		return d
	}).(string)
}

func (w *world) close() {
	if w.dir != "" && strings.Contains(w.dir, "mcops-") {
		os.RemoveAll(w.dir)
	}
}

// tpl is a shared template or other object made by f, with spare capacity
// behind all its slices.
func (w *world) tpl(name string) any {
	return w.obj("tpl-"+name, func() any {
		v := templates[name]()
		roomy(v)
		return v
	})
}

// same runs f and demands that nothing reachable from the objects changes.
func (r *opRun) same(what string, f func(), objs ...any) {
	if raceQuiet {
		f()
		return
	}
	var before []string
	for _, o := range objs {
		before = append(before, deep(o))
	}
	f()
	for i, o := range objs {
		if a := deep(o); a != before[i] {
			k := 0
			for k < len(a) && k < len(before[i]) && a[k] == before[i][k] {
				k++
			}
			from := max(0, k-60)
			r.must(false, "%s changed its argument %d: %.160s instead of %.160s", what, i, a[from:], before[i][from:])
		}
	}
}

var opZone = time.FixedZone("zone", 5*3600+1800)

// templates are the shared argument objects.
var templates = map[string]func() any{
	"cert": func() any {
		c := caTemplate("tpl", 20)
		c.DNSNames, c.EmailAddresses = []string{"b.example", "a.example"}, []string{"z@y", "a@b"}
		c.IPAddresses, c.URIs = ipList("10.1.2.3", "2001:db8::1"), urls("http://x/y")
		c.NotBefore, c.NotAfter = t2020.In(opZone), time.Date(2060, 1, 1, 0, 0, 0, 999, opZone)
		c.SubjectKeyId, c.AuthorityKeyId = []byte{1, 2}, []byte{3}
		c.ExtKeyUsage, c.UnknownExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageAny}, []asn1.ObjectIdentifier{{1, 2, 3}}
		c.OCSPServer, c.IssuingCertificateURL, c.CRLDistributionPoints = []string{"http://o"}, []string{"http://i"}, []string{"http://c"}
		c.PermittedDNSDomains, c.ExcludedDNSDomains = []string{"q", ".a"}, []string{"b"}
		c.PermittedIPRanges, c.ExcludedIPRanges = netList("10.0.0.0/8"), netList("2001:db8::/32")
		c.PermittedEmailAddresses, c.PermittedURIDomains = []string{"x@y"}, []string{"h"}
		c.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 3, 5}}
		c.ExtraExtensions = []pkix.Extension{{Id: oid(1, 9, 9), Value: []byte{1, 2}}, {Id: oid(1, 9, 8), Critical: true, Value: []byte{3}}}
		return c
	},
	"csr": func() any {
		c := csrTemplate()
		c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs = []string{"b.example", "a.example"}, []string{"a@b"}, ipList("1.2.3.4"), urls("http://u")
		c.ExtraExtensions = []pkix.Extension{{Id: oid(1, 9, 9), Value: []byte{1, 2}}}
		c.Attributes = []pkix.AttributeTypeAndValueSET{
			{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 9, 7}, Value: []byte{5, 0}}}}},
			{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 2}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 9, 6}, Value: "text"}}}},
		}
		return c
	},
	"revoked": func() any {
		l := &x509.RevocationList{Number: kit.B(77), ThisUpdate: t2020.In(opZone), NextUpdate: t2040.In(opZone),
			ExtraExtensions: []pkix.Extension{{Id: oid(1, 9, 9), Value: []byte{1}}}}
		for i := int64(3); i > 0; i-- {
			l.RevokedCertificates = append(l.RevokedCertificates, pkix.RevokedCertificate{SerialNumber: kit.B(i), RevocationTime: t2020.Add(time.Duration(i) * time.Hour).In(opZone),
				Extensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Value: []byte{10, 1, 1}}}})
		}
		return l
	},
	"chain": func() any {
		var l []*stdx509.Certificate
		for _, n := range []string{"ecca", "edca", "rsaca"} {
			c, err := stdx509.ParseCertificate(fixes().B[n])
			if err != nil {
				panic(err)
			}
			l = append(l, c)
		}
		return &l
	},
	"p7": func() any {
		p, err := x509.ParsePKCS7(fixes().B["p7"])
		if err != nil {
			panic(engine.Failure{Key: "fixture", Msg: "p7 does not parse: " + err.Error()})
		}
		return p
	},
	"request": func() any {
		c, err := x509.ParseCertificateRequest(fixes().B["csr"])
		if err != nil {
			panic(engine.Failure{Key: "fixture", Msg: "csr does not parse: " + err.Error()})
		}
		return c
	},
	"crl": func() any {
		c, err := x509.ParseCRL(fixes().B["crl"])
		if err != nil {
			panic(engine.Failure{Key: "fixture", Msg: "crl does not parse: " + err.Error()})
		}
		return c
	},
}

// relatedPub lists public keys that share coordinates or are short ones.
var relatedPub = []func() ref.Point{
	nil, // the world's first key
	nil, // and its negation
	func() ref.Point { return ref.Tiny(2, false) },
	func() ref.Point { return ref.Tiny(29, false) },
	func() ref.Point { return ref.Tiny(2, true) },
	func() ref.Point { return ref.Tiny(30, true) },
	func() ref.Point { return ref.Neg(ref.Tiny(2, false)) },
}

func (w *world) related(i int) *sm2.PublicKey {
	return w.obj("related"+strconv.Itoa(i), func() any {
		switch i {
		case 0:
			return kit.Pub(kit.PubPoint(w.d(0)))
		case 1:
			return kit.Pub(ref.Neg(kit.PubPoint(w.d(0))))
		}
		return kit.Pub(relatedPub[(i-2+w.rot)%(len(relatedPub)-2)+2]())
	}).(*sm2.PublicKey)
}

func prepRelated(from, to int) func(*world) {
	return func(w *world) {
		for i := from; i < to; i++ {
			w.related(i)
		}
	}
}

// relatedOp uses the given keys in every way that needs no private key.
func relatedOp(from, to int) func(r *opRun) {
	return func(r *opRun) {
		for i := from; i < to; i++ {
			p := r.w.related(i)
			r.same("use of a public key", func() {
				q := kit.PointOf(p)
				for _, u := range []string{"", "uid"} {
					var uid []byte
					if u != "" {
						uid = r.in(u)
					}
					b, err := p.SM3Digest(r.in("msg"), uid)
					r.must(err == nil && (raceQuiet || bytes.Equal(b, ref.Digest(q, uid, r.in("msg")))), "key %d user %q: the digest is wrong", i, u)
					r.outs = append(r.outs, b)
				}
				r.put("%d verify %v", i, sm2.Verify(p, r.in("msg"), nil, r.in("sig")))
				r.put("%d digest %v", i, sm2.VerifyDigest(p, r.in("digest"), r.in("sig")))
				b, err := x509.MarshalPKIXPublicKey(p)
				r.out("pkix", b, err)
				c, err := sm2.Encryt(kit.NewRand("ops-rel"), p, r.in("msg2"))
				r.must(err == nil && len(c) == 97+len(r.in("msg2")), "encryption: %v", err)
				if fixes().Nonce {
					r.out("ct", c, err)
				}
				r.put("%v %v", p.Equal(r.w.related(from)), p.IsOnCurve(p.X, p.Y))
			}, p)
		}
	}
}

var errWord = map[bool]string{true: "accepted", false: "refused"}

func certLine(c *x509.Certificate, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return strings.Join(certView(c), "|")
}

var ops = []opDef{
	{name: "sm3.Sum", quick: true, run: func(r *opRun) {
		r.out("sum", sm3.Sum(r.in("msg")), nil)
		r.out("long", sm3.Sum(r.in("long")), nil)
		r.out("empty", sm3.Sum(nil), nil)
	}},
	{name: "sm3.New", quick: true, run: func(r *opRun) {
		h := sm3.New()
		m := r.in("long")
		h.Write(m[:70])
		r.out("mid", h.Sum(nil), nil)
		h.Write(m[70:71])
		r.out("appended", h.Sum(r.in("prefix")[:6:6]), nil)
		h.Write(m[71:])
		r.out("end", h.Sum(nil), nil)
		h.Reset()
		h.Write(r.in("msg2"))
		r.out("reset", h.Sum(nil), nil)
	}},
	{name: "sm2.GenerateKey", quick: true, run: func(r *opRun) {
		k, err := sm2.GenerateKey(kit.NewRand("ops-gen"))
		if err != nil {
			r.put("error %v", err)
			return
		}
		r.must(kit.PointOf(&k.PublicKey).Equal(ref.MulG(k.D)), "public key does not belong to the private key")
		if fixes().Nonce {
			r.put("%x", k.D)
		}
		k.D.SetInt64(3) // the caller owns the key
		k.X.SetInt64(4)
		k.Y.SetInt64(5)
	}},
	{name: "sm2.Sign", quick: true, run: func(r *opRun) {
		sig, err := sm2.Sign(kit.NewRand("ops-sign"), r.w.key(0), r.in("msg"), nil)
		r.sigOut("sign", sig, err, r.w.d(0), ref.Digest(kit.PubPoint(r.w.d(0)), nil, r.in("msg")))
	}},
	{name: "sm2.Sign uid", run: func(r *opRun) {
		d := r.w.d(1)
		sig, err := r.w.key(1).Sign(kit.NewRand("ops-sign-uid"), r.in("msg2"), r.in("uid"))
		r.sigOut("sign", sig, err, d, ref.Digest(kit.PubPoint(d), r.in("uid"), r.in("msg2")))
		a, b, err := sm2.SignRS(kit.NewRand("ops-sign-rs"), r.w.key(1), r.in("msg2"), r.in("uid"))
		if err != nil {
			r.put("error %v", err)
			return
		}
		r.sigOut("rs", ref.DERSig(a, b), nil, d, ref.Digest(kit.PubPoint(d), r.in("uid"), r.in("msg2")))
		a.SetInt64(1)
		b.SetInt64(2)
	}},
	{name: "sm2.SignDigest", run: func(r *opRun) {
		sig, err := sm2.SignDigest(kit.NewRand("ops-sd"), r.w.key(2), r.in("digest"))
		r.sigOut("sign", sig, err, r.w.d(2), r.in("digest"))
	}},
	{name: "sm2.SM3Digest", quick: true, run: func(r *opRun) {
		p := &r.w.key(0).PublicKey
		b, err := p.SM3Digest(r.in("msg"), nil)
		r.out("default", b, err)
		b, err = p.SM3Digest(r.in("msg"), r.in("uid"))
		r.out("uid", b, err)
		b, err = r.w.key(2).PublicKey.SM3Digest(r.in("msg"), r.in("uid"))
		r.out("other key", b, err)
	}},
	{name: "sm2.Verify", quick: true, run: func(r *opRun) {
		p := &r.w.key(0).PublicKey
		r.put("good %v", sm2.Verify(p, r.in("msg"), nil, r.in("sig")))
		r.put("uid %v", p.Verify(r.in("msg"), r.in("uid"), r.in("siguid")))
		r.put("bad %v", p.Verify(r.in("msg"), nil, r.in("badsig")))
	}},
	{name: "sm2.VerifyRS", run: func(r *opRun) {
		p := &r.w.key(0).PublicKey
		r.put("rs %v", sm2.VerifyRS(p, r.in("msg"), nil, r.w.num("r"), r.w.num("s")))
		r.put("digest %v", sm2.VerifyDigest(p, r.in("digest"), r.in("sig")))
		r.put("digest rs %v", p.VerifyDigestRS(r.in("digest"), r.w.num("r"), r.w.num("s")))
		r.put("swapped %v", p.VerifyDigestRS(r.in("digest"), r.w.num("s"), r.w.num("r")))
		r.put("other key %v", sm2.Verify(&r.w.key(1).PublicKey, r.in("msg2"), nil, r.in("sig1")))
		r.put("other key's %v", sm2.Verify(&r.w.key(1).PublicKey, r.in("msg"), nil, r.in("sig")))
	}},
	{name: "sm2.MarshalSign", run: func(r *opRun) {
		b, err := sm2.MarshalSign(r.w.num("r"), r.w.num("s"))
		r.out("marshal", b, err)
		x, y, err := sm2.UnmarshalSign(r.in("siguid"))
		r.put("%x %x %v", x, y, err)
		x.SetInt64(1)
		y.SetInt64(1)
		_, _, err = sm2.UnmarshalSign(r.in("msg"))
		r.put("garbage %v", err)
	}},
	{name: "sm2.Encryt", quick: true, run: func(r *opRun) {
		for _, n := range []string{"msg", "long"} {
			c, err := sm2.Encryt(kit.NewRand("ops-enc"+n), &r.w.key(1).PublicKey, r.in(n))
			if err != nil {
				r.put("error %v", err)
				continue
			}
			m, err := ref.Decrypt(r.w.d(1), c)
			r.must(err == nil && bytes.Equal(m, r.in(n)), "%s: does not decrypt: %v", n, err)
			if fixes().Nonce {
				r.out(n, c, nil)
			} else {
				r.outs = append(r.outs, c)
			}
		}
	}},
	{name: "sm2.Decryt", quick: true, run: func(r *opRun) {
		m, err := sm2.Decryt(r.w.key(0), r.in("ct"))
		r.out("plain", m, err)
	}},
	{name: "sm2.Decryt others", run: func(r *opRun) {
		m, err := sm2.Decryt(r.w.key(1), r.in("ct1"))
		r.out("long", m, err)
		m, err = sm2.Decryt(r.w.key(0), r.in("badct"))
		r.out("altered", m, err)
		m, err = sm2.Decryt(r.w.key(2), r.in("ct"))
		r.out("other key", m, err)
	}},
	{name: "curve", quick: true, run: func(r *opRun) {
		c := sm2.SM2P256V1()
		k := r.w.key(0)
		e := r.in("digest")
		x, y := c.ScalarBaseMult(e)
		r.put("base %x %x on %v", x, y, c.IsOnCurve(x, y))
		a, b := c.ScalarMult(k.X, k.Y, e)
		r.put("mult %x %x", a, b)
		u, v := c.Add(x, y, a, b)
		r.put("add %x %x", u, v)
		u, v = c.Double(k.X, k.Y)
		r.put("double %x %x", u, v)
		r.put("off %v", c.IsOnCurve(k.X, k.X))
		p := c.Params()
		r.put("params %x %x %x %x %x %d %s", p.P, p.N, p.B, p.Gx, p.Gy, p.BitSize, p.Name)
		res := []*big.Int{x, y, a, b, u, v}
		// scalars and points for which there are short cuts
		n := p.N
		for i, z := range [][]byte{{}, {0}, {1}, {2}, {0, 0, 1}, new(big.Int).Sub(n, ref.One).Bytes(), n.Bytes(), new(big.Int).Add(n, ref.One).Bytes()} {
			x, y := c.ScalarBaseMult(z)
			a, b := c.ScalarMult(k.X, k.Y, z)
			r.put("%d base %x %x mult %x %x", i, x, y, a, b)
			res = append(res, x, y, a, b)
		}
		o := new(big.Int)
		for i, q := range [][4]*big.Int{{o, o, k.X, k.Y}, {k.X, k.Y, o, o}, {o, o, o, o}, {k.X, k.Y, k.X, k.Y}, {k.X, k.Y, k.X, new(big.Int).Sub(p.P, k.Y)}} {
			x, y := c.Add(q[0], q[1], q[2], q[3])
			r.put("%d add %x %x", i, x, y)
			res = append(res, x, y)
		}
		x, y = c.Double(o, o)
		r.put("double %x %x", x, y)
		for _, z := range append(res, x, y) {
			z.SetInt64(9)
		}
	}},
	{name: "MarshalPKCS8", quick: true, run: func(r *opRun) {
		b, err := x509.MarshalPKCS8PrivateKey(r.w.key(0))
		r.out("sm2", b, err)
		b, err = x509.MarshalPKCS8PrivateKey(r.w.key(2))
		r.out("sm2 short", b, err)
		for i := 1; i < 4; i++ {
			b, err = x509.MarshalPKCS8PrivateKey(r.w.xkey(i).s)
			r.out(strconv.Itoa(i), b, err)
		}
	}},
	{name: "ParsePKCS8", quick: true, run: func(r *opRun) {
		for i := 0; i < 4; i++ {
			k, err := x509.ParsePKCS8PrivateKey(r.in("p8-" + strconv.Itoa(i)))
			r.put("%d %v %s", i, err, keyLine(k))
			r.mine(k)
		}
	}},
	{name: "MarshalPKIX", quick: true, run: func(r *opRun) {
		for i := 0; i < 4; i++ {
			b, err := x509.MarshalPKIXPublicKey(r.w.xkey(i).pub)
			r.out(strconv.Itoa(i), b, err)
		}
	}},
	{name: "ParsePKIX", quick: true, run: func(r *opRun) {
		for i := 0; i < 4; i++ {
			k, err := x509.ParsePKIXPublicKey(r.in("pkix-" + strconv.Itoa(i)))
			r.put("%d %v %s", i, err, keyLine(k))
			r.mine(k)
		}
	}},
	{name: "SEC1", run: func(r *opRun) {
		k, err := x509.ParseECPrivateKey(r.in("sec1"))
		r.mine(k)
		r.put("%v %s", err, keyLine(k))
		b, err := x509.MarshalECPrivateKey(kit.ECDSA(elliptic.P384(), kit.B(99)))
		r.out("marshal", b, err)
	}},
	{name: "PKCS1", run: func(r *opRun) {
		k, err := x509.ParsePKCS1PrivateKey(r.in("pkcs1"))
		r.mine(k)
		r.put("%v %s", err, keyLine(k))
		p, err := x509.ParsePKCS1PublicKey(r.in("pkcs1pub"))
		r.mine(p)
		r.put("%v %s", err, keyLine(p))
		r.out("private", x509.MarshalPKCS1PrivateKey(kit.RSA(2)), nil)
		r.out("public", x509.MarshalPKCS1PublicKey(&kit.RSA(2).PublicKey), nil)
	}},
	{name: "ParseCertificate", quick: true, run: func(r *opRun) {
		c, err := x509.ParseCertificate(r.in("full"))
		r.mine(c)
		r.put("%s", certLine(c, err))
		if err == nil {
			r.put("%v", c.PermittedURIDomains)
		}
	}},
	{name: "ParseCertificates", run: func(r *opRun) {
		l, err := x509.ParseCertificates(append(append([]byte{}, r.in("ca")...), r.in("rsaca")...))
		r.put("%d %v", len(l), err)
		r.mine(l)
		for _, c := range l {
			r.put("%s", certLine(c, nil))
		}
	}},
	{name: "CheckSignatureFrom", quick: true, prep: func(w *world) { w.certs("ca", "leaf") }, run: func(r *opRun) {
		r.put("chain %v", r.w.cert("leaf").CheckSignatureFrom(r.w.cert("ca")))
		r.put("backwards %v", r.w.cert("ca").CheckSignatureFrom(r.w.cert("leaf")))
	}},
	{name: "CheckSignatureFrom others", prep: func(w *world) { w.certs("ca", "edca", "edleaf", "rsaca", "ecca") }, run: func(r *opRun) {
		r.put("ed %v", r.w.cert("edleaf").CheckSignatureFrom(r.w.cert("edca")))
		r.put("rsa %v", r.w.cert("rsaca").CheckSignatureFrom(r.w.cert("rsaca")))
		r.put("ec %v", r.w.cert("ecca").CheckSignatureFrom(r.w.cert("ecca")))
		r.put("crossed %v", r.w.cert("ecca").CheckSignatureFrom(r.w.cert("edca")))
		r.put("crossed %v", r.w.cert("ca").CheckSignatureFrom(r.w.cert("rsaca")))
	}},
	{name: "CheckSignature", quick: true, prep: func(w *world) { w.certs("ca") }, run: func(r *opRun) {
		c := r.w.cert("ca")
		r.put("good %v", c.CheckSignature(x509.SM2WithSM3, r.in("msg"), r.in("sig")))
		r.put("bad %v", c.CheckSignature(x509.SM2WithSM3, r.in("msg2"), r.in("sig")))
		r.put("other algorithm %v", c.CheckSignature(x509.ECDSAWithSHA256, r.in("msg"), r.in("sig")))
		r.put("insecure %v", c.CheckSignature(x509.MD5WithRSA, r.in("msg"), r.in("sig")))
		r.put("equal %v %v", c.Equal(c), c.Equal(nil))
	}},
	{name: "CreateCertificate", quick: true, prep: func(w *world) { w.certs("ca") }, run: func(r *opRun) {
		k := r.w.xkey(0)
		tpl := leafTemplate("made", 9)
		tpl.DNSNames = []string{"a.example"}
		b, err := x509.CreateCertificate(kit.NewRand("ops-cc"), tpl, r.w.cert("ca"), r.w.xkey(1).pub, k.s)
		r.signedOut("cert", b, err, k)
	}},
	{name: "CreateCertificate others", run: func(r *opRun) {
		for _, i := range []int{3, 1} {
			k := r.w.xkey(i)
			tpl := caTemplate("made", 10)
			tpl.IPAddresses, tpl.URIs = ipList("10.1.2.3"), urls("http://x/y")
			b, err := x509.CreateCertificate(kit.NewRand("ops-co"), tpl, tpl, k.pub, k.s)
			r.signedOut("cert", b, err, k)
		}
	}},
	{name: "CreateCertificateRequest", quick: true, run: func(r *opRun) {
		for _, i := range []int{0, 3} {
			k := r.w.xkey(i)
			tpl := csrTemplate()
			tpl.DNSNames = []string{"a.example"}
			b, err := x509.CreateCertificateRequest(kit.NewRand("ops-csr"), tpl, k.s)
			r.signedOut("request", b, err, k)
		}
	}},
	{name: "ParseCertificateRequest", quick: true, run: func(r *opRun) {
		for _, n := range []string{"csr", "csred"} {
			c, err := x509.ParseCertificateRequest(r.in(n))
			r.mine(c)
			if err != nil {
				r.put("error %v", err)
				continue
			}
			r.put("%s %v", strings.Join(csrView(c), "|"), c.CheckSignature())
		}
	}},
	{name: "CreateCRL", run: func(r *opRun) {
		k := r.w.xkey(0)
		ca := caTemplate("i", 1)
		b, err := ca.CreateCRL(kit.NewRand("ops-crl"), k.s, []pkix.RevokedCertificate{{SerialNumber: kit.B(5), RevocationTime: t2020}}, t2020, t2040)
		r.signedOut("crl", b, err, k)
	}},
	{name: "CreateRevocationList", quick: true, prep: func(w *world) { w.certs("ca", "edca") }, run: func(r *opRun) {
		for _, n := range []string{"ca", "edca"} {
			k := r.w.xkey(3)
			if n == "ca" {
				k = r.w.xkey(0)
			}
			c := *r.w.cert(n)
			c.SubjectKeyId = []byte("ski")
			b, err := x509.CreateRevocationList(kit.NewRand("ops-rl"), &x509.RevocationList{Number: kit.B(7), ThisUpdate: t2020, NextUpdate: t2040,
				RevokedCertificates: []pkix.RevokedCertificate{{SerialNumber: kit.B(6), RevocationTime: t2020}}}, &c, k.s)
			r.signedOut("list", b, err, k)
		}
	}},
	{name: "ParseCRL", quick: true, prep: func(w *world) { w.certs("ca", "edca") }, run: func(r *opRun) {
		l, err := x509.ParseCRL(r.in("crl"))
		r.mine(l)
		if err != nil {
			r.put("error %v", err)
			return
		}
		r.put("%d %v %v %v", len(l.TBSCertList.RevokedCertificates), l.TBSCertList.Issuer, l.HasExpired(time.Unix(0, 0)), exts(l.TBSCertList.Extensions))
		r.put("own %v", r.w.cert("ca").CheckCRLSignature(l))
		r.put("other %v", r.w.cert("edca").CheckCRLSignature(l))
		l, err = x509.ParseDERCRL(r.in("edcrl"))
		r.mine(l)
		if err != nil {
			r.put("error %v", err)
			return
		}
		r.put("ed %v", r.w.cert("edca").CheckCRLSignature(l))
	}},
	{name: "NewSignedData", quick: true, prep: func(w *world) { w.certs("ca") }, run: func(r *opRun) {
		b, err := x509.NewSignedData(r.w.cert("ca"), r.w.key(0), r.in("content"))
		r.p7("key", b, err)
	}},
	{name: "NewSignedDataCallBack", prep: func(w *world) { w.certs("ca") }, run: func(r *opRun) {
		k := r.w.key(0)
		b, err := x509.NewSignedDataCallBack(r.w.cert("ca"), func(b []byte) ([]byte, error) { return sm2.Sign(kit.NewRand("ops-cb"), k, b, nil) }, r.in("content"))
		r.p7("callback", b, err)
		b, err = x509.NewSignedDataCallBack(r.w.cert("ca"), func(b []byte) ([]byte, error) { return nil, kit.ErrScript }, r.in("content"))
		r.put("failed %v %d", err, len(b))
	}},
	{name: "PKCS7", quick: true, run: func(r *opRun) {
		for _, n := range []string{"p7", "p7direct"} {
			p, err := x509.ParsePKCS7(r.in(n))
			r.mine(p)
			if err != nil {
				r.put("error %v", err)
				continue
			}
			r.put("verify %v content %x certs %d signer %s", p.Verify(), p.Content, len(p.Certificates), certLine(p.GetOnlySigner(), nil))
			var md []byte
			err = p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &md)
			r.put("%x %v", md, err)
			c := *p
			c.Content = []byte("other")
			r.put("other content %v", errWord[c.Verify() == nil])
		}
	}},
	{name: "pkcs12.Encode", quick: true, prep: func(w *world) { w.certs("leaf", "edleaf") }, run: func(r *opRun) {
		b, err := pkcs12.Encode(kit.Priv(r.w.d(2)), r.w.cert("leaf"), nil, "pw")
		r.p12("sm2", b, err, "pw", "leaf")
		k := xkeyOf(1)
		b, err = pkcs12.Encode(k.s, r.w.cert("edleaf"), nil, "秘密")
		r.p12("ec", b, err, "秘密", "edleaf")
	}},
	{name: "pkcs12.DecodeAll", quick: true, run: func(r *opRun) {
		k, c, err := pkcs12.DecodeAll(r.in("pfx"), "pw")
		r.put("%v %s %d", err, keyLine(k), len(c))
		r.mine(k, c)
		for _, x := range c {
			r.put("%s", certLine(x, nil))
		}
		k, c, err = pkcs12.DecodeAll(r.in("pfx"), "pw2")
		r.put("wrong password %v %v %d", err, k, len(c))
	}},
	{name: "pkcs12.Decode", run: func(r *opRun) {
		k, c, err := pkcs12.Decode(r.in("pfxec"), "秘密")
		r.mine(k, c)
		r.put("%v %s", err, keyLine(k))
		if err == nil {
			r.put("%x", ref.SM3(c.Raw))
		}
		k, c, err = pkcs12.Decode(r.in("pfxec"), "秘")
		r.put("wrong password %v %v %v", err, k, c == nil)
	}},
	{name: "pkcs12.ToPEM", run: func(r *opRun) {
		l, err := pkcs12.ToPEM(r.in("pfxec"), "秘密")
		r.mine(l)
		r.put("%v", err)
		for _, b := range l {
			r.put("%s %v", b.Type, b.Headers)
			r.out("block", b.Bytes, nil)
		}
	}},
	{name: "pkcs12.New", quick: true, run: func(r *opRun) {
		c, err := pkcs12.New(r.in("rc2key"), 128)
		if err != nil {
			r.put("error %v", err)
			return
		}
		e := make([]byte, 8)
		c.Encrypt(e, r.in("block"))
		d := make([]byte, 8)
		c.Decrypt(d, e)
		r.put("%x %x", e, d)
		c.Encrypt(e, e) // in place
		r.put("%x", e)
	}},
	{name: "SM2P12 files", prep: func(w *world) { w.certs("leaf"); w.tempDir() }, run: func(r *opRun) {
		f, err := os.CreateTemp(r.w.tempDir(), "x")
		if err != nil {
			panic(err)
		}
		f.Close()
		err = pkcs12.SM2P12Encrypt(r.w.cert("leaf"), "pw", kit.Priv(r.w.d(2)), f.Name())
		r.put("%v", err)
		c, k, err := pkcs12.SM2P12Decrypt(f.Name(), "pw")
		r.put("%v %s %s", err, keyLine(k), certLine(c, err))
		r.mine(k, c)
		_, _, err = pkcs12.SM2P12Decrypt(filepath.Join(r.w.tempDir(), "missing"), "pw")
		r.put("missing %v", errWord[err == nil])
	}},
	{name: "Hash", quick: true, run: func(r *opRun) {
		for n := x509.Hash(0); n < 24; n++ {
			r.put("%v %v", n, n.Available())
			if n.Available() {
				h := n.New()
				h.Write(r.in("msg2"))
				r.out("digest", h.Sum(nil), nil)
				r.put("%d %v", n.Size(), n.HashFunc() == crypto.Hash(n))
			}
		}
	}},
	{name: "names", run: func(r *opRun) {
		for i := x509.SignatureAlgorithm(0); i < 24; i++ {
			r.put("%v", i)
		}
		for i := x509.PublicKeyAlgorithm(0); i < 8; i++ {
			r.put("%v", i)
		}
		r.put("%v", x509.InsecureAlgorithmError(x509.MD5WithRSA))
		r.put("%v %v", r.w.key(0).Equal(r.w.key(1)), r.w.key(0).PublicKey.Equal(r.w.key(0).Public()))
		r.put("%v", r.w.key(0).Equal(r.w.key(0)))
	}},
	{name: "garbage", run: func(r *opRun) {
		for i := range parsers {
			if n := parsers[i].name; n == "CheckSignature" || n == "password" || n == "SignDigest" || n == "Verify" {
				continue
			}
			v, err := parsers[i].f(r.in("msg"))
			r.put("%s %v %v", parsers[i].name, v != nil, err)
		}
	}},
	{name: "failing source", run: func(r *opRun) {
		k := r.w.key(0)
		_, err := sm2.GenerateKey(&kit.Script{Data: []byte{1, 2, 3}})
		r.put("generate %v", errWord[err == nil])
		b, err := sm2.Sign(&kit.Script{Data: []byte{1, 2, 3}}, k, r.in("msg"), nil)
		r.put("sign %v %d", errWord[err == nil], len(b))
		b, err = sm2.Encryt(&kit.Script{Data: []byte{1, 2, 3}}, &k.PublicKey, r.in("msg"))
		r.put("encrypt %v %d", errWord[err == nil], len(b))
		b, err = x509.CreateCertificateRequest(&kit.Script{Data: []byte{1, 2, 3}}, csrTemplate(), r.w.xkey(0).s)
		r.put("request %v %d", errWord[err == nil], len(b))
	}},
	{name: "public key", prep: prepRelated(0, 1), run: relatedOp(0, 1)},
	{name: "negated public key", prep: prepRelated(1, 2), run: relatedOp(1, 2)},
	{name: "short public keys", prep: prepRelated(2, 5), run: relatedOp(2, 5)},
	{name: "short public keys 2", prep: prepRelated(5, 7), run: relatedOp(5, 7)},
	{name: "full certificate template", prep: func(w *world) { w.tpl("cert") }, run: func(r *opRun) {
		tpl := r.w.tpl("cert").(*x509.Certificate)
		for _, i := range []int{1, 0} {
			k := r.w.xkey(i)
			r.same("CreateCertificate", func() {
				b, err := x509.CreateCertificate(kit.NewRand("ops-ft"), tpl, tpl, k.pub, k.s)
				r.signedOut("cert", b, err, k)
			}, tpl, k.pub)
		}
	}},
	{name: "full request template", quick: true, prep: func(w *world) { w.tpl("csr") }, run: func(r *opRun) {
		tpl := r.w.tpl("csr").(*x509.CertificateRequest)
		k := r.w.xkey(1)
		r.same("CreateCertificateRequest", func() {
			b, err := x509.CreateCertificateRequest(kit.NewRand("ops-fr"), tpl, k.s)
			r.signedOut("request", b, err, k)
		}, tpl)
	}},
	{name: "full revocation list", prep: func(w *world) { w.tpl("revoked"); w.tpl("cert") }, run: func(r *opRun) {
		l := r.w.tpl("revoked").(*x509.RevocationList)
		ca := r.w.tpl("cert").(*x509.Certificate)
		k := r.w.xkey(1)
		r.same("CreateRevocationList", func() {
			b, err := x509.CreateRevocationList(kit.NewRand("ops-fl"), l, ca, k.s)
			r.signedOut("list", b, err, k)
		}, l, ca)
		r.same("CreateCRL", func() {
			b, err := ca.CreateCRL(kit.NewRand("ops-fc"), k.s, l.RevokedCertificates, l.ThisUpdate, l.NextUpdate)
			r.signedOut("crl", b, err, k)
		}, l, ca)
	}},
	{name: "chain in a key store", prep: func(w *world) { w.certs("leaf"); w.tpl("chain") }, run: func(r *opRun) {
		l := r.w.tpl("chain").(*[]*stdx509.Certificate)
		c, k := r.w.cert("leaf"), r.w.key(2)
		r.same("Encode", func() {
			b, err := pkcs12.Encode(k, c, (*l)[:2], "pw")
			if err != nil {
				r.put("error %v", err)
				return
			}
			if raceQuiet {
				return
			}
			o, err := p12Open(b, ref.BMP("pw"))
			r.must(err == nil && len(o.certs) == 3 && len(o.keys) == 1, "the file does not open: %v", err)
			for _, x := range o.certs {
				r.put("%s", hexShort(x))
			}
		}, l, c, k)
	}},
	{name: "parsed objects", prep: func(w *world) { w.certs("ca"); w.tpl("p7"); w.tpl("request"); w.tpl("crl") }, run: func(r *opRun) {
		p, q, l, c := r.w.tpl("p7").(*x509.PKCS7), r.w.tpl("request").(*x509.CertificateRequest), r.w.tpl("crl").(*pkix.CertificateList), r.w.cert("ca")
		r.same("use of parsed objects", func() {
			r.put("%v %v %v", p.Verify(), q.CheckSignature(), c.CheckCRLSignature(l))
			r.put("%s", certLine(p.GetOnlySigner(), nil))
			var md []byte
			r.put("%v", p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &md))
			r.out("digest", md, nil)
			r.put("%v", l.HasExpired(time.Unix(0, 0)))
		}, p, q, l, c)
	}},
}

func keyLine(k any) string {
	switch k := k.(type) {
	case nil:
		return "nil"
	case *sm2.PrivateKey:
		p := kit.PointOf(&k.PublicKey)
		return fmt.Sprintf("sm2 %x %x %x", k.D, p.X, p.Y)
	case *sm2.PublicKey:
		p := kit.PointOf(k)
		return fmt.Sprintf("sm2 public %x %x", p.X, p.Y)
	}
	if b, err := stdx509.MarshalPKCS8PrivateKey(k); err == nil {
		return hexShort(b)
	}
	b, err := stdx509.MarshalPKIXPublicKey(k)
	return fmt.Sprintf("%T %s %v", k, hexShort(b), err)
}

func (r *opRun) p7(label string, der []byte, err error) {
	if err != nil {
		r.put("%s: error %v", label, err)
		return
	}
	m := p7Parse(der)
	ok := m != nil && len(m.signers) == 1 && bytes.Equal(m.content, fixes().B["content"]) && m.signers[0].ok(kit.Pub(kit.PubPoint(r.w.d(0))), m.content)
	r.must(ok, "%s: the message is wrong: %x", label, der)
	r.put("%s: fine", label)
	r.outs = append(r.outs, der)
}

func (r *opRun) p12(label string, der []byte, err error, pw, cert string) {
	if err != nil {
		r.put("%s: error %v", label, err)
		return
	}
	o, err := p12Open(der, ref.BMP(pw))
	if err != nil || len(o.keys) != 1 || len(o.certs) != 1 || !bytes.Equal(o.certs[0], r.in(cert)) {
		r.must(false, "%s: the file does not open: %v", label, err)
		return
	}
	r.put("%s: %s", label, hexShort(o.keys[0]))
	r.outs = append(r.outs, der)
}
