package props

import (
	"fmt"
	"io"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

// The eight ways to sign. Message forms take (msg, uid); digest forms take
// the digest the standard prescribes for them.
type signForm struct {
	name   string
	digest bool
	der    bool
	call   func(r io.Reader, k *sm2.PrivateKey, msg, uid []byte) (der []byte, rr, ss *big.Int, err error)
}

var signForms = []signForm{
	{"Sign", false, true, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		d, e := sm2.Sign(r, k, m, u)
		return d, nil, nil, e
	}},
	{"PrivateKey.Sign", false, true, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		d, e := k.Sign(r, m, u)
		return d, nil, nil, e
	}},
	{"SignRS", false, false, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		a, b, e := sm2.SignRS(r, k, m, u)
		return nil, a, b, e
	}},
	{"PrivateKey.SignRS", false, false, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		a, b, e := k.SignRS(r, m, u)
		return nil, a, b, e
	}},
	{"SignDigest", true, true, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		d, e := sm2.SignDigest(r, k, m)
		return d, nil, nil, e
	}},
	{"PrivateKey.SignDigest", true, true, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		d, e := k.SignDigest(r, m)
		return d, nil, nil, e
	}},
	{"SignDigestRS", true, false, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		a, b, e := sm2.SignDigestRS(r, k, m)
		return nil, a, b, e
	}},
	{"PrivateKey.SignDigestRS", true, false, func(r io.Reader, k *sm2.PrivateKey, m, u []byte) ([]byte, *big.Int, *big.Int, error) {
		a, b, e := k.SignDigestRS(r, m)
		return nil, a, b, e
	}},
}

// The eight ways to verify.
type verifyForm struct {
	name   string
	digest bool
	der    bool
	call   func(p *sm2.PublicKey, msg, uid, der []byte, r, s *big.Int) bool
}

var verifyForms = []verifyForm{
	{"Verify", false, true, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return sm2.Verify(p, m, u, d) }},
	{"PublicKey.Verify", false, true, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return p.Verify(m, u, d) }},
	{"VerifyRS", false, false, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return sm2.VerifyRS(p, m, u, r, s) }},
	{"PublicKey.VerifyRS", false, false, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return p.VerifyRS(m, u, r, s) }},
	{"VerifyDigest", true, true, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return sm2.VerifyDigest(p, m, d) }},
	{"PublicKey.VerifyDigest", true, true, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return p.VerifyDigest(m, d) }},
	{"VerifyDigestRS", true, false, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return sm2.VerifyDigestRS(p, m, r, s) }},
	{"PublicKey.VerifyDigestRS", true, false, func(p *sm2.PublicKey, m, u, d []byte, r, s *big.Int) bool { return p.VerifyDigestRS(m, r, s) }},
}

// verifyAll checks that all forms give want for the message, its digest and
// the signature. Nil der or r skips those forms. keys selects the forms.
func verifyAll(t *engine.T, key string, p *sm2.PublicKey, msg, uid, digest, der []byte, r, s *big.Int, want bool, digestOnly bool) {
	for _, f := range verifyForms {
		if f.der && der == nil || !f.der && r == nil {
			continue
		}
		if digestOnly && !f.digest {
			continue
		}
		m := msg
		if f.digest {
			if digest == nil {
				continue
			}
			m = digest
		}
		var rr, ss *big.Int
		if r != nil {
			rr, ss = new(big.Int).Set(r), new(big.Int).Set(s)
		}
		got := f.call(p, m, uid, der, rr, ss)
		t.Step(1)
		t.Check(got == want, key, "%s = %v, reference %v; Q=(%x,%x) msg=%x uid=%.40x digest=%x r=%x s=%x der=%x", f.name, got, want, p.X, p.Y, m, uid, digest, r, s, der)
		if r != nil && (rr.Cmp(r) != 0 || ss.Cmp(s) != 0) {
			t.Fail("input-modified", "%s changed r or s", f.name)
		}
	}
}

// parseSig is the strict reference parser of SEQUENCE{INTEGER,INTEGER}.
func parseSig(der []byte) (r, s *big.Int, ok bool) {
	if len(der) < 2 || der[0] != 0x30 {
		return
	}
	rd := func(b []byte) (body, rest []byte, ok bool) {
		if len(b) < 2 {
			return nil, nil, false
		}
		n := int(b[1])
		b = b[2:]
		if n >= 0x80 {
			k := n & 0x7f
			if k == 0 || k > 3 || len(b) < k || b[0] == 0 {
				return nil, nil, false
			}
			n = 0
			for i := 0; i < k; i++ {
				n = n<<8 | int(b[i])
			}
			if n < 0x80 {
				return nil, nil, false
			}
			b = b[k:]
		}
		if len(b) < n {
			return nil, nil, false
		}
		return b[:n], b[n:], true
	}
	in, rest, ok1 := rd(der)
	if !ok1 || len(rest) != 0 {
		return nil, nil, false
	}
	num := func(b []byte) (*big.Int, []byte, bool) {
		if len(b) == 0 || b[0] != 2 {
			return nil, nil, false
		}
		v, rest, ok := rd(b)
		if !ok || len(v) == 0 {
			return nil, nil, false
		}
		if len(v) > 1 && (v[0] == 0 && v[1] < 0x80 || v[0] == 0xff && v[1] >= 0x80) {
			return nil, nil, false
		}
		x := new(big.Int).SetBytes(v)
		if v[0] >= 0x80 {
			x.Sub(x, new(big.Int).Lsh(ref.One, uint(8*len(v))))
		}
		return x, rest, true
	}
	r, in, ok = num(in)
	if !ok {
		return nil, nil, false
	}
	s, in, ok = num(in)
	if !ok || len(in) != 0 {
		return nil, nil, false
	}
	return r, s, true
}

// doSign runs a form and returns the signature as r, s, DER, all checked to
// agree with each other.
func doSign(t *engine.T, f signForm, rd io.Reader, k *sm2.PrivateKey, m, uid []byte) (der []byte, r, s *big.Int) {
	der, r, s, err := f.call(rd, k, m, uid)
	t.Step(1)
	t.Check(err == nil, "sign-error", "%s: %v", f.name, err)
	if f.der {
		var ok bool
		r, s, ok = parseSig(der)
		t.Check(ok, "sign-der", "%s returned %x, not DER of two integers", f.name, der)
	} else {
		t.Check(r != nil && s != nil, "sign-nil", "%s returned nil without an error", f.name)
		var err error
		der, err = sm2.MarshalSign(r, s)
		t.Check(err == nil, "marshal", "MarshalSign(%x,%x): %v", r, s, err)
	}
	t.Check(string(der) == string(ref.DERSig(r, s)), "sign-der", "%s: encoding %x of (%x,%x) is not the DER %x", f.name, der, r, s, ref.DERSig(r, s))
	r2, s2, err := sm2.UnmarshalSign(der)
	t.Check(err == nil && r2.Cmp(r) == 0 && s2.Cmp(s) == 0, "unmarshal", "UnmarshalSign(%x) = %x, %x, %v", der, r2, s2, err)
	return der, r, s
}

// checkSig checks a signature against the standard's equations, recovering
// the nonce with the private scalar.
func checkSig(t *engine.T, d *big.Int, digest []byte, r, s *big.Int) *big.Int {
	t.Check(r.Sign() > 0 && r.Cmp(ref.N) < 0 && s.Sign() > 0 && s.Cmp(ref.N) < 0, "range", "r=%x s=%x out of [1,n-1]", r, s)
	k := ref.RecoverK(d, r, s)
	t.Check(k.Sign() != 0, "nonce-zero", "nonce 0: r=%x s=%x", r, s)
	wr, ws, ok := ref.SignK(d, k, digest)
	t.Check(ok, "degenerate", "degenerate nonce %x used: r=%x s=%x", k, r, s)
	t.Check(wr.Cmp(r) == 0 && ws.Cmp(s) == 0, "equation", "d=%x e=%x: signature (%x,%x) is not the standard's for its nonce %x: (%x,%x)", d, digest, r, s, k, wr, ws)
	return k
}

var sm2Msgs = [][]byte{
	[]byte("message digest"), {}, {0}, kit.Pattern(0, 31), kit.Pattern(0, 32), kit.Pattern(2, 64), kit.Pattern(0, 119), kit.Pattern(3, 1000),
}

var sm2UIDs = [][]byte{
	nil, []byte("1234567812345678"), {0}, []byte("ALICE123@YAHOO.COM"), kit.Pattern(0, 32), kit.Pattern(3, 8191), {}, kit.Pattern(2, 256),
}

func keyOf(i int) (*sm2.PrivateKey, kit.NamedKey) {
	k := kit.Keys[i]
	return kit.Priv(k.D), k
}

func short(x *big.Int) string {
	s := fmt.Sprintf("%x", x)
	if len(s) > 12 {
		return s[:12] + ".."
	}
	return s
}
