package props

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	engine.Register(&engine.Prop{ID: "C04", Harnesses: []engine.Harness{
		{Name: "equation", Bound: 2, Deep: 4, Rule: "17 keys x deviations in signing form (8), digest (12 extreme or odd-length values), stream (4): the nonce recovered from the signature is in [1,n-1], not degenerate, and gives exactly that signature; the same stream gives the same signature in every form", Run: c04Equation},
		{Name: "nonces", Rule: "nonces {1,2,n-1,n-2, short-coordinate multiples, byte patterns} x 6 keys x 3 digests under nonce control: exactly the standard's signature", Run: c04Nonces},
		{Name: "degenerate", Rule: "key and digest constructed so that 3 given nonces are degenerate (two with r=0, one with s=0), or two (r+k=n and s=0): every sequence of up to 3 (quick) or 4 (thorough) degenerate draws followed by a good one, x 2 forms", Run: c04Degenerate},
		{Name: "lengths", Rule: "digests of every length 0..140 and 14 longer ones up to 70001 x 3 fillings x 2 forms: the signature satisfies the equation for the whole digest", Run: c04Lengths},
		{Name: "constant", Rule: "constant-byte streams (so that a redraw sees the same bytes): digest chosen so that the drawn nonce is degenerate in each of the three ways; the result is valid or the source's exhaustion is reported, never a degenerate signature", Run: c04Constant},
	}})
}

func c04Digests() [][]byte {
	return [][]byte{
		kit.Stream("digest", 32), make([]byte, 32), kit.Pattern(2, 32), ref.B32(ref.N), ref.B32(kit.NSub(1)), ref.B32(kit.NSub(-1)), ref.B32(kit.B(1)),
		{}, kit.Stream("digest", 20), kit.Stream("digest", 31), kit.Stream("digest", 33), kit.Stream("digest", 64),
	}
}

func c04Equation(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	fi := t.Choose("form", 4)
	ds := c04Digests()
	di := t.Choose("digest", len(ds)+2)
	st := t.Choose("stream", 4)
	t.Begin()
	priv, nk := keyOf(ki)
	pt := kit.PubPoint(nk.D)
	rd := func() io.Reader {
		return []io.Reader{kit.NewRand("c04"), &kit.Const{C: 0}, &kit.Const{C: 0xff}, kit.NewRand("c04b")}[st]
	}
	var msg, uid, digest []byte
	if di >= len(ds) {
		msg, uid = []byte("exactly"), []byte("uid")[:(di-len(ds))*3]
		digest = ref.Digest(pt, uid, msg)
	} else {
		digest = ds[di]
	}
	f := signForms[4+fi]
	_, r, s := doSign(t, f, rd(), priv, digest, nil)
	k := checkSig(t, nk.D, digest, r, s)
	verifyAll(t, "reject-valid", &priv.PublicKey, nil, nil, digest, ref.DERSig(r, s), r, s, true, true)
	if msg != nil {
		_, r2, s2 := doSign(t, signForms[fi], rd(), priv, msg, uid)
		t.Check(r2.Cmp(r) == 0 && s2.Cmp(s) == 0, "forms-differ", "%s and %s differ for the same stream: (%x,%x) and (%x,%x)", signForms[fi].name, f.name, r2, s2, r, s)
	} else {
		_, r2, s2 := doSign(t, signForms[4+(fi+1)%4], rd(), priv, digest, nil)
		t.Check(r2.Cmp(r) == 0 && s2.Cmp(s) == 0, "forms-differ", "%s and %s differ for the same stream", f.name, signForms[4+(fi+1)%4].name)
	}
	t.Outcome("%s key=%s digest#%d k=%s exact", f.name, nk.Name, di, short(k))
}

func c04Nonces(t *engine.T) {
	ks := []*big.Int{kit.B(1), kit.B(2), kit.B(3), kit.NSub(1), kit.NSub(2), kit.NSub(3), kit.B(107), kit.B(327), kit.B(17883), kit.B(193197), kit.B(278982),
		new(big.Int).Lsh(ref.One, 128), new(big.Int).Lsh(ref.One, 255), new(big.Int).Rsh(ref.N, 1)}
	k := ks[t.Pick("k", len(ks))]
	ki := t.Pick("key", 6)
	di := t.Pick("digest", 3)
	t.Begin()
	if !kit.NonceControl() {
		t.Outcome("no nonce control: skipped")
		return
	}
	priv, nk := keyOf([]int{0, 1, 2, 4, 8, 12}[ki])
	digest := c04Digests()[[]int{0, 1, 2}[di]]
	wr, ws, ok := ref.SignK(nk.D, k, digest)
	_, r, s := doSign(t, signForms[6], &kit.Script{Data: kit.NonceBytes(k), Next: kit.NewRand("n")}, priv, digest, nil)
	got := checkSig(t, nk.D, digest, r, s)
	if ok && got.Cmp(k) == 0 {
		t.Check(wr.Cmp(r) == 0 && ws.Cmp(s) == 0, "equation", "k=%x", k)
	}
	t.Outcome("k=%s key=%s used as drawn: %v", short(k), nk.Name, got.Cmp(k) == 0)
}

// inv is x^-1 mod n.
func inv(x *big.Int) *big.Int  { return new(big.Int).ModInverse(x, ref.N) }
func modN(x *big.Int) *big.Int { return x.Mod(x, ref.N) }

func c04Degenerate(t *engine.T) {
	kind := t.Pick("kind", 2)
	fi := t.Pick("form", 2)
	depth := t.Size(3, 4)
	var seq []int
	for len(seq) < depth {
		c := t.Pick("draw", 4)
		if c == 3 {
			break
		}
		seq = append(seq, c)
	}
	t.Begin()
	if !kit.NonceControl() {
		t.Outcome("no nonce control: skipped")
		return
	}
	k1 := kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	k2 := kit.H("6CB28D99385C175C94F94E934817663FC176D925DD72B727260DBAAE1FB2F96F")
	good := kit.H("4C62EEFD6ECFC2B95B92FD6C3D9575148AFA17425546D49018E5388D49DD7B4F")
	x1, x2 := ref.MulG(k1).X, ref.MulG(k2).X
	var e *big.Int
	var bad []*big.Int
	if kind == 0 {
		e = modN(new(big.Int).Neg(x1)) // r = 0 for k1 and -k1
		bad = []*big.Int{k1, new(big.Int).Sub(ref.N, k1), k2}
	} else {
		e = modN(new(big.Int).Neg(new(big.Int).Add(x1, k1))) // r + k1 = n
		bad = []*big.Int{k1, k1, k2}
	}
	r2 := modN(new(big.Int).Add(e, x2))
	d := modN(new(big.Int).Mul(k2, inv(r2))) // s = 0 for k2
	digest := ref.B32(e)
	for _, b := range bad {
		if _, _, ok := ref.SignK(d, b, digest); ok {
			t.Fail("harness", "nonce %x is not degenerate", b)
		}
	}
	var data []byte
	for _, c := range seq {
		data = append(data, kit.NonceBytes(bad[c])...)
	}
	data = append(data, kit.NonceBytes(good)...)
	priv := kit.Priv(d)
	_, r, s := doSign(t, signForms[4+2*fi], &kit.Script{Data: data, Next: kit.NewRand("deg")}, priv, digest, nil)
	k := checkSig(t, d, digest, r, s)
	for _, b := range bad {
		t.Check(k.Cmp(b) != 0, "degenerate", "degenerate nonce %x used", k)
	}
	verifyAll(t, "reject-valid", &priv.PublicKey, nil, nil, digest, nil, r, s, true, true)
	t.Outcome("kind %d draws %v then good: k=%s (the good one: %v)", kind, seq, short(k), k.Cmp(good) == 0)
}

func c04Constant(t *engine.T) {
	c := byte(t.Pick("byte", 16) * 17)
	how := t.Pick("how", 3)
	n := t.Pick("repeats", t.Size(3, 6))
	t.Begin()
	d := kit.Keys[0].D
	if how == 2 {
		d = kit.Keys[9].D
	}
	priv := kit.Priv(d)
	cnt := &kit.Counting{R: &kit.Const{C: c}}
	e0 := kit.Stream("const", 32)
	r, s, err := sm2.SignDigestRS(cnt, priv, e0)
	t.Check(err == nil, "sign-error", "%v", err)
	k := checkSig(t, d, e0, r, s)
	x := ref.MulG(k).X
	var e *big.Int
	switch how {
	case 0:
		e = modN(new(big.Int).Neg(x))
	case 1:
		e = modN(new(big.Int).Neg(new(big.Int).Add(x, k)))
	case 2:
		e = modN(new(big.Int).Sub(new(big.Int).Mul(k, inv(d)), x))
	}
	digest := ref.B32(e)
	if _, _, ok := ref.SignK(d, k, digest); ok {
		t.Fail("harness", "nonce is not degenerate")
	}
	data := make([]byte, cnt.Bytes*n)
	for i := range data {
		data[i] = c
	}
	r, s, err = sm2.SignDigestRS(&kit.Script{Data: data, Next: kit.NewRand(fmt.Sprint("cc", how))}, priv, digest)
	t.Step(1)
	t.Check(err == nil, "sign-error", "with %d degenerate draws first: %v", n, err)
	k2 := checkSig(t, d, digest, r, s)
	// a source that only ever gives the degenerate nonce must end in its error
	endless := make([]byte, cnt.Bytes*12)
	for i := range endless {
		endless[i] = c
	}
	r, s, err = sm2.SignDigestRS(&kit.Script{Data: endless}, priv, digest)
	t.Step(1)
	if err == nil {
		checkSig(t, d, digest, r, s)
	} else {
		t.Check(r == nil && s == nil, "result-with-error", "signature returned with error %v", err)
	}
	t.Outcome("byte %02x way %d x%d -> k=%s; endless: err=%v", c, how, n, short(k2), err)
}

// c04Lengths: a digest of any length is the integer it encodes.
func c04Lengths(t *engine.T) {
	n := t.Pick("length", 155)
	fill := t.Pick("fill", 3)
	form := t.Pick("form", 2)
	t.Begin()
	if n > 140 {
		n = []int{159, 160, 192, 200, 255, 256, 257, 511, 512, 1000, 1024, 4096, 65536, 70001}[n-141]
	}
	d := kit.Keys[4].D
	dg := [][]byte{kit.Pattern(1, n), bytes.Repeat([]byte{0xff}, n), kit.Stream("c04len", n)}[fill]
	var r, s *big.Int
	var err error
	if form == 0 {
		r, s, err = sm2.SignDigestRS(kit.NewRand("c04len"), kit.Priv(d), kit.Clone(dg))
	} else {
		var der []byte
		if der, err = kit.Priv(d).SignDigest(kit.NewRand("c04len"), kit.Clone(dg)); err == nil {
			var ok bool
			r, s, ok = parseSig(der)
			t.Check(ok, "lengths", "digest of %d bytes: signature %x", n, der)
		}
	}
	t.Step(1)
	t.Check(err == nil, "lengths", "digest of %d bytes: %v", n, err)
	k := ref.RecoverK(d, r, s)
	wr, ws, ok := ref.SignK(d, k, dg)
	t.Check(ok && wr.Cmp(r) == 0 && ws.Cmp(s) == 0, "lengths", "digest of %d bytes, fill %d: (%x, %x) is not the standard's signature for its nonce %x", n, fill, r, s, k)
	t.State("%d %d %d", n, fill, form)
	t.Outcome("fill %d form %d", fill, form)
}
