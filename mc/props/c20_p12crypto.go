package props

import (
	"bytes"
	"crypto/cipher"
	"fmt"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
)

func init() {
	engine.Register(&engine.Prop{ID: "C20", Harnesses: []engine.Harness{
		{Name: "rc2", Rule: "key lengths 1..128 x effective key bits (all 1..1024 for chosen lengths) x block patterns: both directions equal RFC 2268, in place and not, and invert each other; other lengths give an error", Run: c20RC2},
		{Name: "rc2bits", Rule: "every single-bit key and block of RC2-40/64/128", Run: c20RC2Bits},
		{Name: "derive", Rule: "passwords of 0..100 characters x salts of 0..130 bytes x 1 or 3 iterations: files with RC2 and 3DES made by the reference open", Run: c20Derive},
		{Name: "big", Rule: "iteration counts up to 2^18 (2^21), salts up to 2^16 (2^20) bytes, passwords up to 2^14 (2^17) characters, around every power of two and ten x both ciphers: files open", Run: c20Big},
		{Name: "carry", Rule: "the 60 first (salt, password) pairs for which key derivation meets a short or carrying intermediate value: files open, x both ciphers", Run: c20Carry},
		{Name: "padding", Rule: "every value of the last byte and of each padding byte, padding of equal bytes of every length 0..255 for keys and certificates, every ciphertext length 0..40: correctly padded ones open, others give an error", Run: c20Padding},
	}})
}

func c20Block(i int) []byte {
	switch i {
	case 0:
		return make([]byte, 8)
	case 1:
		return bytes.Repeat([]byte{0xff}, 8)
	case 2:
		return []byte{1, 0, 0, 0, 0, 0, 0, 1}
	}
	return kit.Stream(fmt.Sprint("rc2 block ", i), 8)
}

func c20Compare(t *engine.T, key []byte, bits int, blocks int) {
	kc := kit.Clone(key)
	c, err := pkcs12.New(kc, bits)
	t.Check(err == nil && c != nil, "new", "New(%d bytes, %d): %v", len(key), bits, err)
	t.Check(c.BlockSize() == 8, "blocksize", "block size %d", c.BlockSize())
	r := ref.NewRC2(key, bits)
	for i := 0; i < blocks; i++ {
		c20One(t, c, r, c20Block(i), fmt.Sprintf("key %x bits %d", key, bits))
	}
	t.Check(bytes.Equal(kc, key), "input", "the key was changed")
}

func c20One(t *engine.T, c cipher.Block, r *ref.RC2, in []byte, what string) {
	want, got := make([]byte, 8), make([]byte, 8)
	r.Encrypt(want, in)
	src := kit.Clone(in)
	c.Encrypt(got, src)
	t.Check(bytes.Equal(got, want), "encrypt", "%s block %x encrypts to %x, standard %x", what, in, got, want)
	t.Check(bytes.Equal(src, in), "input", "%s: source block changed", what)
	c.Decrypt(got, want)
	t.Check(bytes.Equal(got, in), "decrypt", "%s block %x decrypts to %x instead of %x", what, want, got, in)
	c.Encrypt(src, src)
	t.Check(bytes.Equal(src, want), "inplace", "%s: in-place encryption gives %x", what, src)
	c.Decrypt(src, src)
	t.Check(bytes.Equal(src, in), "inplace", "%s: in-place decryption gives %x", what, src)
	t.Step(4)
}

func c20RC2(t *engine.T) {
	n := t.Pick("key length", 130)
	pat := t.Pick("pattern", 4)
	t.Begin()
	key := kit.Pattern([]int{0, 1, 2, 3}[pat], n)
	if n == 0 || n > 128 {
		for _, b := range []int{0, 1, 8, 40, 64, 128, 1024} {
			c, err := pkcs12.New(key, b)
			t.Check(err != nil && c == nil, "badkey", "a key of %d bytes accepted", n)
			t.Step(1)
		}
		t.State("bad %d", n)
		return
	}
	full := n == 5 || n == 8 || n == 16 || n == 128 || n == 1 || t.Thorough()
	for bits := 1; bits <= 1024; bits++ {
		if full || bits <= 8 || bits%8 < 2 && bits < 200 || bits == n*8 || bits == n*8-1 || bits == n*8+1 || bits == 1024 || bits == 1023 {
			c20Compare(t, key, bits, 3)
		}
	}
	for _, b := range []int{-1, 1025, 1 << 20} {
		c, err := pkcs12.New(key, b)
		t.Check(err != nil && c == nil, "badbits", "%d effective bits accepted", b)
	}
	t.State("%d %d", n, pat)
}

func c20RC2Bits(t *engine.T) {
	n := []int{5, 8, 16}[t.Pick("key length", 3)]
	i := t.Pick("bit", 129)
	t.Begin()
	key := make([]byte, n)
	if i > 0 {
		if (i-1)/8 >= n {
			return
		}
		key[(i-1)/8] = 0x80 >> ((i - 1) % 8)
	}
	c, err := pkcs12.New(key, n*8)
	t.Check(err == nil, "new", "%v", err)
	r := ref.NewRC2(key, n*8)
	for b := 0; b <= 64; b++ {
		in := make([]byte, 8)
		if b > 0 {
			in[(b-1)/8] = 0x80 >> ((b - 1) % 8)
		}
		c20One(t, c, r, in, fmt.Sprintf("key %x", key))
	}
	t.State("%d %d", n, i)
}

// c20Opens checks that a reference-made file opens, and with what.
func c20Opens(t *engine.T, o p12Opt, pw string, what string) {
	k := xkeyOf(1)
	leaf := p12Leaf(t, 1, 1)
	key, certs, err := pkcs12.DecodeAll(p12Build(o, [][]byte{p12CertBag(leaf.Raw)}, [][]byte{p12KeyBag(o, p8Of(k))}), pw)
	t.Check(err == nil && privEqual(key, k.s) && len(certs) == 1 && bytes.Equal(certs[0].Raw, leaf.Raw), "open", "%s: %v", what, err)
	t.Step(1)
}

func c20Derive(t *engine.T) {
	n := t.Pick("password length", 101)
	alg := t.Pick("ciphers", 2)
	t.Begin()
	pw := ""
	for i := 0; i < n; i++ {
		pw += string(rune('a' + (i*7+i/26)%26))
	}
	for s := 0; s <= 130; s++ {
		if !t.Thorough() && (s+n)%3 != 0 && s != 8 && s != 64 && s != 65 && s != 0 {
			continue
		}
		o := p12Std(pw)
		o.salt, o.macSalt = kit.Stream(fmt.Sprint("s", n), s), kit.Stream(fmt.Sprint("m", n), (s+n)%70)
		o.iter, o.macIter = 1+2*(s%2), 1+2*(n%2)
		if alg == 1 {
			o.certOID, o.keyOID = ref.OIDPBE3DES, ref.OIDPBERC240
		}
		c20Opens(t, o, pw, fmt.Sprintf("password of %d characters, salt of %d bytes, ciphers %d", n, s, alg))
		t.State("%d %d %d", n, s, alg)
	}
}

// c20Short lists (salt, password) pairs with special intermediate values.
func c20Short(i int) (salt []byte, pw string) {
	found := 0
	for c := 0; ; c++ {
		salt = kit.Stream(fmt.Sprint("carry", c), []int{8, 8, 64, 65, 20}[c%5])
		pw = []string{"a", "password", "密码12", "0123456789012345678901234567890123456789"}[c%4]
		if c%3 == 2 { // all ones: the addition carries out of the top
			for j := range salt {
				salt[j] |= 0xff << (j % 2)
			}
		}
		if ref.ShortCarry(1, salt, ref.BMP(pw), 1, 24) {
			if found == i {
				return
			}
			found++
		}
	}
}

func c20Carry(t *engine.T) {
	i := t.Pick("pair", t.Size(60, 400))
	alg := t.Pick("ciphers", 2)
	t.Begin()
	salt, pw := c20Short(i)
	o := p12Std(pw)
	o.salt, o.macSalt, o.iter, o.macIter = salt, salt, 1, 1
	if alg == 1 {
		o.certOID, o.keyOID = ref.OIDPBE3DES, ref.OIDPBERC240
	}
	c20Opens(t, o, pw, fmt.Sprintf("salt %x password %q", salt, pw))
	t.State("%d %d", i, alg)
}

// padFill is a PKCS #8 structure made longer by n bytes of attributes.
func padFill(p8 []byte, n int) []byte {
	body := ref.Parse(p8, 0)[0]
	return ref.Seq(body.Body, ref.Ctx(0, ref.Seq(ref.OID(1, 2, 3), ref.Set(ref.Oct(make([]byte, n))))))
}

func c20Padding(t *engine.T) {
	alg := t.Pick("cipher", 2)
	mode := t.Pick("mode", 5)
	v := t.Pick("value", 256)
	t.Begin()
	o := p12Std("pw")
	o.keyOID = [][]byte{ref.OIDPBE3DES, ref.OIDPBERC240}[alg]
	k := xkeyOf(1)
	leaf := p12Leaf(t, 1, 1)
	// raw encrypts whole blocks without adding padding
	raw := func(b []byte) []byte {
		ct, err := ref.PBE(o.keyOID, b, o.salt, o.pw, o.iter, false)
		if err != nil {
			panic(err)
		}
		return ct[:len(ct)-8]
	}
	p8 := p8Of(k)
	padded := func(p8 []byte) []byte {
		n := 8 - len(p8)%8
		return append(kit.Clone(p8), bytes.Repeat([]byte{byte(n)}, n)...)
	}
	want := false
	switch mode {
	case 0: // the last byte is v, the rest as padding of the right length needs
		b := padded(p8)
		want = b[len(b)-1] == byte(v)
		b[len(b)-1] = byte(v)
		o.keyPad = func([]byte) []byte { return raw(b) }
	case 1: // lengths of the ciphertext
		if v > 40 {
			return
		}
		ct := raw(append(padded(p8), make([]byte, 64)...))
		o.keyPad = func([]byte) []byte { return ct[:v] }
	case 2: // one byte of the padding changed; keys with extra bytes so that the padding has every length
		padLen, pos := v%8+1, v/8%8
		if v >= 64 || pos >= padLen {
			return
		}
		// PKCS #8 attributes make the plaintext longer
		var b []byte
		for extra := 0; ; extra++ {
			body := ref.Parse(p8, 0)[0]
			b = ref.Seq(body.Body, ref.Ctx(0, ref.Seq(ref.OID(1, 2, 3), ref.Set(ref.Oct(make([]byte, extra))))))
			if 8-len(b)%8 == padLen {
				break
			}
		}
		b = padded(b)
		good := kit.Clone(b)
		g := o
		g.keyPad = func([]byte) []byte { return raw(good) }
		c20Opens(t, g, "pw", fmt.Sprintf("padding of %d bytes", padLen))
		if pos > 0 { // position 0 is the last byte, covered above
			b[len(b)-1-pos] ^= 1
			o.keyPad = func([]byte) []byte { return raw(b) }
		} else {
			want = true
			o.keyPad = g.keyPad
		}
	case 3: // v bytes of padding of value v
		fit := 0
		for (len(padFill(p8, fit))+v)%8 != 0 {
			fit++
		}
		b := append(padFill(p8, fit), bytes.Repeat([]byte{byte(v)}, v)...)
		want = v >= 1 && v <= 8
		o.keyPad = func([]byte) []byte { return raw(b) }
	case 4: // the same for the certificates
		o.certOID = o.keyOID
		o.certPad = func([]byte) []byte {
			fit := 0
			body := func() []byte { // an attribute of varying length
				return ref.Seq(p12CertBag(leaf.Raw, p12Attr(ref.OIDLocalKey, ref.Oct(make([]byte, fit)))))
			}
			for (len(body())+v)%8 != 0 {
				fit++
			}
			return raw(append(body(), bytes.Repeat([]byte{byte(v)}, v)...))
		}
		want = v >= 1 && v <= 8
	}
	key, certs, err := pkcs12.DecodeAll(p12Build(o, [][]byte{p12CertBag(leaf.Raw)}, [][]byte{p12KeyBag(o, p8)}), "pw")
	t.Step(1)
	if want {
		t.Check(err == nil && privEqual(key, k.s), "padding", "right padding rejected: %v", err)
	} else {
		t.Check(err != nil && key == nil && certs == nil, "padding-accepted", "cipher %d mode %d value %d: wrong padding or length accepted", alg, mode, v)
	}
	t.State("%d %d %d", alg, mode, v)
}
