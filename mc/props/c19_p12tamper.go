package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
)

func init() {
	engine.Register(&engine.Prop{ID: "C19", Harnesses: []engine.Harness{
		{Name: "passwords", Rule: "all ordered pairs of 53 passwords (case, prefix, extension, transposition, length, NUL characters), files derived from the BMP form or from no bytes at all: every function rejects the wrong one as ErrIncorrectPassword and returns nothing", Run: c19Passwords},
		{Name: "long", Rule: "passwords that agree in their first 1..4096 (70000) characters, at all lengths around powers of two and ten, and other relatives of them: only the right one opens the file", Run: c19Long},
		{Name: "flips", Rule: "every single-bit change of 3 files: an error, or exactly the unchanged key and certificates", Run: c19Flips},
		{Name: "bytes", Rule: "every truncation, removed byte, inserted byte and trailing bytes of 3 files: an error, or the unchanged contents", Run: c19Bytes},
		{Name: "mac", Rule: "no MAC, MAC over something else, other MAC salt, iterations, digest (truncated, empty, extended), other password's MAC with right encryption: rejected", Run: c19Mac},
		{Name: "forge", Rule: "contents exchanged by someone without the password x MAC data: 9 algorithms x 14 digests x 5 salts x 16 iteration counts, fields left out or repeated, 5 content types, 7 versions: rejected by every function", Run: c19Forge},
	}})
}

func c19Pws() []string {
	return []string{"", "a", "A", "b", "aa", "aaa", "password", "Password", "passwor", "password1", "password ", " password", "pbssword", "passwrod", "drowssap", "密码", "密", "码密", "密码密码",
		"\u0100", "\u0001", "\u0101", "é", "e", "E", "\uffff", "\u00ff", "12345678901234567890123456789012", "1234567890123456789012345678901", "123456789012345678901234567890",
		"12345678901234567890123456789013", "123456789012345678901234567890123", "02345678901234567890123456789012", "abab", "ab", "ababab", "ba", "0", "00", "000", "-1", "\t", "\n", "\r\n",
		"\x00", "\x00\x00", "\x00a", "\x00abc", "a\x00", "a\x00b", "a\x00a", "a\x00b\x00", "\x00password"}
}

func c19Passwords(t *engine.T) {
	pws := c19Pws()
	i := t.Pick("password", len(pws))
	mode := t.Pick("file", 4) // by the code, by the reference, derived from no bytes, the same without iteration count
	t.Begin()
	k := xkeyOf(1)
	leaf := p12Leaf(t, 1, 1)
	if mode >= 2 && i > 0 {
		return
	}
	var der []byte
	own := ref.BMP(pws[i])
	if mode == 0 {
		var err error
		withRand(kit.NewRand(fmt.Sprint("c19", i)), func() { der, err = pkcs12.Encode(p12Priv(k), leaf, nil, pws[i]) })
		t.Check(err == nil, "encode", "%v", err)
	} else {
		o := p12Std(pws[i])
		o.iter, o.macIter = 1, 1
		o.certOID = nil
		if mode >= 2 { // some software derives from no bytes for the empty password
			own = nil
			o.pw = nil
			if mode == 3 {
				o.noIter = true
			}
		}
		der = p12Build(o, [][]byte{p12CertBag(leaf.Raw)}, [][]byte{p12KeyBag(o, p8Of(k))})
	}
	for j, pw := range pws {
		key, certs, err := pkcs12.DecodeAll(der, pw)
		key2, cert, err2 := pkcs12.Decode(der, pw)
		bl, err3 := pkcs12.ToPEM(der, pw)
		t.Step(3)
		// the key derivation repeats the password up to the block size, so
		// that some passwords are the same to it
		if bytes.Equal(ref.MAC12(nil, nil, ref.BMP(pw), 1), ref.MAC12(nil, nil, own, 1)) && i != j {
			t.State("same key %d %d %d", i, j, mode)
			continue
		}
		if i == j {
			t.Check(err == nil && err2 == nil && err3 == nil, "right", "right password %q: %v, %v, %v", pw, err, err2, err3)
			continue
		}
		t.Check(err != nil && err2 != nil && err3 != nil, "wrong-accepted", "file with password %q opens with %q: %v, %v, %v", pws[i], pw, err, err2, err3)
		t.Check(key == nil && certs == nil && key2 == nil && cert == nil && bl == nil, "wrong-output", "password %q instead of %q gives output", pw, pws[i])
		t.Check(errors.Is(err, pkcs12.ErrIncorrectPassword) && errors.Is(err2, pkcs12.ErrIncorrectPassword) && errors.Is(err3, pkcs12.ErrIncorrectPassword), "wrong-error", "password %q instead of %q: %v, %v, %v", pw, pws[i], err, err2, err3)
		t.State("%d %d %d", i, j, mode)
	}
	for j, pw := range []string{"\U0001F600", pws[i] + "\U00010000", "\U0010FFFF" + pws[i], "\U0001F600\x00"} { // no BMP form
		key, certs, err := pkcs12.DecodeAll(der, pw)
		key2, cert, err2 := pkcs12.Decode(der, pw)
		bl, err3 := pkcs12.ToPEM(der, pw)
		t.Step(3)
		t.Check(err != nil && err2 != nil && err3 != nil, "wrong-accepted", "file with password %q (mode %d) opens with %q: %v, %v, %v", pws[i], mode, pw, err, err2, err3)
		t.Check(key == nil && certs == nil && key2 == nil && cert == nil && bl == nil, "wrong-output", "password %q instead of %q gives output", pw, pws[i])
		t.State("%d unencodable %d %d", i, j, mode)
	}
}

func c19File(t *engine.T, i int) (der []byte, k xkey, certs [][]byte) {
	o := p12Std("pw")
	switch i {
	case 0: // SM2, like Encode's files
		k = xkeyOf(0)
		certs = [][]byte{p12Leaf(t, 0, 1).Raw}
	case 1: // P-256, everything 3DES
		k = xkeyOf(1)
		certs = [][]byte{p12Leaf(t, 1, 1).Raw}
		o.certOID = ref.OIDPBE3DES
	case 2: // certificates in clear, key RC2, MAC iterations left out
		k = xkeyOf(1)
		certs = [][]byte{p12Leaf(t, 1, 1).Raw, p12Leaf(t, 2, 3).Raw}
		o.certOID, o.keyOID, o.noIter, o.macIter = nil, ref.OIDPBERC240, true, 1
	}
	id := p12Attr(ref.OIDLocalKey, ref.Oct([]byte{1, 2, 3}))
	var cb [][]byte
	for _, c := range certs {
		cb = append(cb, p12CertBag(c, id))
	}
	return p12Build(o, cb, [][]byte{p12KeyBag(o, p8Of(k), id)}), k, certs
}

// c19Judge decodes changed bytes.
func c19Judge(t *engine.T, what string, der []byte, k xkey, want [][]byte) string {
	key, certs, err := pkcs12.DecodeAll(der, "pw")
	res := "error"
	if err != nil {
		t.Check(key == nil && certs == nil, "partial", "%s: DecodeAll returns a result with the error %v", what, err)
	} else {
		res = "same"
		t.Check(privEqual(key, p12Priv(k)) && len(certs) == len(want), "tampered", "%s: DecodeAll returns another key or %d certificates", what, len(certs))
		for i := range want {
			t.Check(bytes.Equal(certs[i].Raw, want[i]), "tampered", "%s: certificate %d differs", what, i)
		}
	}
	key, cert, err := pkcs12.Decode(der, "pw")
	if err == nil {
		t.Check(privEqual(key, p12Priv(k)) && len(want) == 1 && bytes.Equal(cert.Raw, want[0]), "tampered", "%s: Decode returns something else", what)
	} else {
		t.Check(key == nil && cert == nil, "partial", "%s: Decode returns a result with the error %v", what, err)
	}
	bl, err := pkcs12.ToPEM(der, "pw")
	if err == nil {
		t.Check(len(bl) == len(want)+1, "tampered", "%s: ToPEM returns %d blocks", what, len(bl))
		for i, w := range want {
			t.Check(bytes.Equal(bl[i].Bytes, w) && bl[i].Type == "CERTIFICATE" && bl[i].Headers["localKeyId"] == "010203", "tampered", "%s: ToPEM block %d differs", what, i)
		}
		t.Check(bl[len(want)].Type == "PRIVATE KEY", "tampered", "%s: ToPEM key block", what)
		c18PEMBlock(t, bl[len(want)], nil, &k, []byte{1, 2, 3})
	}
	t.Step(3)
	return res
}

// iterBomb reports whether the changed file asks for so many key derivation
// rounds that running it would only burn time.
func iterBomb(der []byte) bool {
	n := ref.Parse(der, 0)
	if len(n) != 1 || len(n[0].Children) < 3 {
		return false
	}
	it := n[0].Children[2].At(2)
	if it == nil || it.Tag != 2 {
		return false
	}
	v := 0
	for _, b := range it.Body {
		if v > 1<<16 {
			return true
		}
		v = v<<8 | int(b)
	}
	return v > 1<<16
}

func c19Flips(t *engine.T) {
	f := t.Pick("file", 3)
	blk := t.Pick("block", 64)
	t.Begin()
	der, k, certs := c19File(t, f)
	t.Check(c19Judge(t, "unchanged file", der, k, certs) == "same", "base", "the unchanged file is rejected")
	n := map[string]int{}
	for i := blk * len(der) / 64; i < (blk+1)*len(der)/64; i++ {
		for b := 0; b < 8; b++ {
			d := kit.Clone(der)
			d[i] ^= 1 << b
			if iterBomb(d) {
				n["skipped"]++
				continue
			}
			r := c19Judge(t, fmt.Sprintf("file %d byte %d bit %d", f, i, b), d, k, certs)
			n[r]++
			t.State("%d %d %d %s", f, i, b, r)
		}
	}
	t.Outcome("file %d block %d: %v", f, blk, n)
}

func c19Bytes(t *engine.T) {
	f := t.Pick("file", 3)
	blk := t.Pick("block", 32)
	t.Begin()
	der, k, certs := c19File(t, f)
	for i := blk * len(der) / 32; i < (blk+1)*len(der)/32; i++ {
		r := c19Judge(t, fmt.Sprintf("file %d cut to %d bytes", f, i), der[:i:i], k, certs)
		t.Check(r == "error", "truncated", "file %d cut to %d bytes accepted", f, i)
		for _, d := range [][]byte{append(kit.Clone(der[:i]), der[i+1:]...), append(append(kit.Clone(der[:i]), 0), der[i:]...)} {
			if !iterBomb(d) {
				c19Judge(t, fmt.Sprintf("file %d with a byte less or more at %d", f, i), d, k, certs)
			}
		}
		t.State("%d %d", f, i)
	}
	if blk == 0 {
		for _, tail := range [][]byte{{0}, {5, 0}, der} {
			r := c19Judge(t, fmt.Sprintf("file %d with trailing bytes", f), append(kit.Clone(der), tail...), k, certs)
			t.Check(r == "error", "trailing", "file %d with trailing %x accepted", f, tail)
		}
	}
}

func c19Mac(t *engine.T) {
	c := t.Pick("case", 40)
	t.Begin()
	k := xkeyOf(1)
	leaf := p12Leaf(t, 1, 1)
	o := p12Std("pw")
	cb, kb := [][]byte{p12CertBag(leaf.Raw)}, [][]byte{p12KeyBag(o, p8Of(k))}
	der := p12Build(o, cb, kb)
	n := ref.Parse(der, 0)[0]
	auth := n.At(1, 1, 0).Body
	rebuild := func(alg, digest, salt []byte, iter ...[]byte) []byte {
		m := append([][]byte{ref.Seq(ref.Seq(alg, ref.Null()), ref.Oct(digest)), ref.Oct(salt)}, iter...)
		return ref.Seq(n.Children[0].Raw, n.Children[1].Raw, ref.Seq(m...))
	}
	mac := ref.MAC12(auth, o.macSalt, o.pw, 2)
	two := ref.Int(2)
	var bad []byte
	switch {
	case c == 0:
		o.noMAC = true
		bad = p12Build(o, cb, kb)
	case c == 1:
		bad = rebuild(ref.OIDSHA1, ref.MAC12(append(kit.Clone(auth), 0), o.macSalt, o.pw, 2), o.macSalt, two)
	case c == 2:
		bad = rebuild(ref.OIDSHA1, mac, []byte("macsalt?"), two)
	case c == 3:
		bad = rebuild(ref.OIDSHA1, mac, o.macSalt, ref.Int(3))
	case c == 4:
		bad = rebuild(ref.OIDSHA1, mac, o.macSalt)
	case c == 5:
		bad = rebuild(ref.OIDSHA1, nil, o.macSalt, two)
	case c == 6:
		bad = rebuild(ref.OIDSHA1, append(kit.Clone(mac), 0), o.macSalt, two)
	case c == 7: // MAC made with another password over a file encrypted with the right one
		bad = rebuild(ref.OIDSHA1, ref.MAC12(auth, o.macSalt, ref.BMP("pw2"), 2), o.macSalt, two)
	case c == 8: // MAC made with no password
		bad = rebuild(ref.OIDSHA1, ref.MAC12(auth, o.macSalt, nil, 2), o.macSalt, two)
	case c == 9:
		bad = rebuild(ref.OIDSHA1, ref.MAC12(auth, o.macSalt, ref.BMP(""), 2), o.macSalt, two)
	case c == 10: // encryption key instead of MAC key
		bad = rebuild(ref.OIDSHA1, ref.KDF12(3, o.macSalt, o.pw, 2, 20), o.macSalt, two)
	case c == 11:
		bad = rebuild(ref.OIDSHA1, make([]byte, 20), o.macSalt, two)
	case c == 12: // another digest algorithm with a SHA-1 value
		bad = rebuild(ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), mac, o.macSalt, two)
	case c == 13: // no digest algorithm
		bad = rebuild(ref.OID(1, 2, 3), mac, o.macSalt, two)
	case c == 14: // right MAC, encryption with another password
		p := p12Std("other")
		enc := p12Build(p, cb, [][]byte{p12KeyBag(p, p8Of(k))})
		a := ref.Parse(enc, 0)[0].At(1, 1, 0).Body
		bad = ref.Seq(ref.Int(3), ref.Seq(ref.OIDData, ref.Ctx(0, ref.Oct(a))), ref.Seq(ref.Seq(ref.Seq(ref.OIDSHA1, ref.Null()), ref.Oct(ref.MAC12(a, o.macSalt, o.pw, 2))), ref.Oct(o.macSalt), two))
	case c == 15: // other versions
		bad = ref.Seq(ref.Int(2), n.Children[1].Raw, n.Children[2].Raw)
	case c == 16: // the MAC of the whole content info instead of the content
		bad = rebuild(ref.OIDSHA1, ref.MAC12(n.Children[1].Raw, o.macSalt, o.pw, 2), o.macSalt, two)
	case c < 37: // truncated digest
		bad = rebuild(ref.OIDSHA1, mac[:c-17], o.macSalt, two)
	default:
		return
	}
	for fn := 0; fn < 3; fn++ {
		var err error
		var out any
		switch fn {
		case 0:
			_, _, err = pkcs12.DecodeAll(bad, "pw")
		case 1:
			out, _, err = pkcs12.Decode(bad, "pw")
		case 2:
			_, err = pkcs12.ToPEM(bad, "pw")
		}
		t.Check(err != nil && out == nil, "accepted", "case %d accepted by function %d", c, fn)
		t.Step(1)
	}
	dir, err := os.MkdirTemp("", "c19")
	t.Check(err == nil, "setup", "%v", err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "f.p12")
	t.Check(os.WriteFile(fn, bad, 0600) == nil, "setup", "cannot write")
	cert, key, err := pkcs12.SM2P12Decrypt(fn, "pw")
	t.Check(err != nil && cert == nil && key == nil, "accepted", "case %d accepted by SM2P12Decrypt", c)
	t.State("case %d", c)
}

// c19Forge changes the contents without the password and tries all MAC data.
func c19Forge(t *engine.T) {
	alg := t.Pick("algorithm", 10)
	di := t.Pick("digest", 14)
	t.Begin()
	if alg == 9 && di > 6 {
		return
	}
	k, other := xkeyOf(1), xkeyOf(0)
	leaf := p12Leaf(t, 1, 1)
	o := p12Std("pw")
	o.certOID = nil
	der := p12Build(o, [][]byte{p12CertBag(leaf.Raw)}, [][]byte{p12KeyBag(o, p8Of(k))})
	n := ref.Parse(der, 0)[0]
	auth := n.At(1, 1, 0).Body
	// the certificate of another key, in front of the encrypted key
	forged := p12Build(o, [][]byte{p12CertBag(p12Leaf(t, 0, 1).Raw)}, [][]byte{p12KeyBag(o, p8Of(k))})
	fauth := ref.Parse(forged, 0)[0].At(1, 1, 0).Body
	// and a key of the forger's own, encrypted with no password
	w := o
	w.pw = nil
	wforged := p12Build(w, [][]byte{p12CertBag(p12Leaf(t, 0, 1).Raw)}, [][]byte{p12KeyBag(w, p8Of(other))})
	wauth := ref.Parse(wforged, 0)[0].At(1, 1, 0).Body
	calls := 0
	try := func(what string, bad []byte) {
		for fn := 0; fn < 3; fn++ {
			var err error
			var out any
			var n int
			switch fn {
			case 0:
				k, c, e := pkcs12.DecodeAll(bad, "pw")
				out, n, err = k, len(c), e
			case 1:
				out, _, err = pkcs12.Decode(bad, "pw")
			case 2:
				b, e := pkcs12.ToPEM(bad, "pw")
				n, err = len(b), e
			}
			t.Step(1)
			calls++
			t.Check(err != nil && out == nil && n == 0, "forged", "%s: function %d: %d items and error %v: %x", what, fn, n, err, bad)
		}
	}
	content := func(ct, auth []byte) []byte { return ref.Seq(ct, ref.Ctx(0, ref.Oct(auth))) }
	for ai, a := range [][]byte{fauth, wauth} {
		algs := [][]byte{ref.Seq(ref.OIDSHA1, ref.Null()), ref.Seq(ref.OIDSHA1), ref.Seq(ref.OIDSHA1, ref.Int(0)), ref.Seq(ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), ref.Null()), ref.Seq(ref.OID(1, 2, 840, 113549, 2, 5), ref.Null()),
			ref.Seq(ref.OID(1, 2, 156, 10197, 1, 401)), ref.Seq(ref.OID(0, 0)), ref.Seq(ref.OID(1, 3, 14, 3, 2, 26, 0), ref.Null()), ref.Seq(ref.OID(1, 3, 14, 3, 2), ref.Null())}
		digests := [][]byte{ref.MAC12(auth, o.macSalt, o.pw, 2), nil, {0}, make([]byte, 20), bytes.Repeat([]byte{0xff}, 20), ref.MAC12(a, o.macSalt, nil, 2), ref.MAC12(a, o.macSalt, nil, 1), ref.MAC12(a, nil, nil, 1), ref.MAC12(a, o.macSalt, ref.BMP(""), 2),
			ref.MAC12(a, o.macSalt, ref.BMP(""), 1), ref.MAC12(a, nil, ref.BMP(""), 1), make([]byte, 32), bytes.Repeat([]byte{0}, 64), ref.MAC12(nil, o.macSalt, nil, 1)}
		dg := digests[di]
		if alg == 9 {
			good := [][]byte{ref.Seq(algs[0], ref.Oct(digests[0])), ref.Oct(o.macSalt), ref.Int(2)}
			var m []byte
			switch di {
			case 0: // fields left out, repeated, in another order, of another type
				for mask := 0; mask < 8; mask++ {
					var l [][]byte
					for i := 0; i < 3; i++ {
						if mask>>i&1 != 0 {
							l = append(l, good[i])
						}
					}
					try(fmt.Sprintf("contents %d, fields %b", ai, mask), ref.Seq(ref.Int(3), content(ref.OIDData, a), ref.Seq(l...)))
					try(fmt.Sprintf("contents %d, fields %b twice", ai, mask), ref.Seq(ref.Int(3), content(ref.OIDData, a), ref.Seq(append(l, l...)...)))
				}
				m = ref.Seq(good[0], good[2], good[1])
			case 1:
				m = nil
			case 2:
				m = ref.Null()
			case 3:
				m = ref.Set(good...)
			case 4:
				m = ref.Seq(ref.Seq(ref.Seq(), ref.Oct(nil)), ref.Oct(nil))
			case 5:
				m = ref.Seq(ref.Seq(), ref.Oct(nil))
			case 6:
				m = ref.Seq(good...)
			}
			for _, ct := range [][]byte{ref.OIDData, ref.OID(1, 2, 840, 113549, 1, 7, 2), ref.OID(1, 2, 840, 113549, 1, 7, 3), ref.OIDEncData, ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 1)} {
				for v := int64(-1); v < 6; v++ {
					parts := [][]byte{ref.Int(v), content(ct, a)}
					if m != nil {
						parts = append(parts, m)
					}
					try(fmt.Sprintf("contents %d, version %d, type %x, MAC data %x", ai, v, ct, m), ref.Seq(parts...))
				}
			}
			continue
		}
		for si, salt := range [][]byte{o.macSalt, nil, {0}, make([]byte, 8), kit.Stream("forge", 70)} {
			for _, it := range []int64{-1 << 31, -65536, -256, -2, -1, 0, 1, 2, 3, 127, 128, 255, 256, 257, 512, 4096} {
				for o := 0; o < 2; o++ {
					l := [][]byte{ref.Seq(algs[alg], ref.Oct(dg)), ref.Oct(salt)}
					if o == 0 {
						l = append(l, ref.Int(it))
					} else if it != 1 {
						continue
					}
					try(fmt.Sprintf("contents %d, algorithm %d, digest %d, salt %d, %d iterations", ai, alg, di, si, it), ref.Seq(ref.Int(3), content(ref.OIDData, a), ref.Seq(l...)))
				}
			}
		}
	}
	t.State("%d %d", alg, di)
	t.Outcome("%d %d: %d calls", alg, di, calls)
}
