package props

import (
	"bytes"
	stdx509 "crypto/x509"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	engine.Register(&engine.Prop{ID: "C21", Harnesses: []engine.Harness{
		{Name: "roundtrip", Rule: "17 SM2 keys x passwords x what was at the path before (nothing, shorter, longer, a file of another key): what is written reads back, with the right password only", Run: c21Round},
		{Name: "big", Rule: "certificates up to 2^18 (2^22) bytes, at all sizes around powers of two and ten, into a new or existing file, and a disk that fills up in between: what is reported as stored reads back whole", Run: c21Big},
		{Name: "chains", Rule: "SM2 and RSA keys x 0-3 CA certificates in files made by Encode or elsewhere: SM2P12Decrypt returns the key and its own certificate", Run: c21Chains},
		{Name: "full", Rule: "the file system stops taking data after every number of bytes: SM2P12Encrypt reports an error, or the whole file is there", Run: c21Full},
		{Name: "crash", Rule: "the file cut at every length, or with every 1..64 byte tail zeroed or replaced by the old file's: SM2P12Decrypt gives an error or the right key", Run: c21Crash},
		{Name: "paths", Rule: "missing directory, directory, full device, empty and NUL paths, unencodable password, wrong key types: errors from both functions, nothing written", Run: c21Paths},
	}, Assume: []string{"RLIMIT_FSIZE and /dev/full stand for a full file system"}})
}

func c21Dir(t *engine.T) string {
	dir, err := os.MkdirTemp("", "c21-")
	t.Check(err == nil, "setup", "%v", err)
	return dir
}

func c21Enc(cert, ki int, pw, fn, seed string, t *engine.T) error {
	var err error
	c := p12Leaf(t, cert, 1)
	withRand(kit.NewRand(seed), func() { err = pkcs12.SM2P12Encrypt(c, pw, kit.Priv(kit.Keys[ki].D), fn) })
	return err
}

// c21Holds checks that fn holds key ki under pw.
func c21Holds(t *engine.T, fn, pw string, ki int) {
	cert, key, err := pkcs12.SM2P12Decrypt(fn, pw)
	t.Check(err == nil, "decrypt", "SM2P12Decrypt: %v", err)
	k, ok := key.(*sm2.PrivateKey)
	t.Check(ok && k.D.Cmp(kit.Keys[ki].D) == 0 && kit.PointOf(&k.PublicKey).Equal(kit.PubPoint(kit.Keys[ki].D)), "key", "SM2P12Decrypt returns another key (%T)", key)
	t.Check(bytes.Equal(cert.Raw, p12Leaf(t, 0, 1).Raw), "cert", "SM2P12Decrypt returns another certificate")
	b, err := os.ReadFile(fn)
	t.Check(err == nil, "read", "%v", err)
	o, err := p12Open(b, ref.BMP(pw))
	t.Check(err == nil && len(o.keys) == 1, "interop", "independent decoder: %v", err)
	t.Step(2)
}

func c21Round(t *engine.T) {
	ki := t.Pick("key", len(kit.Keys))
	prev := t.Pick("before", 5)
	pws := []string{"", "pw", "密码", "0123456789012345678901234567890123"}
	pi := t.Pick("password", len(pws))
	t.Begin()
	dir := c21Dir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "key.p12")
	switch prev {
	case 1:
		os.WriteFile(fn, []byte("short"), 0600)
	case 2:
		os.WriteFile(fn, kit.Stream("junk", 10000), 0600)
	case 3:
		t.Check(c21Enc(0, (ki+1)%len(kit.Keys), "old", fn, "old", t) == nil, "encrypt", "first file")
	case 4:
		os.WriteFile(filepath.Join(dir, "target"), kit.Stream("junk", 5000), 0600)
		os.Symlink("target", fn)
	}
	err := c21Enc(0, ki, pws[pi], fn, fmt.Sprint("c21", ki, prev, pi), t)
	t.Check(err == nil, "encrypt", "SM2P12Encrypt: %v", err)
	c21Holds(t, fn, pws[pi], ki)
	for j, pw := range pws {
		if j == pi {
			continue
		}
		cert, key, err := pkcs12.SM2P12Decrypt(fn, pw)
		t.Check(err != nil && cert == nil && key == nil, "wrong-password", "opened with %q", pw)
		t.Step(1)
	}
	t.State("%d %d %d", ki, prev, pi)
}

func c21Chains(t *engine.T) {
	ki := []int{0, 2, 7}[t.Pick("key", 3)]
	n := t.Pick("cas", 4)
	first := t.Pick("first", 5)
	made := t.Pick("made", 3)
	t.Begin()
	k := xkeyOf(ki)
	leaf := p12Leaf(t, ki, 1)
	dir := c21Dir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "chain.p12")
	var der []byte
	var err error
	var cas []*stdx509.Certificate
	o := p12Std("pw")
	id := p12Attr(ref.OIDLocalKey, ref.Oct(fingerprint(leaf.Raw)))
	cb := [][]byte{p12CertBag(leaf.Raw, id)}
	for i := 0; i < n; i++ {
		raw := c18CA((first + i) % 5)
		cas = append(cas, c18Std(t, raw))
		cb = append(cb, p12CertBag(raw))
	}
	switch made {
	case 0:
		withRand(kit.NewRand("c21chain"), func() { der, err = pkcs12.Encode(p12Priv(k), leaf, cas, "pw") })
		t.Check(err == nil, "encode", "%v", err)
	case 1:
		der = p12Build(o, cb, [][]byte{p12KeyBag(o, p8Of(k), id)})
	case 2:
		o.keyFirst, o.certOID = true, nil
		der = p12Build(o, cb, [][]byte{p12KeyBag(o, p8Of(k), id)})
	}
	t.Check(os.WriteFile(fn, der, 0600) == nil, "setup", "write")
	cert, key, err := pkcs12.SM2P12Decrypt(fn, "pw")
	t.Check(err == nil && privEqual(key, p12Priv(k)), "key", "file with %d CA certificates: %v", n, err)
	t.Check(cert != nil && bytes.Equal(cert.Raw, leaf.Raw), "cert", "file with %d CA certificates: another certificate than the key's", n)
	t.Step(1)
	t.State("%d %d %d %d", ki, n, first, made)
}

// withFileLimit runs f while no file can grow past n bytes.
func withFileLimit(t *engine.T, n int, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	t.Check(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) == nil, "setup", "getrlimit")
	lim := syscall.Rlimit{Cur: uint64(n), Max: old.Max}
	t.Check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) == nil, "setup", "setrlimit")
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

func c21Full(t *engine.T) {
	prev := t.Pick("before", 3)
	blk := t.Pick("block", 32)
	t.Begin()
	dir := c21Dir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "key.p12")
	t.Check(c21Enc(0, 0, "pw", fn, "full", t) == nil, "encrypt", "without limit")
	want, err := os.ReadFile(fn)
	t.Check(err == nil, "read", "%v", err)
	size := len(want)
	for n := blk * (size + 8) / 32; n < (blk+1)*(size+8)/32; n++ {
		os.Remove(fn)
		switch prev {
		case 1:
			os.WriteFile(fn, kit.Stream("junk", 3*size), 0600)
		case 2:
			t.Check(c21Enc(0, 1, "old", fn, "old", t) == nil, "encrypt", "old file")
		}
		var e error
		withFileLimit(t, n, func() { e = c21Enc(0, 0, "pw", fn, "full", t) })
		got, _ := os.ReadFile(fn)
		if e == nil {
			c21Holds(t, fn, "pw", 0)
			t.Check(bytes.Equal(got, want), "content", "room for %d of %d bytes: file of %d bytes", n, size, len(got))
		}
		t.Check(n < size || e == nil, "spurious", "room for %d of %d bytes: %v", n, size, e)
		t.Step(1)
		t.State("%d %d %v", prev, n, e == nil)
	}
}

func c21Crash(t *engine.T) {
	mode := t.Pick("mode", 4)
	blk := t.Pick("block", 16)
	t.Begin()
	dir := c21Dir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "key.p12")
	t.Check(c21Enc(0, 1, "pw", fn, "oldfile", t) == nil, "encrypt", "old")
	old, _ := os.ReadFile(fn)
	t.Check(c21Enc(0, 0, "pw", fn, "newfile", t) == nil, "encrypt", "new")
	b, err := os.ReadFile(fn)
	t.Check(err == nil, "read", "%v", err)
	for n := blk * len(b) / 16; n < (blk+1)*len(b)/16; n++ {
		var c []byte
		switch mode {
		case 0: // cut
			c = kit.Clone(b[:n])
		case 1: // the tail never reached the disk
			c = kit.Clone(b)
			for i := n; i < len(c); i++ {
				c[i] = 0
			}
		case 2: // the head is new, the tail old
			c = append(kit.Clone(b[:n]), old[min(n, len(old)):]...)
		case 3: // the head old, the tail new
			c = append(kit.Clone(old[:min(n, len(old))]), b[n:]...)
		}
		t.Check(os.WriteFile(fn, c, 0600) == nil, "setup", "write")
		cert, key, err := pkcs12.SM2P12Decrypt(fn, "pw")
		t.Step(1)
		if err != nil {
			t.Check(cert == nil && key == nil, "partial", "result with the error %v", err)
			t.State("%d %d", mode, n)
			continue
		}
		k, ok := key.(*sm2.PrivateKey)
		t.Check(mode != 0, "cut", "file cut to %d of %d bytes opens", n, len(b))
		isNew := ok && k.D.Cmp(kit.Keys[0].D) == 0 && bytes.Equal(c, b)
		isOld := ok && k.D.Cmp(kit.Keys[1].D) == 0 && bytes.Equal(c, old)
		t.Check(isNew || isOld, "torn", "torn file (mode %d at %d) opens as a key", mode, n)
	}
	if mode == 2 || mode == 3 { // whole-file cases
		t.Check(os.WriteFile(fn, b, 0600) == nil, "setup", "write")
		c21Holds(t, fn, "pw", 0)
	}
}

func c21Paths(t *engine.T) {
	i := t.Pick("case", 12)
	t.Begin()
	dir := c21Dir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "f")
	path, pw := fn, "pw"
	switch i {
	case 0:
		path = filepath.Join(dir, "no", "such", "f")
	case 1:
		path = dir
	case 2:
		path = filepath.Join(dir, "full")
		t.Check(os.Symlink("/dev/full", path) == nil, "setup", "symlink")
	case 3:
		path = ""
	case 4:
		path = fn + "\x00x"
	case 5:
		pw = "\U0001F600"
	case 6:
		os.WriteFile(fn, nil, 0600)
		path = fn + "/below"
	case 7: // a missing file is an error
		cert, key, err := pkcs12.SM2P12Decrypt(fn, pw)
		t.Check(err != nil && cert == nil && key == nil, "missing", "a missing file opens")
		t.State("missing")
		return
	case 8, 9, 10, 11: // files that hold another kind of key
		ki := []int{1, 2, 3, 0}[i-8]
		k := xkeyOf(ki)
		o := p12Std("pw")
		os.WriteFile(fn, p12Build(o, [][]byte{p12CertBag(p12Leaf(t, ki, 1).Raw)}, [][]byte{p12KeyBag(o, p8Of(k))}), 0600)
		cert, key, err := pkcs12.SM2P12Decrypt(fn, "pw")
		if ki == 0 || ki == 2 {
			t.Check(err == nil, "key", "key of type %s: %v", k.name, err)
		}
		if err == nil {
			t.Check(privEqual(key, p12Priv(k)) && bytes.Equal(cert.Raw, p12Leaf(t, ki, 1).Raw), "key", "another key")
		} else {
			t.Check(cert == nil && key == nil, "partial", "result with error")
		}
		t.State("type %d %v", ki, err == nil)
		return
	}
	err := c21Enc(0, 0, pw, path, "paths", t)
	t.Check(err != nil, "accepted", "case %d: SM2P12Encrypt reports success", i)
	if i != 2 {
		cert, key, err := pkcs12.SM2P12Decrypt(path, "pw")
		t.Check(err != nil && cert == nil && key == nil, "accepted", "case %d: SM2P12Decrypt reports success", i)
	}
	t.Step(2)
	t.State("%d", i)
}
