package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C24", Harnesses: []engine.Harness{
		{Name: "alone", Rule: "each operation twice in one world and once in a second one of a fresh process: same results, arguments and the memory behind them unchanged", Run: c24Alone},
		{Name: "sequences", Rule: "every ordered pair of operations (thorough: triple) in a fresh process, sharing arguments, results written over in between: each gives what it gives alone", Run: c24Sequences},
		{Name: "others", Rule: "every pair of operations a, b: a with other keys and contents, b, b with other keys and contents, a, in a fresh process: each gives what it gives alone", Run: c24Others},
		{Name: "ambient", Rule: "each operation, with other keys and contents, and again, in a process with each of 7 local time zones, with one or two processors, or with constant garbage collection: results as alone", Run: c24Ambient},
		{Name: "rounds", Rule: "from every operation on, all others in turn (each rotation, thorough: also every stride), three times in one process and one world: results as alone", Run: c24Rounds},
		{Name: "rekey", Rule: "a key, certificate, template or buffer overwritten with another's contents between two calls, for every pair of 6 keys x 12 uses: the result is that of the new contents", Run: c24Rekey},
		{Name: "near", Rule: "11 families of up to 48 calls that differ in one parameter, byte or part (stores, files, verification, signing, decryption, trust, messages, requests, lists, keys, hashes), every ordered pair a, b, a, b: each gives what the reference says of it alone", Run: c24Near},
		{Name: "alias", Rule: "the same memory passed as several arguments, or argument and result: results as with separate copies", Run: c24Alias},
	}})
	engine.Sub["ops"] = opsMain
}

type opsOut struct {
	Results []string
	Intact  []string
}

// opsMain runs operations in one world of this (fresh) process.
func opsMain(args []string) int {
	std, rot := newWorld(), newRotated()
	defer std.close()
	defer rot.close()
	var o opsOut
	for _, a := range args {
		if z, ok := strings.CutPrefix(a, "zone"); ok {
			n, _ := strconv.Atoi(z)
			time.Local = zones[n]
			continue
		}
		if z, ok := strings.CutPrefix(a, "procs"); ok {
			n, _ := strconv.Atoi(z)
			runtime.GOMAXPROCS(n)
			continue
		}
		if a == "gc" {
			debug.SetGCPercent(1)
			continue
		}
		i, _ := strconv.Atoi(a)
		w := worldFor(i, std, rot)
		o.Results = append(o.Results, runOp(i, w))
		o.Intact = append(o.Intact, w.intact())
	}
	b, _ := json.Marshal(o)
	os.Stdout.Write(append([]byte("\n@@"), b...))
	return 0
}

var (
	fixFileOnce sync.Once
	fixFile     string
)

// fixtureFile writes the fixtures for the fresh processes.
func fixtureFile() {
	fixFileOnce.Do(func() {
		b, err := json.Marshal(fixes())
		if err != nil {
			panic(err)
		}
		dir := os.Getenv("MC_SCRATCH")
		if dir == "" {
			dir = os.TempDir()
		}
		f, err := os.CreateTemp(dir, "fix-*.json")
		if err != nil {
			panic(err)
		}
		f.Write(b)
		f.Close()
		fixFile, _ = filepath.Abs(f.Name())
	})
}

// freshOps runs a sequence in a fresh process.
func freshOps(t *engine.T, seq ...int) opsOut { return freshOpsIn(t, nil, seq...) }

// freshOpsIn runs operations in a fresh process with settings.
func freshOpsIn(t *engine.T, set []string, seq ...int) opsOut {
	fixtureFile()
	var args = append([]string{"ops"}, set...)
	for _, i := range seq {
		args = append(args, strconv.Itoa(i))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "MC_FIX="+fixFile)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	k := bytes.LastIndex(so.Bytes(), []byte("\n@@"))
	var o opsOut
	if err != nil || k < 0 || json.Unmarshal(so.Bytes()[k+3:], &o) != nil {
		e := se.String()
		if len(e) > 900 {
			e = e[:900]
		}
		t.Fail("died", "%s: the process died (%v): %s", opNames(seq), err, e)
	}
	t.Step(len(seq))
	return o
}

func opNames(seq []int) string {
	var n []string
	for _, i := range seq {
		n = append(n, opName(i))
	}
	return strings.Join(n, ", then ")
}

var (
	aloneMu sync.Mutex
	alone   = map[int]string{}
)

// aloneResult is what operation i gives in a fresh process.
func aloneResult(t *engine.T, i int) string {
	aloneMu.Lock()
	defer aloneMu.Unlock()
	if s, ok := alone[i]; ok {
		return s
	}
	o := freshOps(t, i)
	s := o.Results[0]
	// in the rotated world what an operation expects of its arguments need not hold
	t.Check(i >= len(ops) || !strings.HasPrefix(s, "PANIC") && !strings.HasPrefix(s, "WRONG"), "alone", "%s: %s", opName(i), s)
	t.Check(o.Intact[0] == "", "argument", "%s: %s", opName(i), o.Intact[0])
	alone[i] = s
	return s
}

func diffText(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := "nothing"
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("%.300q instead of %.300q", x[i], z)
		}
	}
	return "fewer results"
}

func c24Alone(t *engine.T) {
	i := t.Pick("op", len(ops))
	t.Begin()
	want := aloneResult(t, i)
	again := freshOps(t, i).Results[0]
	t.Check(again == want, "repeatable", "%s gives different results in two fresh processes: %s", ops[i].name, diffText(again, want))
	o := freshOps(t, i, i, i)
	for k, s := range o.Results {
		t.Check(s == want, "again", "%s, call %d: %s", ops[i].name, k+1, diffText(s, want))
		t.Check(o.Intact[k] == "", "argument", "%s: %s", ops[i].name, o.Intact[k])
	}
	t.Outcome("%s: %.120s", ops[i].name, strings.ReplaceAll(want, "\n", "; "))
}

// c24Settings are the settings of the process that no result may depend on.
var c24Settings = [][]string{{"zone1"}, {"zone2"}, {"zone3"}, {"zone4"}, {"zone5"}, {"zone6"}, {"zone7"}, {"procs1"}, {"procs2"}, {"gc"}}

func c24Ambient(t *engine.T) {
	i := t.Pick("op", len(ops))
	k := t.Pick("setting", len(c24Settings))
	t.Begin()
	seq := []int{i, i + len(ops), i}
	o := freshOpsIn(t, c24Settings[k], seq...)
	for n, x := range seq {
		t.Check(o.Results[n] == aloneResult(t, x), "ambient", "%s with %v: call %d gives another result: %s", opName(i), c24Settings[k], n+1, diffText(o.Results[n], aloneResult(t, x)))
		t.Check(o.Intact[n] == "", "argument", "%s with %v, call %d: %s", opName(i), c24Settings[k], n+1, o.Intact[n])
	}
	t.Outcome("%s with %v: as alone", opName(i), c24Settings[k])
}

func c24Others(t *engine.T) {
	a := t.Pick("first", len(ops))
	b := t.Pick("second", len(ops))
	t.Begin()
	seq := []int{a + len(ops), b, b + len(ops), a}
	o := freshOps(t, seq...)
	for k, i := range seq {
		t.Check(o.Results[k] == aloneResult(t, i), "other-arguments", "%s: call %d gives another result than alone: %s", opNames(seq), k+1, diffText(o.Results[k], aloneResult(t, i)))
		t.Check(o.Intact[k] == "", "argument", "%s, call %d: %s", opNames(seq), k+1, o.Intact[k])
	}
	t.Outcome("%s: as alone", opNames(seq))
}

func c24Sequences(t *engine.T) {
	a := t.Pick("first", len(ops))
	b := t.Pick("second", len(ops))
	t.Begin()
	var n int
	check := func(seq ...int) {
		o := freshOps(t, seq...)
		for k, s := range o.Results {
			t.Check(s == aloneResult(t, seq[k]), "history", "%s, call %d: %s", opNames(seq), k+1, diffText(s, aloneResult(t, seq[k])))
			t.Check(o.Intact[k] == "", "argument", "%s, call %d: %s", opNames(seq), k+1, o.Intact[k])
		}
		n++
	}
	if !t.Thorough() {
		check(a, b, a)
	} else {
		for c := range ops {
			check(a, b, c)
		}
	}
	t.State("%d %d %d", a, b, n)
}

func c24Rounds(t *engine.T) {
	first := t.Pick("first", len(ops))
	t.Begin()
	strides := []int{1}
	if t.Thorough() {
		strides = nil
		for s := 1; s < len(ops); s++ {
			strides = append(strides, s)
		}
	}
	for _, st := range strides {
		var seq []int
		for r := 0; r < 3; r++ {
			seen := map[int]bool{}
			i := first
			for len(seen) < len(ops) {
				for seen[i] {
					i = (i + 1) % len(ops)
				}
				seen[i] = true
				seq = append(seq, i)
				i = (i + st) % len(ops)
			}
		}
		o := freshOps(t, seq...)
		for k, s := range o.Results {
			t.Check(s == aloneResult(t, seq[k]), "history", "round from %s by %d, call %d (%s): %s", ops[first].name, st, k+1, ops[seq[k]].name, diffText(s, aloneResult(t, seq[k])))
			t.Check(o.Intact[k] == "", "argument", "round from %s by %d, call %d (%s): %s", ops[first].name, st, k+1, ops[seq[k]].name, o.Intact[k])
		}
	}
	t.State("%d", first)
}

// c24Rekey overwrites objects in place between calls.
func c24Rekey(t *engine.T) {
	use := t.Pick("use", 13)
	from := t.Pick("from", 6)
	to := t.Pick("to", 6)
	warm := t.Pick("warm", 2)
	t.Begin()
	kis := []int{0, 1, 4, 6, 9, 12}
	d1, d2 := kit.Keys[kis[from]].D, kit.Keys[kis[to]].D
	msg := []byte("message")
	set := func(k *sm2.PrivateKey, d int) {
		n := kit.Priv(kit.Keys[kis[d]].D)
		if warm == 0 { // same integers, new values
			k.D.Set(n.D)
			k.X.Set(n.X)
			k.Y.Set(n.Y)
		} else { // same struct, new integers
			*k = *n
		}
	}
	sigOf := func(d int, m []byte) []byte {
		dd := kit.Keys[kis[d]].D
		r, s, ok := ref.SignK(dd, kit.B(5550001), ref.Digest(kit.PubPoint(dd), nil, m))
		t.Check(ok, "fixture", "degenerate signature")
		return ref.DERSig(r, s)
	}
	k := kit.Priv(d1)
	s1, s2 := sigOf(from, msg), sigOf(to, msg)
	same := from == to
	fail := func(f string, a ...any) {
		t.Fail("stale", "key %d overwritten with key %d: "+f, append([]any{kis[from], kis[to]}, a...)...)
	}
	t.Step(2)
	switch use {
	case 0, 1: // signing
		for i := 0; i < 2; i++ {
			d := d1
			if i == 1 {
				set(k, to)
				d = d2
			}
			var sig []byte
			var err error
			dg := ref.Digest(kit.PubPoint(d), nil, msg)
			if use == 0 {
				sig, err = sm2.Sign(kit.NewRand("rk"), k, msg, nil)
			} else {
				sig, err = k.SignDigest(kit.NewRand("rk"), dg)
			}
			a, b, ok := parseSig(sig)
			if err != nil || !ok || !ref.VerifyDigest(kit.PubPoint(d), dg, a, b) {
				fail("signature %d is wrong: %x %v", i, sig, err)
			}
		}
	case 2: // verification
		if !sm2.Verify(&k.PublicKey, msg, nil, s1) {
			fail("good signature refused")
		}
		set(k, to)
		if !sm2.Verify(&k.PublicKey, msg, nil, s2) {
			fail("good signature refused afterwards")
		}
		if !same && sm2.Verify(&k.PublicKey, msg, nil, s1) {
			fail("the old key's signature is still accepted")
		}
	case 3: // digest
		b, _ := k.SM3Digest(msg, nil)
		set(k, to)
		b2, _ := k.SM3Digest(msg, nil)
		if !bytes.Equal(b, ref.Digest(kit.PubPoint(d1), nil, msg)) || !bytes.Equal(b2, ref.Digest(kit.PubPoint(d2), nil, msg)) {
			fail("digests %x, %x", b, b2)
		}
	case 4: // encryption
		for i := 0; i < 2; i++ {
			d := d1
			if i == 1 {
				set(k, to)
				d = d2
			}
			c, err := sm2.Encryt(kit.NewRand("rk"), &k.PublicKey, msg)
			m, err2 := ref.Decrypt(d, c)
			if err != nil || err2 != nil || !bytes.Equal(m, msg) {
				fail("ciphertext %d does not open: %v %v", i, err, err2)
			}
		}
	case 5: // decryption
		c1, _ := ref.EncryptK(kit.PubPoint(d1), kit.B(31), msg)
		c2, _ := ref.EncryptK(kit.PubPoint(d2), kit.B(32), msg)
		m, err := sm2.Decryt(k, c1)
		set(k, to)
		m2, err2 := sm2.Decryt(k, c2)
		if err != nil || err2 != nil || !bytes.Equal(m, msg) || !bytes.Equal(m2, msg) {
			fail("decrypt: %v %v", err, err2)
		}
		if _, err := sm2.Decryt(k, c1); !same && err == nil {
			fail("the old key's ciphertext still opens")
		}
	case 6, 7: // marshalling
		enc := func() []byte {
			var b []byte
			var err error
			if use == 6 {
				b, err = x509.MarshalPKCS8PrivateKey(k)
			} else {
				b, err = x509.MarshalPKIXPublicKey(&k.PublicKey)
			}
			t.Check(err == nil, "marshal", "%v", err)
			return b
		}
		b1 := enc()
		set(k, to)
		b2 := enc()
		has := func(b []byte, d int) bool {
			p := kit.PubPoint(kit.Keys[kis[d]].D)
			return bytes.Contains(b, append(ref.B32(p.X), ref.B32(p.Y)...)) && (use == 7 || bytes.Contains(b, ref.B32(kit.Keys[kis[d]].D)))
		}
		if !has(b1, from) || !has(b2, to) {
			fail("encodings %x, %x", b1, b2)
		}
	case 8: // Equal
		o := kit.Priv(d2)
		if k.Equal(o) != same || k.PublicKey.Equal(&o.PublicKey) != same {
			fail("Equal before")
		}
		set(k, to)
		if !k.Equal(o) || !k.PublicKey.Equal(&o.PublicKey) {
			fail("Equal afterwards")
		}
	case 9: // certificate whose key is exchanged
		c := &x509.Certificate{PublicKey: &k.PublicKey, PublicKeyAlgorithm: x509.SM2}
		if c.CheckSignature(x509.SM2WithSM3, msg, s1) != nil {
			fail("certificate refuses a good signature")
		}
		set(k, to)
		if c.CheckSignature(x509.SM2WithSM3, msg, s2) != nil {
			fail("certificate refuses a good signature afterwards")
		}
		if !same && c.CheckSignature(x509.SM2WithSM3, msg, s1) == nil {
			fail("certificate accepts the old key's signature")
		}
	case 10: // messages and signatures in one buffer
		buf := make([]byte, 64)
		copy(buf, "first message")
		sg := append(make([]byte, 0, 80), sigOf(from, buf[:13])...)
		if !sm2.Verify(&k.PublicKey, buf[:13], nil, sg) {
			fail("good signature refused")
		}
		buf[0] ^= 1
		if sm2.Verify(&k.PublicKey, buf[:13], nil, sg) {
			fail("accepted after the message buffer changed")
		}
		buf[0] ^= 1
		sg[len(sg)-1] ^= 1
		if sm2.Verify(&k.PublicKey, buf[:13], nil, sg) {
			fail("accepted after the signature buffer changed")
		}
		x := sm3.Sum(buf[:13])
		buf[0] ^= 1
		if bytes.Equal(x, sm3.Sum(buf[:13])) || !bytes.Equal(sm3.Sum(buf[:13]), ref.SM3(buf[:13])) {
			fail("digest of a reused buffer")
		}
	case 11: // input buffer of a parser reused after use of what it returned
		a, b := spkiOf(&kit.Priv(d1).PublicKey), spkiOf(&kit.Priv(d2).PublicKey)
		buf := kit.Clone(a)
		p, err := x509.ParsePKIXPublicKey(buf)
		copy(buf, b)
		p2, err2 := x509.ParsePKIXPublicKey(buf)
		if err != nil || err2 != nil || !kit.PointOf(p2.(*sm2.PublicKey)).Equal(kit.PubPoint(d2)) || !kit.PointOf(p.(*sm2.PublicKey)).Equal(kit.PubPoint(d1)) {
			fail("keys parsed from one buffer: %v %v", err, err2)
		}
		e1, _ := ref.EncryptK(kit.PubPoint(d1), kit.B(31), msg)
		_ = e1
		q, err := x509.ParsePKCS8PrivateKey(p8Of(xkey{s: &kit.Signer{Key: kit.Priv(d1)}}))
		if err != nil {
			fail("%v", err)
		}
		q.(*sm2.PrivateKey).D.SetInt64(5) // the caller owns it
		q2, err := x509.ParsePKCS8PrivateKey(p8Of(xkey{s: &kit.Signer{Key: kit.Priv(d1)}}))
		if err != nil || q2.(*sm2.PrivateKey).D.Cmp(d1) != 0 {
			fail("changing a parsed key changed the next one: %v", err)
		}
	case 12: // RC2: key buffer reused after New
		key := kit.Stream(fmt.Sprint("rc2", from), 16)
		keep := kit.Clone(key)
		c, err := pkcs12.New(key, 128)
		t.Check(err == nil, "rc2", "%v", err)
		copy(key, kit.Stream(fmt.Sprint("rc2", to), 16))
		e, w := make([]byte, 8), make([]byte, 8)
		c.Encrypt(e, []byte("8 bytes!"))
		ref.NewRC2(keep, 128).Encrypt(w, []byte("8 bytes!"))
		if !bytes.Equal(e, w) {
			fail("RC2 cipher follows the caller's key buffer")
		}
	}
	t.State("%d %d %d %d", use, from, to, warm)
}

func c24Alias(t *engine.T) {
	use := t.Pick("use", 8)
	n := t.Pick("length", 80)
	t.Begin()
	d := kit.Keys[0].D
	p := kit.PubPoint(d)
	k := kit.Priv(d)
	b := kit.Pattern(3, n+1)
	c := kit.Clone(b)
	t.Step(1)
	switch use {
	case 0: // message is the user id
		g, err := k.SM3Digest(b, b)
		t.Check(err == nil && bytes.Equal(g, ref.Digest(p, c, c)), "alias", "SM3Digest of %d bytes with themselves as the user", n+1)
	case 1:
		sig, err := sm2.Sign(kit.NewRand("al"), k, b, b)
		r, s, ok := parseSig(sig)
		t.Check(err == nil && ok && ref.VerifyDigest(p, ref.Digest(p, c, c), r, s), "alias", "signature over aliased arguments")
		t.Check(sm2.Verify(&k.PublicKey, b, b, sig), "alias", "own signature refused")
	case 2: // signature bytes as the message
		r, s, _ := ref.SignK(d, kit.B(100003), ref.Digest(p, nil, b))
		sig := ref.DERSig(r, s)
		_ = sm2.Verify(&k.PublicKey, sig, sig, sig)
		t.Check(bytes.Equal(sig, ref.DERSig(r, s)) && sm2.Verify(&k.PublicKey, b, nil, sig), "alias", "verification with aliased arguments changes them")
		t.Check(!sm2.VerifyDigest(&k.PublicKey, sig, sig), "alias", "accepted")
	case 3: // random source hands out the message buffer itself
		m := append(kit.Clone(kit.NonceBytes(kit.B(123456789))), b...)
		keep := kit.Clone(m)
		sig, err := sm2.Sign(&kit.Script{Data: m, Next: kit.NewRand("al3")}, k, m, nil)
		r, s, ok := parseSig(sig)
		t.Check(err == nil && ok && ref.VerifyDigest(p, ref.Digest(p, nil, keep), r, s) && bytes.Equal(m, keep), "alias", "signature with the random source over the message")
	case 4: // overlapping halves
		buf := kit.Pattern(3, 2*n+2)
		cp := kit.Clone(buf)
		g, err := k.SM3Digest(buf[:n+1], buf[n/2:n/2+n+1])
		t.Check(err == nil && bytes.Equal(g, ref.Digest(p, cp[n/2:n/2+n+1], cp[:n+1])), "alias", "SM3Digest of overlapping arguments")
	case 5: // sum appended to the hashed buffer
		buf := append(make([]byte, 0, n+100), b...)
		h := sm3.New()
		h.Write(buf)
		buf = h.Sum(buf)
		t.Check(bytes.Equal(buf[n+1:], ref.SM3(c)) && bytes.Equal(buf[:n+1], c), "alias", "Sum appended to its input")
		h.Write(buf[n+1:])
		t.Check(bytes.Equal(h.Sum(nil), ref.SM3(append(kit.Clone(c), ref.SM3(c)...))), "alias", "digest fed back into its object")
	case 6: // plaintext is a slice of the ciphertext buffer
		ct, _ := ref.EncryptK(p, kit.B(77), b)
		buf := append(make([]byte, 0, len(ct)+200), ct...)
		m, err := sm2.Decryt(k, buf)
		t.Check(err == nil && bytes.Equal(m, c) && bytes.Equal(buf, ct), "alias", "Decryt: %v", err)
		for i := range m {
			m[i] ^= 0xff
		}
		m2, err := sm2.Decryt(k, buf)
		t.Check(err == nil && bytes.Equal(m2, c), "alias", "writing over the plaintext changed the ciphertext: %v", err)
	case 7: // RC2 with overlapping blocks
		key := kit.Stream("alias", 16)
		x, err := pkcs12.New(key, 128)
		t.Check(err == nil, "alias", "%v", err)
		buf := kit.Pattern(3, 24)
		w := make([]byte, 8)
		ref.NewRC2(key, 128).Encrypt(w, buf[n%8:n%8+8])
		x.Encrypt(buf[n%8:], buf[n%8:])
		t.Check(bytes.Equal(buf[n%8:n%8+8], w), "alias", "RC2 in place")
		tail := kit.Pattern(3, 24)
		t.Check(bytes.Equal(buf[n%8+8:], tail[n%8+8:]) && bytes.Equal(buf[:n%8], tail[:n%8]), "alias", "RC2 writes beside the block")
	}
	t.State("%d %d", use, n)
}
