package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

func init() {
	engine.Register(&engine.Prop{ID: "C08", Harnesses: []engine.Harness{
		{Name: "fault", Rule: "10 operations x the source failing at every byte offset 0..needed+8 (and, for each, 3 kinds of failure): an error and no result while bytes are missing, the fault-free result once they are there", Run: c08Fault},
		{Name: "transient", Rule: "10 operations x the source failing once at every byte offset below the needed ones and then going on, 4 kinds of failure: an error and no result", Run: c08Transient},
		{Name: "faultredraw", Rule: "the source fails at every byte of the second draw after a degenerate first one: an error and no result", Run: c08FaultRedraw},
		{Name: "delivery", Rule: "10 operations x delivery of the same stream in pieces of 1..41 bytes, with and without empty reads, and with data delivered together with io.EOF at the end: same result", Run: c08Delivery},
		{Name: "entropy", Rule: "10 operations x every bit of the bytes consumed: at least 248 of the bits change the nonce or key; every bit of the secret changes under some of them; consumed bytes >= 32", Run: c08Entropy},
		{Name: "sequence", Rule: "every sequence of 3 (quick) or 4 (thorough) operations on one shared source: nonces and keys are pairwise different, and each result is that of the stream's position", Run: c08Sequence},
		{Name: "keys", Rule: "GenerateKey on every ordered pair of crafted 32/40-byte blocks that decode to 0, 1, n-2, n-1, n, n+1, 2^256-1 under the usual mappings: d in [1,n-2], public key d*G", Run: c08Keys},
	}, Assume: []string{"A random source that returns n bytes wrote them all into the buffer."}})
}

// An op runs one randomised operation and returns the secret it used (nonce
// or key) and its encoded result.
type randOp struct {
	name string
	call func(t *engine.T, rd io.Reader) (secret *big.Int, out string, err error, nilOut bool)
}

var c08D = kit.Keys[0].D
var c08Msg = []byte("random source")

func sigOp(name string, fi int) randOp {
	f := signForms[fi]
	return randOp{name, func(t *engine.T, rd io.Reader) (*big.Int, string, error, bool) {
		digest := ref.Digest(kit.PubPoint(c08D), nil, c08Msg)
		in := c08Msg
		if f.digest {
			in = digest
		}
		der, r, s, err := f.call(rd, kit.Priv(c08D), in, nil)
		t.Step(1)
		if err != nil {
			return nil, "", err, der == nil && r == nil && s == nil
		}
		if f.der {
			r, s, _ = parseSig(der)
		}
		k := checkSig(t, c08D, digest, r, s)
		return k, fmt.Sprintf("%x %x", r, s), nil, false
	}}
}

var c08Ops = []randOp{
	{"GenerateKey", func(t *engine.T, rd io.Reader) (*big.Int, string, error, bool) {
		k, err := sm2.GenerateKey(rd)
		t.Step(1)
		if err != nil {
			return nil, "", err, k == nil
		}
		checkKey(t, k, err)
		return k.D, fmt.Sprintf("%x", k.D), nil, false
	}},
	{"Encryt", func(t *engine.T, rd io.Reader) (*big.Int, string, error, bool) {
		ct, err := sm2.Encryt(rd, kit.Pub(kit.PubPoint(c08D)), c08Msg)
		t.Step(1)
		if err != nil {
			return nil, "", err, ct == nil
		}
		m, derr := ref.Decrypt(c08D, ct)
		t.Check(derr == nil && bytes.Equal(m, c08Msg), "ref-decrypt", "ciphertext %x: %v", ct, derr)
		return new(big.Int).SetBytes(ct[1:33]), string(ct), nil, false // x of kG stands for k
	}},
	sigOp("Sign", 0), sigOp("PrivateKey.Sign", 1), sigOp("SignRS", 2), sigOp("PrivateKey.SignRS", 3),
	sigOp("SignDigest", 4), sigOp("PrivateKey.SignDigest", 5), sigOp("SignDigestRS", 6), sigOp("PrivateKey.SignDigestRS", 7),
}

var errFault = errors.New("fault injected")

// faulty delivers data then fails in one of several ways.
type faulty struct {
	data []byte
	off  int
	kind int
}

func (f *faulty) Read(p []byte) (int, error) {
	n := copy(p, f.data[f.off:])
	f.off += n
	switch f.kind {
	case 0: // error alone, after the data
		if n == 0 && len(p) > 0 {
			return 0, errFault
		}
		return n, nil
	case 1: // error together with the last bytes
		if f.off == len(f.data) && n < len(p) {
			return n, errFault
		}
		return n, nil
	default: // end of file together with the last bytes
		if f.off == len(f.data) && n < len(p) {
			return n, io.EOF
		}
		return n, nil
	}
}

func needed(t *engine.T, op randOp, name string) (int, string) {
	c := &kit.Counting{R: kit.NewRand(name)}
	_, out, err, _ := op.call(t, c)
	t.Check(err == nil, "error", "%s: %v", op.name, err)
	return c.Bytes, out
}

func c08Fault(t *engine.T) {
	op := c08Ops[t.Pick("op", len(c08Ops))]
	kind := t.Pick("kind", 3)
	st := t.Pick("stream", t.Size(2, 6))
	t.Begin()
	name := fmt.Sprint("fault", st)
	need, want := needed(t, op, name)
	data := kit.Stream(name, need+8)
	// Rand and Stream agree
	for i := 0; i <= need+8; i++ {
		_, out, err, nilOut := op.call(t, &faulty{data: data[:i], kind: kind})
		if i < need {
			t.Check(err != nil, "fault-ignored", "%s: the source failed after %d of %d bytes (kind %d) and a result was returned", op.name, i, need, kind)
			t.Check(nilOut, "result-with-error", "%s: result together with error %v", op.name, err)
		} else {
			t.Check(err == nil && out == want, "enough", "%s: %d bytes were delivered, %d needed: %v", op.name, i, need, err)
		}
	}
	t.Outcome("%s needs %d bytes; failures at 0..%d reported (kind %d)", op.name, need, need-1, kind)
}

func c08FaultRedraw(t *engine.T) {
	what := t.Pick("what", 3) // sign r=0, encrypt zero key stream, generate key n-1
	at := t.Pick("at", 41)
	kind := t.Pick("kind", 3)
	t.Begin()
	if !kit.NonceControl() {
		t.Outcome("no nonce control: skipped")
		return
	}
	tail := kit.Stream("tail", 40)[:at]
	switch what {
	case 0:
		k := kit.H("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
		e := modN(new(big.Int).Neg(ref.MulG(k).X))
		for fi := 4; fi < 8; fi++ {
			der, r, s, err := signForms[fi].call(&faulty{data: append(kit.NonceBytes(k), tail...), kind: kind}, kit.Priv(c08D), ref.B32(e), nil)
			t.Step(1)
			if err != nil {
				t.Check(der == nil && r == nil && s == nil, "result-with-error", "%s", signForms[fi].name)
				continue
			}
			if signForms[fi].der {
				r, s, _ = parseSig(der)
			}
			t.Check(r != nil && s != nil, "fault-ignored", "no signature, no error")
			checkSig(t, c08D, ref.B32(e), r, s)
			t.Check(at >= 32, "fault-ignored", "%s: the source failed %d bytes into the redraw and a signature was returned", signForms[fi].name, at)
		}
	case 1:
		ct, err := sm2.Encryt(&faulty{data: append(kit.NonceBytes(modN(new(big.Int).Mul(kit.B(351), inv(c08D)))), tail...), kind: kind}, kit.Pub(kit.PubPoint(c08D)), []byte{7})
		t.Step(1)
		if err != nil {
			t.Check(ct == nil, "result-with-error", "ciphertext with error")
		} else {
			m, derr := ref.Decrypt(c08D, ct)
			t.Check(at >= 32 && derr == nil && bytes.Equal(m, []byte{7}), "fault-ignored", "the source failed %d bytes into the redraw and a ciphertext was returned (%v)", at, derr)
		}
	case 2:
		raw := ref.B32(kit.NSub(1))
		raw[1] ^= 0x42
		k, err := sm2.GenerateKey(&faulty{data: append(raw, tail...), kind: kind})
		t.Step(1)
		if err != nil {
			t.Check(k == nil, "result-with-error", "key with error")
		} else {
			checkKey(t, k, err)
		}
	}
	t.Outcome("what %d fault at %d kind %d", what, at, kind)
}

type eofReader struct {
	data []byte
	off  int
}

func (e *eofReader) Read(p []byte) (int, error) {
	n := copy(p, e.data[e.off:])
	e.off += n
	if e.off == len(e.data) {
		return n, io.EOF
	}
	return n, nil
}

func c08Delivery(t *engine.T) {
	op := c08Ops[t.Pick("op", len(c08Ops))]
	size := t.Pick("piece", 41) + 1
	t.Begin()
	need, want := needed(t, op, "delivery")
	for _, z := range []int{0, 2, 3} { // every z'th read delivers nothing
		_, out, err, _ := op.call(t, &kit.Chunked{R: kit.NewRand("delivery"), Max: size, Zero: z})
		t.Check(err == nil && out == want, "delivery", "%s: pieces of %d bytes (empty reads every %d): %v, other result than in one piece", op.name, size, z, err)
	}
	if size == 1 {
		_, out, err, _ := op.call(t, &eofReader{data: kit.Stream("delivery", need)})
		t.Check(err == nil && out == want, "delivery", "%s: exactly the needed bytes with io.EOF: %v", op.name, err)
	}
	t.Outcome("%s in pieces of %d", op.name, size)
}

func c08Entropy(t *engine.T) {
	op := c08Ops[t.Pick("op", len(c08Ops))]
	st := t.Pick("stream", t.Size(1, 4))
	t.Begin()
	name := fmt.Sprint("entropy", st)
	need, _ := needed(t, op, name)
	data := kit.Stream(name, need)
	sec0, _, _, _ := op.call(t, &kit.Script{Data: data, Next: kit.NewRand("e")})
	changed := 0
	seen := map[string]bool{sec0.String(): true}
	dup := 0
	moved := new(big.Int)
	for bit := 0; bit < need*8; bit++ {
		d := kit.Clone(data)
		d[bit/8] ^= 1 << (bit % 8)
		sec, _, err, _ := op.call(t, &kit.Script{Data: d, Next: kit.NewRand("e")})
		t.Check(err == nil, "error", "%v", err)
		if sec.Cmp(sec0) != 0 {
			changed++
			moved.Or(moved, new(big.Int).Xor(sec, sec0))
			if seen[sec.String()] {
				dup++
			}
			seen[sec.String()] = true
		}
	}
	t.Check(need >= 32, "entropy", "%s consumes only %d bytes", op.name, need)
	t.Check(changed >= 248 && changed-dup >= 248, "entropy", "%s: only %d of %d random bits influence the secret (%d distinct)", op.name, changed, need*8, changed-dup)
	// Under 300 and more flips every bit of a secret that spreads over [1,n)
	// has moved; one that never moves is predictable.
	for i := 0; i < 256; i++ {
		t.Check(moved.Bit(i) == 1, "entropy", "%s: bit %d of the secret never changes", op.name, i)
	}
	t.Outcome("%s: %d of %d bits change the secret", op.name, changed, need*8)
}

func c08Sequence(t *engine.T) {
	n := t.Size(3, 4)
	seq := make([]int, n)
	for i := range seq {
		seq[i] = t.Pick("op", len(c08Ops))
	}
	shared := t.Pick("stream", 2)
	t.Begin()
	rd := &kit.Counting{R: kit.NewRand(fmt.Sprint("seq", shared))}
	stream := kit.Stream(fmt.Sprint("seq", shared), 4096)
	seen := map[string]int{}
	for i, o := range seq {
		at := rd.Bytes
		sec, out, err, _ := c08Ops[o].call(t, rd)
		t.Check(err == nil, "error", "%v", err)
		if j, ok := seen[sec.String()]; ok {
			t.Fail("reuse", "operations %d (%s) and %d (%s) of %v used the same secret", j, c08Ops[seq[j]].name, i, c08Ops[o].name, seq)
		}
		seen[sec.String()] = i
		// alone on the same bytes: same result
		if i == n-1 {
			_, out2, err, _ := c08Ops[o].call(t, bytes.NewReader(stream[at:]))
			t.Check(err == nil && out2 == out, "history", "%s after %v differs from the same operation alone on the same bytes", c08Ops[o].name, seq[:i])
		}
	}
	t.Outcome("sequence %v: %d distinct secrets", seq, len(seen))
}

func c08Keys(t *engine.T) {
	cr := craftedKeyStreams()
	a := t.Pick("first", len(cr))
	b := t.Pick("second", len(cr))
	t.Begin()
	for _, tail := range []int{0, 1} {
		rd := &kit.Script{Data: append(kit.Clone(cr[a]), cr[b]...)}
		if tail == 1 {
			rd.Next = kit.NewRand("keys")
		}
		k, err := sm2.GenerateKey(rd)
		t.Step(1)
		if err != nil {
			t.Check(tail == 0 && k == nil, "generate", "GenerateKey: %v", err)
			continue
		}
		checkKey(t, k, err)
	}
	t.State("%d %d", a, b)
}
