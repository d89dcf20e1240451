package props

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	_ "crypto/sha3"
	"crypto/sha512"
	"fmt"
	"hash"
	"math"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
	"golang.org/x/crypto/ripemd160"
)

func init() {
	engine.Register(&engine.Prop{ID: "C25", Harnesses: []engine.Harness{
		{Name: "identifiers", Rule: "every identifier 0..300 and the extreme values: name, size, availability, construction, standard-library identifier", Run: c25Identifiers},
		{Name: "digests", Rule: "every available hash x every length 0..300 (quick) or 0..1100 (thorough) x 4 byte patterns x 3 ways to feed it, against the standard library and the reference SM3", Run: c25Digests},
		{Name: "objects", Rule: "every pair of available hashes: interleaved use of two objects, of the same object after Sum and Reset", Run: c25Objects},
		{Name: "registry", Rule: "every sequence of at most 3 (quick) or 4 (thorough) registrations over 5 identifiers x 3 constructors (two real, nil), all identifiers queried after each step", Run: c25Registry},
	}})
}

type hashID struct {
	name string
	size int
	std  func() hash.Hash // nil: unavailable
	id   x509.Hash
}

type sm3Ref struct{ b []byte }

func (s *sm3Ref) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }
func (s *sm3Ref) Sum(in []byte) []byte        { return append(in, ref.SM3(s.b)...) }
func (s *sm3Ref) Reset()                      { s.b = nil }
func (s *sm3Ref) Size() int                   { return 32 }
func (s *sm3Ref) BlockSize() int              { return 64 }

var hashIDs = []hashID{
	{},
	{"MD4", 16, nil, x509.MD4},
	{"MD5", 16, crypto.MD5.New, x509.MD5},
	{"SHA-1", 20, crypto.SHA1.New, x509.SHA1},
	{"SHA-224", 28, crypto.SHA224.New, x509.SHA224},
	{"SHA-256", 32, crypto.SHA256.New, x509.SHA256},
	{"SHA-384", 48, crypto.SHA384.New, x509.SHA384},
	{"SHA-512", 64, crypto.SHA512.New, x509.SHA512},
	{"MD5+SHA1", 36, nil, x509.MD5SHA1},
	{"RIPEMD-160", 20, ripemd160.New, x509.RIPEMD160},
	{"SHA3-224", 28, crypto.SHA3_224.New, x509.SHA3_224},
	{"SHA3-256", 32, crypto.SHA3_256.New, x509.SHA3_256},
	{"SHA3-384", 48, crypto.SHA3_384.New, x509.SHA3_384},
	{"SHA3-512", 64, crypto.SHA3_512.New, x509.SHA3_512},
	{"SHA-512/224", 28, crypto.SHA512_224.New, x509.SHA512_224},
	{"SHA-512/256", 32, crypto.SHA512_256.New, x509.SHA512_256},
	{"BLAKE2s-256", 32, nil, x509.BLAKE2s_256},
	{"BLAKE2b-256", 32, nil, x509.BLAKE2b_256},
	{"BLAKE2b-384", 48, nil, x509.BLAKE2b_384},
	{"BLAKE2b-512", 64, nil, x509.BLAKE2b_512},
	{"SM3", 32, func() hash.Hash { return &sm3Ref{} }, x509.SM3},
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(engine.Failure); ok {
				panic(fl)
			}
			p = true
		}
	}()
	f()
	return
}

func c25Query(t *engine.T, n int, h hashID, fn func() hash.Hash) {
	id := x509.Hash(n)
	t.Step(5)
	t.Check(id == h.id, "number", "%s has the value %d, want %d", h.name, h.id, n)
	t.Check(id.Available() == (fn != nil), "available", "%s (%d): Available() = %v", h.name, n, id.Available())
	var o hash.Hash
	p := panics(func() { o = id.New() })
	t.Check(p == (fn == nil), "new", "%s (%d): New panics: %v", h.name, n, p)
	if p {
		return
	}
	w := fn()
	t.Check(o.Size() == w.Size() && o.BlockSize() == w.BlockSize(), "object", "%s: object of size %d, block size %d; want %d, %d", h.name, o.Size(), o.BlockSize(), w.Size(), w.BlockSize())
	m := []byte("abc")
	o.Write(m)
	w.Write(m)
	t.Check(bytes.Equal(o.Sum(nil), w.Sum(nil)), "digest", "%s of abc is %x, want %x", h.name, o.Sum(nil), w.Sum(nil))
}

func c25Identifiers(t *engine.T) {
	extra := []uint64{1 << 31, 1 << 32, 1<<32 + 5, 1 << 63, math.MaxUint64, math.MaxUint64 - 1}
	n := t.Pick("id", 301+len(extra))
	t.Begin()
	v := uint64(n)
	if n > 300 {
		v = extra[n-301]
	}
	id := x509.Hash(v)
	t.Check(id.HashFunc() == crypto.Hash(v), "hashfunc", "HashFunc of %d is %d", v, id.HashFunc())
	if v > 0 && v < uint64(len(hashIDs)) {
		h := hashIDs[v]
		t.Check(id.String() == h.name, "name", "identifier %d is called %q, want %q", v, id.String(), h.name)
		t.Check(id.Size() == h.size, "size", "%s has size %d, want %d", h.name, id.Size(), h.size)
		if v < 20 {
			c := crypto.Hash(v)
			t.Check(c.String() == h.name && c.Size() == h.size, "std", "standard identifier %d is %s of size %d, want %s, %d", v, c, c.Size(), h.name, h.size)
		}
		c25Query(t, int(v), h, h.std)
		t.Outcome("%s %d %v", h.name, h.size, h.std != nil)
		return
	}
	t.Check(id.String() == fmt.Sprintf("unknown hash value %d", int(v)), "name", "identifier %d is called %q", v, id.String())
	t.Check(panics(func() { id.Size() }), "size", "Size of unknown identifier %d does not panic", v)
	t.Check(panics(func() { id.New() }), "new", "New of unknown identifier %d does not panic", v)
	if !panics(func() { t.Check(!id.Available(), "available", "unknown identifier %d is available", v) }) {
		t.Step(3)
	} else {
		t.Fail("available", "Available of unknown identifier %d panics", v)
	}
	if v != 0 {
		t.Check(panics(func() { x509.RegisterHash(id, sha256.New) }), "register", "identifier %d can be registered", v)
	}
	t.State("unknown %d", v)
}

func c25Digests(t *engine.T) {
	n := 1 + t.Pick("hash", len(hashIDs)-1)
	blk := t.Pick("block", 8)
	t.Begin()
	h := hashIDs[n]
	if h.std == nil {
		t.State("unavailable %d", n)
		return
	}
	max := t.Size(300, 1100)
	o := h.id.New()
	for l := blk * (max + 1) / 8; l < (blk+1)*(max+1)/8; l++ {
		for p := 0; p < 4; p++ {
			m := kit.Pattern(p, l)
			w := h.std()
			w.Write(m)
			want := w.Sum(nil)
			t.Step(3)
			a := h.id.New()
			a.Write(m)
			t.Check(bytes.Equal(a.Sum(nil), want), "digest", "%s of %d bytes (pattern %d) is %x, want %x", h.name, l, p, a.Sum(nil), want)
			b := h.id.New()
			b.Write(m[:l/3])
			b.Sum(nil)
			b.Write(m[l/3:])
			pre := []byte("prefix")
			t.Check(bytes.Equal(b.Sum(pre), append([]byte("prefix"), want...)), "digest", "%s of %d bytes in two parts differs", h.name, l)
			o.Reset()
			for i := range m {
				o.Write(m[i : i+1])
			}
			t.Check(bytes.Equal(o.Sum(nil), want), "digest", "%s of %d bytes one by one after Reset differs", h.name, l)
		}
	}
	t.State("%s %d", h.name, blk)
}

func c25Objects(t *engine.T) {
	i := 1 + t.Pick("a", len(hashIDs)-1)
	j := 1 + t.Pick("b", len(hashIDs)-1)
	t.Begin()
	a, b := hashIDs[i], hashIDs[j]
	if a.std == nil || b.std == nil {
		t.State("unavailable")
		return
	}
	x, y := a.id.New(), b.id.New()
	wx, wy := a.std(), b.std()
	for k := 0; k < 12; k++ {
		m := kit.Pattern(k%4, k*23)
		x.Write(m)
		wx.Write(m)
		y.Write(m[:k])
		wy.Write(m[:k])
		t.Step(2)
		t.Check(bytes.Equal(x.Sum(nil), wx.Sum(nil)), "interleaved", "%s interleaved with %s, step %d", a.name, b.name, k)
		t.Check(bytes.Equal(y.Sum(nil), wy.Sum(nil)), "interleaved", "%s interleaved with %s, step %d", b.name, a.name, k)
		if k == 7 {
			x.Reset()
			wx.Reset()
		}
	}
	t.State("%d %d", i, j)
}

func c25Registry(t *engine.T) {
	slots := []int{int(x509.SM3), int(x509.SHA256), int(x509.BLAKE2s_256), int(x509.MD4), int(x509.MD5SHA1)}
	fns := []func() hash.Hash{sha1.New, sha512.New, nil}
	depth := t.Size(3, 4)
	cur := map[int]func() hash.Hash{}
	restore := func() {
		for _, s := range slots {
			x509.RegisterHash(x509.Hash(s), hashIDs[s].std)
		}
	}
	defer restore()
	all := func(step int) {
		for n := 1; n < len(hashIDs); n++ {
			fn := hashIDs[n].std
			if f, ok := cur[n]; ok {
				fn = f
			}
			c25Query(t, n, hashIDs[n], fn)
			t.Check(x509.Hash(n).Size() == hashIDs[n].size, "size", "%s: size changed by a registration", hashIDs[n].name)
		}
	}
	s0 := t.Pick("slot", len(slots))
	f0 := t.Pick("fn", len(fns))
	t.Begin()
	for k := 0; k < depth; k++ {
		if k > 0 {
			s0, f0 = t.Pick("slot", len(slots)), t.Pick("fn", len(fns))
		}
		x509.RegisterHash(x509.Hash(slots[s0]), fns[f0])
		cur[slots[s0]] = fns[f0]
		all(k)
		var st string
		for _, s := range slots {
			f, ok := cur[s]
			st += fmt.Sprintf("%v%v ", ok, f == nil)
		}
		t.State("%s", st)
	}
}
