// Package kit holds the finite alphabets and environments the harnesses share:
// keys, messages, deterministic and faulty random sources.
package kit

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	stdx509 "crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"sync"
	"sync/atomic"

	"verif/mc/engine"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm2"
)

// B is the big.Int of v.
func B(v int64) *big.Int { return big.NewInt(v) }

// H parses hex.
func H(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	return x
}

// NSub is n - v.
func NSub(v int64) *big.Int { return new(big.Int).Sub(ref.N, B(v)) }

// Priv builds the SM2 key with scalar d from the reference arithmetic.
func Priv(d *big.Int) *sm2.PrivateKey {
	q := pubOf(d)
	return &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: sm2.SM2P256V1(), X: new(big.Int).Set(q.X), Y: new(big.Int).Set(q.Y)}, D: new(big.Int).Set(d)}
}

// The caches are copied on write: looking something up must not order two
// threads whose races are wanted.
var (
	pubMu    sync.Mutex
	pubCache atomic.Pointer[map[string]ref.Point]
)

func pubOf(d *big.Int) ref.Point {
	k := string(d.Bytes())
	if m := pubCache.Load(); m != nil {
		if p, ok := (*m)[k]; ok {
			return p
		}
	}
	p := ref.MulG(d)
	pubMu.Lock()
	defer pubMu.Unlock()
	m := map[string]ref.Point{k: p}
	if o := pubCache.Load(); o != nil {
		if len(*o) >= 300 {
			return p
		}
		for k, v := range *o {
			m[k] = v
		}
	}
	pubCache.Store(&m)
	return p
}

// PubPoint is d*G.
func PubPoint(d *big.Int) ref.Point { return pubOf(d) }

// Pub builds a public key for point p.
func Pub(p ref.Point) *sm2.PublicKey {
	return &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

// PointOf is the reference view of pub.
func PointOf(pub *sm2.PublicKey) ref.Point {
	return ref.Point{X: new(big.Int).Set(pub.X), Y: new(big.Int).Set(pub.Y)}
}

// NamedKey is a private scalar with a name.
type NamedKey struct {
	Name string
	D    *big.Int
}

// Keys is the SM2 key alphabet: extreme scalars, scalars whose public point
// has coordinates with leading zero bytes, scalars with special byte shapes.
var Keys = []NamedKey{
	{"std", H("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")},
	{"one", B(1)},
	{"n-2", NSub(2)},
	{"two", B(2)},
	{"shortY", B(107)},
	{"shortX", B(327)},
	{"shortXY", B(278982)},
	{"shortX2", B(17883)},
	{"shortY2", B(193197)},
	{"n-3", NSub(3)},
	{"byte", B(0x80)},
	{"short30", H("00003945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7")},
	{"pow248", new(big.Int).Lsh(B(1), 248)},
	{"pow255", new(big.Int).Lsh(B(1), 255)},
	{"mid", H("7FFFFFFF7FFFFFFFFFFFFFFFFFFFFFFFB901EFB590E30295A9DFFA04CEAA0091")},
	{"trail0", H("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF00000000")},
	{"ff", H("FFFFFFFE00000000FFFFFFFFFFFFFFFF000000000000000000000000FFFFFFFF")},
}

// Pattern returns n bytes of pattern p.
func Pattern(p, n int) []byte {
	b := make([]byte, n)
	switch p {
	case 0:
		for i := range b {
			b[i] = byte(i*7 + i>>8*13 + 1)
		}
	case 1: // zeros
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		copy(b, Stream("pattern", n))
	case 4:
		for i := range b {
			b[i] = 0x80
		}
	}
	return b
}

// Stream is n deterministic bytes for a name.
func Stream(name string, n int) []byte {
	out := make([]byte, 0, n+32)
	for i := uint64(0); len(out) < n; i++ {
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], i)
		h := sha256.Sum256(append([]byte(name+"\x00"), c[:]...))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// Rand is an endless deterministic random source. After Limit bytes it
// panics with an engine.Failure: the code under test does not terminate.
type Rand struct {
	Name  string
	ctr   uint64
	buf   []byte
	N     int64
	Limit int64
	mu    sync.Mutex
}

// NewRand returns a stream named name.
func NewRand(name string) *Rand { return &Rand{Name: name, Limit: 1 << 22} }

func (r *Rand) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range p {
		if len(r.buf) == 0 {
			var c [8]byte
			binary.BigEndian.PutUint64(c[:], r.ctr)
			r.ctr++
			h := sha256.Sum256(append([]byte(r.Name+"\x00"), c[:]...))
			r.buf = h[:]
		}
		p[i] = r.buf[0]
		r.buf = r.buf[1:]
	}
	r.N += int64(len(p))
	if r.N > r.Limit {
		panic(engine.Failure{Key: "nontermination", Msg: "more than the budgeted random bytes were requested"})
	}
	return len(p), nil
}

// Script delivers Data, then Next (nil: ErrScript).
type Script struct {
	Data []byte
	Next io.Reader
	Off  int
}

// ErrScript is what an exhausted Script returns.
var ErrScript = errors.New("kit: random source failed")

func (s *Script) Read(p []byte) (int, error) {
	if s.Off < len(s.Data) {
		n := copy(p, s.Data[s.Off:])
		s.Off += n
		return n, nil
	}
	if s.Next == nil {
		return 0, ErrScript
	}
	return s.Next.Read(p)
}

// Const is a stream of 4096 equal bytes that goes on pseudo-randomly, so that
// an implementation that draws again for a value out of range ends.
type Const struct {
	C byte
	n int
	r *Rand
}

func (c *Const) Read(p []byte) (int, error) {
	if c.n >= 4096 {
		if c.r == nil {
			c.r = NewRand("after constant bytes")
		}
		return c.r.Read(p)
	}
	for i := range p {
		p[i] = c.C
	}
	c.n += len(p)
	return len(p), nil
}

// Counting wraps a source and counts.
type Counting struct {
	R     io.Reader
	Bytes int
	Calls int
}

func (c *Counting) Read(p []byte) (int, error) {
	n, err := c.R.Read(p)
	c.Bytes += n
	c.Calls++
	return n, err
}

// Chunked delivers at most Max bytes per call. Every Zero'th call returns (0, nil).
type Chunked struct {
	R    io.Reader
	Max  int
	Zero int
	n    int
}

func (c *Chunked) Read(p []byte) (int, error) {
	c.n++
	if c.Zero > 0 && c.n%c.Zero == 0 {
		return 0, nil
	}
	if len(p) > c.Max {
		p = p[:c.Max]
	}
	return c.R.Read(p)
}

// NonceBytes is the stream from which the present implementation derives
// nonce k. Harnesses that use it calibrate first and do without it when the
// code maps bytes to nonces in another way.
func NonceBytes(k *big.Int) []byte {
	return append(make([]byte, 8), ref.B32(new(big.Int).Sub(k, ref.One))...)
}

var (
	calOnce sync.Once
	calOK   bool
)

// NonceControl reports whether NonceBytes yields exactly the nonce wanted.
func NonceControl() bool {
	calOnce.Do(func() {
		defer func() { recover() }()
		d := Keys[0].D
		k := H("1234567890ABCDEF1234567890ABCDEF1234567890ABCDEF1234567890ABCDEF")
		r, s, err := sm2.SignDigestRS(&Script{Data: NonceBytes(k), Next: NewRand("cal")}, Priv(d), Stream("cal-digest", 32))
		calOK = err == nil && ref.RecoverK(d, r, s).Cmp(k) == 0
	})
	return calOK
}

func b64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

var rsaCache [7]atomic.Pointer[rsa.PrivateKey]

// RSA returns fixed RSA key i (0,1: 2048 bits; 2: 1024; 3: 1536; 4-6: 3, 4 and 5 primes).
func RSA(i int) *rsa.PrivateKey {
	if k := rsaCache[i].Load(); k != nil {
		return k
	}
	k, err := stdx509.ParsePKCS1PrivateKey(b64([]string{rsa2048a, rsa2048b, rsa1024, rsa1536, rsaMulti3, rsaMulti4, rsaMulti5}[i]))
	if err != nil {
		panic(err)
	}
	if !rsaCache[i].CompareAndSwap(nil, k) {
		return rsaCache[i].Load()
	}
	return k
}

// ECDSA returns the key with scalar d on c.
func ECDSA(c elliptic.Curve, d *big.Int) *ecdsa.PrivateKey {
	x, y := c.ScalarBaseMult(d.Bytes())
	return &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c, X: x, Y: y}, D: new(big.Int).Set(d)}
}

// Ed returns a fixed Ed25519 key.
func Ed(i byte) ed25519.PrivateKey {
	s := Stream("ed25519", 32)
	s[0] ^= i
	return ed25519.NewKeyFromSeed(s)
}

// Signer adapts an SM2 key to crypto.Signer: it signs the bytes it is given
// as an SM2 message, the way x509.Certificate.CreateCRL uses SM2 keys.
type Signer struct {
	Key *sm2.PrivateKey
	UID []byte
	R   io.Reader // nil: the caller's
}

func (s *Signer) Public() crypto.PublicKey { return s.Key.Public() }
func (s *Signer) Sign(rand io.Reader, msg []byte, opts crypto.SignerOpts) ([]byte, error) {
	if s.R != nil {
		rand = s.R
	}
	return sm2.Sign(rand, s.Key, msg, s.UID)
}

// Clone copies b.
func Clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}
