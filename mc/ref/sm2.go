package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/big"
)

func bi(h string) *big.Int {
	n, ok := new(big.Int).SetString(h, 16)
	if !ok {
		panic(h)
	}
	return n
}

var (
	P  = bi("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	A  = bi("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	B  = bi("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	N  = bi("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	Gx = bi("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	Gy = bi("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")

	One = big.NewInt(1)
	G   = Point{Gx, Gy}
)

// Point is affine; X == nil is the point at infinity.
type Point struct{ X, Y *big.Int }

func (p Point) Inf() bool { return p.X == nil }

func (p Point) Equal(q Point) bool {
	if p.Inf() || q.Inf() {
		return p.Inf() == q.Inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func modp(x *big.Int) *big.Int { return x.Mod(x, P) }

// OnCurve: 0 <= x,y < p and y^2 = x^3 + ax + b.
func OnCurve(p Point) bool {
	if p.Inf() || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	return modp(l).Cmp(rhs(p.X)) == 0
}

func rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	t := new(big.Int).Mul(A, x)
	r.Add(r, t)
	r.Add(r, B)
	return modp(r)
}

// Lift returns a point with the given x, if there is one.
func Lift(x *big.Int) (Point, bool) {
	y := new(big.Int).ModSqrt(rhs(x), P)
	if y == nil {
		return Point{}, false
	}
	return Point{new(big.Int).Set(x), y}, true
}

func Neg(p Point) Point {
	if p.Inf() {
		return p
	}
	y := new(big.Int).Sub(P, p.Y)
	return Point{p.X, modp(y)}
}

// Add is the textbook affine group law (it never uses b).
func Add(p, q Point) Point {
	if p.Inf() {
		return q
	}
	if q.Inf() {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if modp(s).Sign() == 0 {
			return Point{}
		}
		num := new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3))
		num.Add(num, A)
		den := new(big.Int).Lsh(p.Y, 1)
		l = num.Mul(num, den.ModInverse(modp(den), P))
	} else {
		num := new(big.Int).Sub(q.Y, p.Y)
		den := new(big.Int).Sub(q.X, p.X)
		l = num.Mul(num, den.ModInverse(modp(den), P))
	}
	modp(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	modp(x)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	modp(y)
	return Point{x, y}
}

// Jacobian arithmetic, for speed only; self-tested against the affine law.
type jac struct{ x, y, z *big.Int }

func (j jac) dbl() jac {
	if j.z.Sign() == 0 || j.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	y2 := modp(new(big.Int).Mul(j.y, j.y))
	s := modp(new(big.Int).Lsh(new(big.Int).Mul(j.x, y2), 2))
	z2 := modp(new(big.Int).Mul(j.z, j.z))
	// m = 3(x-z2)(x+z2), a = -3
	m := new(big.Int).Mul(new(big.Int).Sub(j.x, z2), new(big.Int).Add(j.x, z2))
	m.Mul(m, big.NewInt(3))
	modp(m)
	x := new(big.Int).Mul(m, m)
	x.Sub(x, new(big.Int).Lsh(s, 1))
	modp(x)
	y := new(big.Int).Mul(m, new(big.Int).Sub(s, x))
	y4 := new(big.Int).Mul(y2, y2)
	y.Sub(y, new(big.Int).Lsh(y4, 3))
	modp(y)
	z := new(big.Int).Mul(j.y, j.z)
	z.Lsh(z, 1)
	modp(z)
	return jac{x, y, z}
}

func (j jac) addAffine(p Point) jac {
	if j.z.Sign() == 0 {
		return jac{new(big.Int).Set(p.X), new(big.Int).Set(p.Y), big.NewInt(1)}
	}
	z2 := modp(new(big.Int).Mul(j.z, j.z))
	u2 := modp(new(big.Int).Mul(p.X, z2))
	s2 := modp(new(big.Int).Mul(p.Y, modp(new(big.Int).Mul(z2, j.z))))
	h := modp(new(big.Int).Sub(u2, j.x))
	r := modp(new(big.Int).Sub(s2, j.y))
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return j.dbl()
		}
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	h2 := modp(new(big.Int).Mul(h, h))
	h3 := modp(new(big.Int).Mul(h2, h))
	v := modp(new(big.Int).Mul(j.x, h2))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, h3)
	x.Sub(x, new(big.Int).Lsh(v, 1))
	modp(x)
	y := new(big.Int).Mul(r, new(big.Int).Sub(v, x))
	y.Sub(y, new(big.Int).Mul(j.y, h3))
	modp(y)
	z := modp(new(big.Int).Mul(j.z, h))
	return jac{x, y, z}
}

func (j jac) affine() Point {
	if j.z.Sign() == 0 {
		return Point{}
	}
	zi := new(big.Int).ModInverse(j.z, P)
	zi2 := modp(new(big.Int).Mul(zi, zi))
	x := modp(new(big.Int).Mul(j.x, zi2))
	y := modp(new(big.Int).Mul(j.y, modp(new(big.Int).Mul(zi2, zi))))
	return Point{x, y}
}

// Mul is [k]p for k >= 0 (k is not reduced).
func Mul(k *big.Int, p Point) Point {
	r := jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	if p.Inf() {
		return p
	}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.addAffine(p)
		}
	}
	return r.affine()
}

func MulG(k *big.Int) Point { return Mul(k, G) }

// B32 is the 32-byte big-endian encoding.
func B32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

var DefaultUID = []byte("1234567812345678")

// Z is the identity hash of GB/T 32918.2 section 5.5.
func Z(pub Point, uid []byte) []byte {
	if len(uid) == 0 {
		uid = DefaultUID
	}
	var entl [2]byte
	binary.BigEndian.PutUint16(entl[:], uint16(len(uid)*8))
	return SM3(entl[:], uid, B32(A), B32(B), B32(Gx), B32(Gy), B32(pub.X), B32(pub.Y))
}

// Digest is e as bytes: SM3(Z || M).
func Digest(pub Point, uid, msg []byte) []byte { return SM3(Z(pub, uid), msg) }

func modn(x *big.Int) *big.Int { return x.Mod(x, N) }

// SignK is the signature for nonce k, or ok=false if k is degenerate.
func SignK(d, k *big.Int, digest []byte) (r, s *big.Int, ok bool) {
	e := new(big.Int).SetBytes(digest)
	r = modn(new(big.Int).Add(e, MulG(k).X))
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(N) == 0 {
		return nil, nil, false
	}
	inv := new(big.Int).ModInverse(new(big.Int).Add(d, One), N)
	s = new(big.Int).Sub(k, new(big.Int).Mul(r, d))
	s.Mul(s, inv)
	modn(s)
	if s.Sign() == 0 {
		return nil, nil, false
	}
	return r, s, true
}

// RecoverK is the nonce a signature was made with.
func RecoverK(d, r, s *big.Int) *big.Int {
	k := new(big.Int).Mul(s, new(big.Int).Add(d, One))
	k.Add(k, new(big.Int).Mul(r, d))
	return modn(k)
}

// VerifyDigest is GB/T 32918.2 section 7.
func VerifyDigest(pub Point, digest []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	t := modn(new(big.Int).Add(r, s))
	if t.Sign() == 0 {
		return false
	}
	q := Add(MulG(s), Mul(t, pub))
	if q.Inf() {
		return false
	}
	e := new(big.Int).SetBytes(digest)
	return modn(e.Add(e, q.X)).Cmp(r) == 0
}

// KDF of GB/T 32918.4 section 5.4.3.
func KDF(zed []byte, n int) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		var c [4]byte
		binary.BigEndian.PutUint32(c[:], ct)
		out = append(out, SM3(zed, c[:])...)
	}
	return out[:n]
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// EncryptK is 0x04||C1||C3||C2 for nonce k; ok=false if the key stream of a
// non-empty message is all zero.
func EncryptK(pub Point, k *big.Int, msg []byte) ([]byte, bool) {
	return EncryptShared(MulG(k), Mul(k, pub), msg)
}

// EncryptShared is the ciphertext with the given C1 and shared point.
func EncryptShared(c1, kp Point, msg []byte) ([]byte, bool) {
	t := KDF(append(B32(kp.X), B32(kp.Y)...), len(msg))
	if len(msg) > 0 && allZero(t) {
		return nil, false
	}
	out := append([]byte{4}, B32(c1.X)...)
	out = append(out, B32(c1.Y)...)
	out = append(out, SM3(B32(kp.X), msg, B32(kp.Y))...)
	for i := range msg {
		out = append(out, t[i]^msg[i])
	}
	return out, true
}

// Decrypt is the standard's decryption of 0x04||C1||C3||C2.
func Decrypt(d *big.Int, ct []byte) ([]byte, error) {
	if len(ct) < 97 || ct[0] != 4 {
		return nil, errors.New("format")
	}
	c1 := Point{new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])}
	if !OnCurve(c1) {
		return nil, errors.New("C1 not on curve")
	}
	q := Mul(d, c1)
	if q.Inf() {
		return nil, errors.New("infinity")
	}
	c2 := ct[97:]
	t := KDF(append(B32(q.X), B32(q.Y)...), len(c2))
	if len(c2) > 0 && allZero(t) {
		return nil, errors.New("key stream")
	}
	m := make([]byte, len(c2))
	for i := range m {
		m[i] = c2[i] ^ t[i]
	}
	if !bytes.Equal(SM3(B32(q.X), m, B32(q.Y)), ct[65:97]) {
		return nil, errors.New("hash")
	}
	return m, nil
}

// DERSig is the canonical DER of SEQUENCE{r, s}.
func DERSig(r, s *big.Int) []byte {
	return TLV(0x30, append(DERInt(r), DERInt(s)...))
}

// LiftY returns a point with the given y, if there is one: a root of the
// cubic x^3 + ax + (b - y^2), found in gcd(x^p - x, cubic).
func LiftY(y *big.Int) (Point, bool) {
	c := new(big.Int).Mul(y, y)
	c.Sub(B, c)
	modp(c)
	// polynomials of degree < 3 modulo x^3 = -ax - c
	type poly [3]*big.Int
	z := func() *big.Int { return new(big.Int) }
	mul := func(f, g poly) poly {
		var w [5]*big.Int
		for i := range w {
			w[i] = z()
		}
		for i := range f {
			for j := range g {
				w[i+j].Add(w[i+j], z().Mul(f[i], g[j]))
			}
		}
		for i := 4; i >= 3; i-- {
			w[i-2].Sub(w[i-2], z().Mul(A, w[i]))
			w[i-3].Sub(w[i-3], z().Mul(c, w[i]))
		}
		return poly{modp(w[0]), modp(w[1]), modp(w[2])}
	}
	pow := func(f poly, e *big.Int) poly {
		r := poly{big.NewInt(1), z(), z()}
		for i := e.BitLen() - 1; i >= 0; i-- {
			r = mul(r, r)
			if e.Bit(i) == 1 {
				r = mul(r, f)
			}
		}
		return r
	}
	norm := func(f []*big.Int) []*big.Int {
		for len(f) > 0 && f[len(f)-1].Sign() == 0 {
			f = f[:len(f)-1]
		}
		return f
	}
	gcd := func(f, g []*big.Int) []*big.Int {
		f, g = norm(f), norm(g)
		for len(g) > 0 {
			inv := z().ModInverse(g[len(g)-1], P)
			f = append([]*big.Int{}, f...)
			for len(f) >= len(g) {
				q := modp(z().Mul(f[len(f)-1], inv))
				off := len(f) - len(g)
				for i := range g {
					f[off+i] = modp(z().Sub(f[off+i], z().Mul(q, g[i])))
				}
				f = norm(f)
			}
			f, g = g, f
		}
		return f
	}
	cubic := []*big.Int{c, A, z(), big.NewInt(1)}
	h := pow(poly{z(), big.NewInt(1), z()}, P)
	h[1] = modp(z().Sub(h[1], One))
	g := gcd(cubic, h[:])
	half := z().Rsh(P, 1)
	for s := int64(0); len(g) > 2 && s < 64; s++ { // split
		k := pow(poly{big.NewInt(s), big.NewInt(1), z()}, half)
		k[0] = modp(z().Sub(k[0], One))
		if d := gcd(g, k[:]); len(d) > 1 && len(d) < len(g) {
			g = d
		}
	}
	if len(g) != 2 {
		return Point{}, false
	}
	x := z().Mul(g[0], z().ModInverse(g[1], P))
	q := Point{modp(x.Neg(x)), new(big.Int).Set(y)}
	return q, OnCurve(q)
}

// Tiny lists points whose x (or y) has the given number of significant bytes.
func Tiny(bytes int, isY bool) Point {
	v := new(big.Int).Lsh(One, uint(8*(bytes-1)))
	for ; ; v.Add(v, One) {
		var q Point
		var ok bool
		if isY {
			q, ok = LiftY(v)
		} else {
			q, ok = Lift(v)
		}
		if ok {
			return q
		}
	}
}
