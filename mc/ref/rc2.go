package ref

import (
	"crypto/cipher"
	"crypto/des"
	"crypto/hmac"
	"crypto/sha1"
	"errors"
	"math/big"
)

// piHex is PITABLE of RFC 2268 section 2.
const piHex = "d978f9c419ddb5ed28e9fd794aa0d89dc67e37832b76538e624c6488448bfba2" +
	"179a59f587b34f1361456d8d09817d32bd8f40eb86b77b0bf09521225c6b4e82" +
	"54d66593ce60b21c7356c014a78cf1dc1275ca1f3bbee4d1423dd430a33cb626" +
	"6fbf0eda4669075727f21d9bbc944303f811c7f690ef3ee706c3d52fc8661ed7" +
	"08e8eade8052eef784aa72ac354d6a2a961ad2715a154974 4b9fd05e0418a4ec" +
	"c2e0416e0f51cbcc2491af50a1f470399 97c3a8523b8b47afc02365b25559731" +
	"2d5dfa98e38a92ae05df2910676cbac9d300e6cfe19ea82c6316013f58e289a9" +
	"0d38341bab33ffb0bb480c5fb9b1cd2ec5f3db47e5a59c770aa62068fe7fc1ad"

var pi = func() []byte {
	s := ""
	for _, c := range piHex {
		if c != ' ' {
			s += string(c)
		}
	}
	b := unhex(s)
	if len(b) != 256 {
		panic("pitable")
	}
	return b
}()

// RC2 is RFC 2268, written from the text.
type RC2 struct{ k [64]uint16 }

func NewRC2(key []byte, t1 int) *RC2 {
	l := make([]byte, 128)
	t := len(key)
	copy(l, key)
	for i := t; i < 128; i++ {
		l[i] = pi[(int(l[i-1])+int(l[i-t]))%256]
	}
	t8 := (t1 + 7) / 8
	var m int = 1 << uint(8+t1-8*t8)
	tm := byte(255 % m)
	l[128-t8] = pi[l[128-t8]&tm]
	for i := 127 - t8; i >= 0; i-- {
		l[i] = pi[l[i+1]^l[i+t8]]
	}
	c := &RC2{}
	for i := range c.k {
		c.k[i] = uint16(l[2*i]) + 256*uint16(l[2*i+1])
	}
	return c
}

func (c *RC2) BlockSize() int { return 8 }

var rc2s = [4]uint{1, 2, 3, 5}

func (c *RC2) Encrypt(dst, src []byte) {
	var r [4]uint16
	for i := range r {
		r[i] = uint16(src[2*i]) | uint16(src[2*i+1])<<8
	}
	j := 0
	mix := func() {
		for i := 0; i < 4; i++ {
			r[i] = r[i] + c.k[j] + (r[(i+3)%4] & r[(i+2)%4]) + (^r[(i+3)%4] & r[(i+1)%4])
			j++
			r[i] = r[i]<<rc2s[i] | r[i]>>(16-rc2s[i])
		}
	}
	mash := func() {
		for i := 0; i < 4; i++ {
			r[i] += c.k[r[(i+3)%4]&63]
		}
	}
	for i := 0; i < 5; i++ {
		mix()
	}
	mash()
	for i := 0; i < 6; i++ {
		mix()
	}
	mash()
	for i := 0; i < 5; i++ {
		mix()
	}
	for i := range r {
		dst[2*i], dst[2*i+1] = byte(r[i]), byte(r[i]>>8)
	}
}

func (c *RC2) Decrypt(dst, src []byte) {
	var r [4]uint16
	for i := range r {
		r[i] = uint16(src[2*i]) | uint16(src[2*i+1])<<8
	}
	j := 63
	mix := func() {
		for i := 3; i >= 0; i-- {
			r[i] = r[i]>>rc2s[i] | r[i]<<(16-rc2s[i])
			r[i] = r[i] - c.k[j] - (r[(i+3)%4] & r[(i+2)%4]) - (^r[(i+3)%4] & r[(i+1)%4])
			j--
		}
	}
	mash := func() {
		for i := 3; i >= 0; i-- {
			r[i] -= c.k[r[(i+3)%4]&63]
		}
	}
	for i := 0; i < 5; i++ {
		mix()
	}
	mash()
	for i := 0; i < 6; i++ {
		mix()
	}
	mash()
	for i := 0; i < 5; i++ {
		mix()
	}
	for i := range r {
		dst[2*i], dst[2*i+1] = byte(r[i]), byte(r[i]>>8)
	}
}

// BMP is the big-endian UCS-2 password with terminator (RFC 7292 B.1).
func BMP(s string) []byte {
	var out []byte
	for _, r := range s {
		out = append(out, byte(r>>8), byte(r))
	}
	return append(out, 0, 0)
}

// KDF12 is RFC 7292 appendix B.2 with SHA-1.
func KDF12(id byte, salt, pw []byte, iter, n int) []byte {
	const u, v = 20, 64
	rep := func(b []byte) []byte {
		if len(b) == 0 {
			return nil
		}
		l := v * ((len(b) + v - 1) / v)
		out := make([]byte, l)
		for i := range out {
			out[i] = b[i%len(b)]
		}
		return out
	}
	I := append(append([]byte{}, rep(salt)...), rep(pw)...)
	var out []byte
	for len(out) < n {
		D := make([]byte, v)
		for i := range D {
			D[i] = id
		}
		h := sha1.Sum(append(D, I...))
		for i := 1; i < iter; i++ {
			h = sha1.Sum(h[:])
		}
		out = append(out, h[:]...)
		// I_j = (I_j + B + 1) mod 2^512, bytewise with carry
		for j := 0; j+v <= len(I); j += v {
			c := 1
			for k := v - 1; k >= 0; k-- {
				c += int(I[j+k]) + int(h[k%u])
				I[j+k] = byte(c)
				c >>= 8
			}
		}
	}
	return out[:n]
}

// ShortCarry reports whether deriving n bytes meets an I_j whose new value
// has a leading zero byte (the case big-integer implementations must pad).
func ShortCarry(id byte, salt, pw []byte, iter, n int) bool {
	const v = 64
	S := append([]byte{}, salt...)
	_ = S
	D := make([]byte, v)
	for i := range D {
		D[i] = id
	}
	rep := func(b []byte) []byte {
		l := v * ((len(b) + v - 1) / v)
		out := make([]byte, l)
		for i := range out {
			out[i] = b[i%len(b)]
		}
		return out
	}
	I := append(rep(salt), rep(pw)...)
	if n <= 20 {
		return false
	}
	h := sha1.Sum(append(D, I...))
	for i := 1; i < iter; i++ {
		h = sha1.Sum(h[:])
	}
	B := make([]byte, v)
	for i := range B {
		B[i] = h[i%20]
	}
	for j := 0; j+v <= len(I); j += v {
		s := new(big.Int).SetBytes(I[j : j+v])
		s.Add(s, new(big.Int).SetBytes(B))
		s.Add(s, One)
		b := s.FillBytes(make([]byte, v+1))
		if b[1] == 0 {
			return true
		}
	}
	return false
}

var (
	OIDData      = OID(1, 2, 840, 113549, 1, 7, 1)
	OIDEncData   = OID(1, 2, 840, 113549, 1, 7, 6)
	OIDCertBag   = OID(1, 2, 840, 113549, 1, 12, 10, 1, 3)
	OIDKeyBag    = OID(1, 2, 840, 113549, 1, 12, 10, 1, 2)
	OIDX509Cert  = OID(1, 2, 840, 113549, 1, 9, 22, 1)
	OIDPBE3DES   = OID(1, 2, 840, 113549, 1, 12, 1, 3)
	OIDPBERC240  = OID(1, 2, 840, 113549, 1, 12, 1, 6)
	OIDSHA1      = OID(1, 3, 14, 3, 2, 26)
	OIDLocalKey  = OID(1, 2, 840, 113549, 1, 9, 21)
	OIDFriendly  = OID(1, 2, 840, 113549, 1, 9, 20)
	OIDMSCSPName = OID(1, 3, 6, 1, 4, 1, 311, 17, 1)
)

// PBE is password encryption as PKCS #12 defines it.
func PBE(oid, plain, salt, pw []byte, iter int, dec bool) ([]byte, error) {
	var blk cipher.Block
	iv := KDF12(2, salt, pw, iter, 8)
	switch string(oid) {
	case string(OIDPBE3DES):
		b, err := des.NewTripleDESCipher(KDF12(1, salt, pw, iter, 24))
		if err != nil {
			return nil, err
		}
		blk = b
	case string(OIDPBERC240):
		blk = NewRC2(KDF12(1, salt, pw, iter, 5), 40)
	default:
		return nil, errors.New("unknown PBE")
	}
	if !dec {
		n := 8 - len(plain)%8
		in := append([]byte{}, plain...)
		for i := 0; i < n; i++ {
			in = append(in, byte(n))
		}
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(in, in)
		return in, nil
	}
	if len(plain) == 0 || len(plain)%8 != 0 {
		return nil, errors.New("length")
	}
	out := make([]byte, len(plain))
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(out, plain)
	n := int(out[len(out)-1])
	if n < 1 || n > 8 {
		return nil, errors.New("padding")
	}
	for _, b := range out[len(out)-n:] {
		if int(b) != n {
			return nil, errors.New("padding")
		}
	}
	return out[:len(out)-n], nil
}

func MAC12(content, salt, pw []byte, iter int) []byte {
	m := hmac.New(sha1.New, KDF12(3, salt, pw, iter, 20))
	m.Write(content)
	return m.Sum(nil)
}
