package ref

import (
	"bytes"
	"fmt"
	"math/big"
)

// SelfTest checks the reference models against published vectors.
func SelfTest() error {
	type v struct{ in, want string }
	for _, c := range []struct {
		in   []byte
		want string
	}{
		{[]byte("abc"), "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0"},
		{bytes.Repeat([]byte("abcd"), 16), "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732"},
		{nil, "1ab21d8355cfa17f8e61194831e81a8f22bec8c728fefb747ed035eb5082aa2b"},
	} {
		if !bytes.Equal(SM3(c.in), unhex(c.want)) {
			return fmt.Errorf("SM3(%q)", c.in)
		}
	}
	d := bi("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	pub := MulG(d)
	if pub.X.Cmp(bi("09F9DF311E5421A150DD7D161E4BC5C672179FAD1833FC076BB08FF356F35020")) != 0 ||
		pub.Y.Cmp(bi("CCEA490CE26775A52DC6EA718CC1AA600AED05FBF35E084A6632F6072DA9AD13")) != 0 {
		return fmt.Errorf("SM2 public key")
	}
	k := bi("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	dg := Digest(pub, nil, []byte("message digest"))
	r, s, ok := SignK(d, k, dg)
	if !ok || r.Cmp(bi("F5A03B0648D2C4630EEAC513E1BB81A15944DA3827D5B74143AC7EACEEE720B3")) != 0 ||
		s.Cmp(bi("B1B6AA29DF212FD8763182BC0D421CA1BB9038FD1F7F42D4840B69C485BBC1AA")) != 0 {
		return fmt.Errorf("SM2 signature vector: %x %x", r, s)
	}
	if !VerifyDigest(pub, dg, r, s) || VerifyDigest(pub, dg, s, r) {
		return fmt.Errorf("SM2 verify")
	}
	if RecoverK(d, r, s).Cmp(k) != 0 {
		return fmt.Errorf("nonce recovery")
	}
	msg := []byte("encryption standard")
	ct, ok := EncryptK(pub, k, msg)
	want := append([]byte{4}, unhex("04EBFC718E8D1798620432268E77FEB6415E2EDE0E073C0F4F640ECD2E149A73E858F9D81E5430A57B36DAAB8F950A3C64E6EE6A63094D99283AFF767E124DF059983C18F809E262923C53AEC295D30383B54E39D609D160AFCB1908D0BD876621886CA989CA9C7D58087307CA93092D651EFA")...)
	if !ok || !bytes.Equal(ct, want) {
		return fmt.Errorf("SM2 encryption vector: %x", ct)
	}
	if m, err := Decrypt(d, ct); err != nil || !bytes.Equal(m, msg) {
		return fmt.Errorf("SM2 decryption vector")
	}
	// Jacobian against affine arithmetic
	acc := Point{}
	for i := int64(0); i < 40; i++ {
		if !acc.Equal(MulG(big.NewInt(i))) {
			return fmt.Errorf("scalar multiple %d", i)
		}
		acc = Add(acc, G)
	}
	if !Mul(N, G).Inf() || !Mul(new(big.Int).Sub(N, One), G).Equal(Neg(G)) || !OnCurve(pub) {
		return fmt.Errorf("group order")
	}
	// RFC 2268 section 5
	for _, c := range []struct {
		key, pt, ct string
		t1          int
	}{
		{"0000000000000000", "0000000000000000", "ebb773f993278eff", 63},
		{"ffffffffffffffff", "ffffffffffffffff", "278b27e42e2f0d49", 64},
		{"3000000000000000", "1000000000000001", "30649edf9be7d2c2", 64},
		{"88", "0000000000000000", "61a8a244adacccf0", 64},
		{"88bca90e90875a", "0000000000000000", "6ccf4308974c267f", 64},
		{"88bca90e90875a7f0f79c384627bafb2", "0000000000000000", "1a807d272bbe5db1", 64},
		{"88bca90e90875a7f0f79c384627bafb2", "0000000000000000", "2269552ab0f85ca6", 128},
		{"88bca90e90875a7f0f79c384627bafb216f80a6f85920584c42fceb0be255daf1e", "0000000000000000", "5b78d3a43dfff1f1", 129},
	} {
		b := make([]byte, 8)
		x := NewRC2(unhex(c.key), c.t1)
		x.Encrypt(b, unhex(c.pt))
		if !bytes.Equal(b, unhex(c.ct)) {
			return fmt.Errorf("RC2 vector %s", c.key)
		}
		x.Decrypt(b, b)
		if !bytes.Equal(b, unhex(c.pt)) {
			return fmt.Errorf("RC2 inverse %s", c.key)
		}
	}
	// PKCS #12 KDF vectors (smeg / queeg)
	if !bytes.Equal(KDF12(1, unhex("0A58CF64530D823F"), unhex("0073006D006500670000"), 1, 24), unhex("8AAAE6297B6CB04642AB5B077851284EB7128F1A2A7FBCA3")) ||
		!bytes.Equal(KDF12(2, unhex("0A58CF64530D823F"), unhex("0073006D006500670000"), 1, 8), unhex("79993DFE048D3B76")) ||
		!bytes.Equal(KDF12(3, unhex("3D83C0E4546AC140"), unhex("0073006D006500670000"), 1, 20), unhex("8D967D88F6CAA9D714800AB3D48051D63F73A312")) ||
		!bytes.Equal(KDF12(1, unhex("1682C0FC5B3F7EC5"), unhex("0071007500650065006700"+"00"), 1000, 24)[:8], unhex("483DD6E919D7DE2E")) {
		return fmt.Errorf("PKCS #12 KDF vector")
	}
	if !bytes.Equal(OID(1, 2, 840, 113549), unhex("06062a864886f70d")) {
		return fmt.Errorf("OID")
	}
	for _, n := range []int64{0, 1, 127, 128, 255, 256, -1, -128, -129, 65535} {
		nd := Parse(Int(n), 0)
		if len(nd) != 1 {
			return fmt.Errorf("INTEGER %d", n)
		}
	}
	return must(bytes.Equal(Int(-129), unhex("0202ff7f")) && bytes.Equal(Int(128), unhex("02020080")), "INTEGER")
}
