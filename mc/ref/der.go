package ref

import "math/big"

// TLV encodes one DER element.
func TLV(tag byte, body ...[]byte) []byte {
	var c []byte
	for _, b := range body {
		c = append(c, b...)
	}
	out := []byte{tag}
	n := len(c)
	switch {
	case n < 128:
		out = append(out, byte(n))
	case n < 256:
		out = append(out, 0x81, byte(n))
	case n < 65536:
		out = append(out, 0x82, byte(n>>8), byte(n))
	case n < 1<<24:
		out = append(out, 0x83, byte(n>>16), byte(n>>8), byte(n))
	default:
		out = append(out, 0x84, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return append(out, c...)
}

func Seq(body ...[]byte) []byte { return TLV(0x30, body...) }
func Set(body ...[]byte) []byte { return TLV(0x31, body...) }
func Oct(b []byte) []byte       { return TLV(0x04, b) }
func Ctx(n int, body ...[]byte) []byte {
	return TLV(byte(0xa0|n), body...)
}
func Null() []byte           { return []byte{5, 0} }
func BitStr(b []byte) []byte { return TLV(3, []byte{0}, b) }

// DERInt encodes an INTEGER (two's complement, minimal).
func DERInt(x *big.Int) []byte {
	var b []byte
	if x.Sign() >= 0 {
		b = x.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
	} else {
		n := uint(x.BitLen()/8 + 1)
		m := new(big.Int).Lsh(One, 8*n)
		b = m.Add(m, x).Bytes()
		for len(b) > 1 && b[0] == 0xff && b[1]&0x80 != 0 {
			b = b[1:]
		}
	}
	return TLV(2, b)
}

func Int(n int64) []byte { return DERInt(big.NewInt(n)) }

// OID encodes an OBJECT IDENTIFIER.
func OID(arcs ...int) []byte {
	b := []byte{byte(arcs[0]*40 + arcs[1])}
	for _, a := range arcs[2:] {
		var t []byte
		for {
			t = append([]byte{byte(a & 0x7f)}, t...)
			a >>= 7
			if a == 0 {
				break
			}
		}
		for i := 0; i < len(t)-1; i++ {
			t[i] |= 0x80
		}
		b = append(b, t...)
	}
	return TLV(6, b)
}

// Node is a parsed BER/DER element.
type Node struct {
	Tag      byte
	Hdr      int // header length
	Raw      []byte
	Body     []byte
	Off      int // offset of Raw in the parsed input
	Children []*Node
}

// Parse reads the elements of b (definite lengths, single-byte tags). It
// returns nil if b is not a concatenation of such elements.
func Parse(b []byte, off int) []*Node {
	var out []*Node
	for len(b) > 0 {
		if len(b) < 2 || b[0]&0x1f == 0x1f {
			return nil
		}
		n := int(b[1])
		h := 2
		if n >= 0x80 {
			k := n & 0x7f
			if k == 0 || k > 4 || len(b) < 2+k {
				return nil
			}
			n = 0
			for i := 0; i < k; i++ {
				n = n<<8 | int(b[2+i])
			}
			h = 2 + k
		}
		if n < 0 || len(b) < h+n {
			return nil
		}
		nd := &Node{Tag: b[0], Hdr: h, Raw: b[:h+n], Body: b[h : h+n], Off: off}
		if b[0]&0x20 != 0 {
			nd.Children = Parse(nd.Body, off+h)
		}
		out = append(out, nd)
		b = b[h+n:]
		off += h + n
	}
	return out
}

// At follows child indices.
func (n *Node) At(idx ...int) *Node {
	for _, i := range idx {
		if n == nil || i >= len(n.Children) {
			return nil
		}
		n = n.Children[i]
	}
	return n
}
