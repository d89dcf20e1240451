package props

import (
	"bytes"
	stdx509 "crypto/x509"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"unicode/utf8"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/x509"
)

func init() {
	engine.Register(&engine.Prop{ID: "C26", Harnesses: []engine.Harness{
		{Name: "strings", Rule: "names: 12 string types x every byte value alone, first, last and in the middle; every 16-bit unit and every pair of surrogates-and-neighbours in BMP strings; every 2-byte UTF-8 combination", Run: c26Strings},
		{Name: "times", Rule: "validity times: 8 well-formed ones x every position x 19 characters, deleted and doubled, every year 1950..2049 as UTCTime and 0..9999 as GeneralizedTime, every second/minute/hour/day/month value 00..99", Run: c26Times},
		{Name: "altnames", Rule: "alternative names: every string of length up to 4 over 9 characters and every byte value as e-mail, DNS name and URI host; IP addresses of every length 0..40; every name tag", Run: c26AltNames},
		{Name: "constraints", Rule: "name constraints: every string of length up to 5 (quick) or 6 (thorough) over 8 characters and every byte value in 6 places as e-mail constraint; up to 4 as DNS and URI constraint; every mask of 4 and 16 bytes with one free byte; permitted, excluded or both", Run: c26Constraints},
		{Name: "bits", Rule: "key usage bit strings of every 1-byte value and every 2-byte value x unused bits; basic constraints x 7 booleans x 16 path lengths x trailing parts; versions -3..6 and absent; critical flags, signature padding bits, unique identifiers (12 x 12 forms x 3 versions x 0..4 extensions), serial numbers of every length 1..40 and sign", Run: c26Bits},
		{Name: "extensions", Rule: "every ordered pair of 32 extension values (well-formed and not) x criticality of each: recorded, recognised and reported as unhandled as crypto/x509 does", Run: c26Extensions},
		{Name: "keys", Rule: "subject keys: DSA with 20 parameter variants, RSA with NULL, absent and other parameters, Ed25519 of every length 0..70, EC with every point form: same key, or error", Run: c26Keys},
		{Name: "requests", Rule: "requests: every ordered pair of 32 extension values x criticality x subject or none, in one list, two sets or two attributes, each alone with 11 arrangements of attributes: as crypto/x509 reads it", Run: c26Requests},
		{Name: "lists", Rule: "revocation lists: 6 versions x 5 this x 5 next times x 21 entry lists x 16 extension lists: as crypto/x509 reads it", Run: c26Lists},
		{Name: "armour", Rule: "revocation lists: 6 texts x 5 places in or beside a list x 14 kinds of PEM around it: only an input that begins with a list's armour is unwrapped, as crypto/x509 does", Run: c26Armour},
		{Name: "chains", Rule: "every sequence of up to 3 of 12 pieces (certificates of several kinds, padding, fragments, other structures): read as the certificates in order exactly if every piece is one", Run: c26Chains},
		{Name: "equal", Rule: "3 certificates, every one-bit change of each that is read and 5 others: Equal holds for every pair exactly if the encodings are the same; none and itself", Run: c26Equal},
		{Name: "tree", Rule: "3 certificates, 2 requests and 2 revocation lists x every element x 21 structural changes: what crypto/x509 reads is read with the same contents, and what it refuses is refused (but for listed leniencies)", Run: c26Tree},
	}})
}

// c26Lenient are reasons of crypto/x509 to refuse what this library, like the
// crypto/x509 it is derived from, accepts.
var c26Lenient = []string{
	"incorrectly marked critical", "duplicate extension", "duplicate requested extension", // allowed by the library
	"IPv4-mapped IPv6 address",
	`constraint "."`,    // the empty domain
	"invalid BMPString", // surrogates and non-characters
}

// c26Cert is a version 3 certificate with an Ed25519 key; parts left nil are the usual ones.
type c26Parts struct {
	version, serial, issuer, validity, subject, spki []byte
	exts                                             [][]byte
	ids                                              [][]byte // unique identifiers
}

var c26SPKI []byte

func (p c26Parts) der() []byte {
	if c26SPKI == nil {
		c26SPKI = spkiOf(kit.Ed(0).Public())
	}
	or := func(b, d []byte) []byte {
		if b == nil {
			return d
		}
		return b
	}
	ai := ref.Seq(ref.OID(1, 3, 101, 112))
	body := [][]byte{or(p.version, ref.Ctx(0, ref.Int(2))), or(p.serial, ref.Int(7)), ai, or(p.issuer, nameCN("i")),
		or(p.validity, ref.Seq(ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x17, []byte("400101000000Z")))), or(p.subject, nameCN("s")), or(p.spki, c26SPKI)}
	body = append(body, p.ids...)
	if len(p.exts) > 0 {
		body = append(body, ref.Ctx(3, ref.Seq(p.exts...)))
	}
	return ref.Seq(ref.Seq(body...), ai, ref.BitStr(make([]byte, 64)))
}

// c26Judge compares the two readings of a certificate; ok tells whether it was read.
func c26Judge(t *engine.T, what string, der []byte) bool {
	in := kit.Clone(der)
	c, err := x509.ParseCertificate(in)
	t.Step(1)
	t.Check(bytes.Equal(in, der), "input", "%s: the input was changed", what)
	s, serr := stdx509.ParseCertificate(swapSPKI(der))
	if err != nil {
		t.Check(c == nil, "result-with-error", "%s: certificate returned with error %v", what, err)
		t.Check(serr != nil || c26OddName(der), "refused", "%s: refused (%v), read by crypto/x509: %x", what, err, der)
		return false
	}
	if serr != nil {
		t.Check(c26Allowed(what, serr), "accepted", "%s: read, refused by crypto/x509 (%v): %x", what, serr, der)
		return true
	}
	if d := diffViews(certView(c), stdView(s)); d != "" {
		t.Fail("other", "%s: compared with crypto/x509 it has %s: %x", what, d, der)
	}
	return true
}

func c26Allowed(what string, err error) bool {
	if strings.HasSuffix(what, "changed by 1") && strings.Contains(err.Error(), "invalid certificate policies") {
		return true // a policy named twice
	}
	for _, l := range c26Lenient {
		if strings.Contains(err.Error(), l) {
			return true
		}
	}
	return false
}

// c26OddName tells whether a name in the certificate has a value that is not
// of a string type the library knows; crypto/x509 skips those.
func c26OddName(der []byte) bool {
	n := ref.Parse(der, 0)
	if len(n) == 0 || n[0].At(0) == nil {
		return false
	}
	for _, name := range n[0].At(0).Children {
		if name.Tag != 0x30 {
			continue
		}
		for _, rdn := range name.Children {
			if rdn.Tag != 0x31 {
				continue
			}
			for _, at := range rdn.Children {
				if v := at.At(1); v != nil && !bytes.Contains([]byte{0x0c, 0x12, 0x13, 0x14, 0x16, 0x1e}, []byte{v.Tag}) {
					return true
				}
			}
		}
	}
	return false
}

// c26String decodes an ASN.1 string by the standards; sure is false where
// implementations differ.
func c26String(tag byte, b []byte) (vals []string, ok, sure bool) {
	all := func(f func(c byte) bool) bool {
		for _, c := range b {
			if !f(c) {
				return false
			}
		}
		return true
	}
	ascii := all(func(c byte) bool { return c < 0x80 })
	switch tag {
	case 0x0c:
		return []string{string(b)}, utf8.Valid(b), true
	case 0x12:
		return []string{string(b)}, all(func(c byte) bool { return c == ' ' || c >= '0' && c <= '9' }), true
	case 0x13:
		return []string{string(b)}, all(func(c byte) bool {
			return c != 0 && strings.Contains("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?*&", string([]byte{c})) && c < 0x80
		}), true
	case 0x14:
		l1 := ""
		for _, c := range b {
			l1 += string(rune(c))
		}
		return []string{string(b), l1}, true, ascii
	case 0x16:
		return []string{string(b)}, ascii, true
	case 0x1e:
		if len(b)%2 != 0 {
			return nil, false, true
		}
		if l := len(b); l >= 2 && b[l-1] == 0 && b[l-2] == 0 {
			b = b[:l-2]
		}
		out := ""
		sure = true
		for i := 0; i+1 < len(b); i += 2 {
			u := rune(b[i])<<8 | rune(b[i+1])
			switch {
			case u >= 0xd800 && u < 0xe000:
				sure = false
				v := rune(0)
				if i+3 < len(b) {
					v = rune(b[i+2])<<8 | rune(b[i+3])
				}
				if u < 0xdc00 && v >= 0xdc00 && v < 0xe000 {
					out += string((u-0xd800)<<10 + (v - 0xdc00) + 0x10000)
					i += 2
				} else {
					out += "\ufffd"
				}
			case u&0xfffe == 0xfffe || u >= 0xfdd0 && u <= 0xfdef:
				sure = false
				out += string(u)
			default:
				out += string(u)
			}
		}
		return []string{out}, true, sure
	}
	return nil, false, tag != 0x15 && (tag < 0x19 || tag > 0x1c) && tag != 4
}

var (
	c26Quoted = regexp.MustCompile(`^"((?:[\x01-\x08\x0b\x0c\x0e-\x21\x23-\x5b\x5d-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])*)"@(.*)$`)
	c26Atom   = regexp.MustCompile("(?s)^((?:[0-9A-Za-z!#$%&'*+\\-/=?^_`{|}~.]|\\\\.)+)@(.*)$")
	c26Label  = regexp.MustCompile(`^[\x21-\x2d\x2f-\x7e]+(\.[\x21-\x2d\x2f-\x7e]+)*$`)
)

// c26Mail tells whether an e-mail name constraint is well-formed.
func c26Mail(s string) bool {
	for _, c := range []byte(s) {
		if c >= 0x80 {
			return false
		}
	}
	if !strings.Contains(s, "@") {
		s = strings.TrimPrefix(s, ".")
		return s == "" || c26Label.MatchString(s)
	}
	m := c26Quoted.FindStringSubmatch(s)
	if m == nil {
		if m = c26Atom.FindStringSubmatch(s); m == nil {
			return false
		}
		l := ""
		for i := 0; i < len(m[1]); i++ {
			if m[1][i] == '\\' {
				i++
			}
			l += m[1][i : i+1]
		}
		if l[0] == '.' || l[len(l)-1] == '.' || strings.Contains(l, "..") {
			return false
		}
	}
	return m[2] == "" || c26Label.MatchString(m[2])
}

func c26Name(o []byte, tag byte, s []byte) []byte {
	return ref.Seq(ref.Set(ref.Seq(o, ref.TLV(tag, s))))
}

func c26Strings(t *engine.T) {
	kind := t.Pick("kind", 4)
	hi := t.Pick("hi", 256)
	t.Begin()
	n, ok := 0, 0
	try := func(tag byte, s []byte) {
		n++
		vals, good, sure := c26String(tag, s)
		for k, der := range [][]byte{c26Parts{subject: c26Name(ref.OID(2, 5, 4, 3), tag, s)}.der(), c26Parts{issuer: c26Name(ref.OID(2, 5, 4, 3), tag, s)}.der()} {
			if k == 1 && kind != 0 {
				break
			}
			c, err := x509.ParseCertificate(der)
			t.Step(1)
			t.Check(!sure || (err == nil) == good, "string", "string type %#x of bytes %x, well-formed %v: %v", tag, s, good, err)
			if err != nil {
				t.Check(c == nil, "result-with-error", "string type %#x of bytes %x", tag, s)
				continue
			}
			got := c.Subject.CommonName
			if k == 1 {
				got = c.Issuer.CommonName
			}
			has := len(vals) == 0
			for _, v := range vals {
				has = has || v == got
			}
			t.Check(has, "string", "string type %#x of bytes %x is %q, read as %q", tag, s, vals, got)
			if k == 0 {
				ok++
			}
		}
	}
	switch kind {
	case 0: // every byte in every string type
		for _, tag := range []byte{0x0c, 0x12, 0x13, 0x14, 0x15, 0x16, 0x19, 0x1a, 0x1b, 0x1c, 0x1e, 0x04} {
			b := byte(hi)
			for _, s := range [][]byte{{b}, {b, 'a'}, {'a', b}, {'1', b, '2'}, {'a', 'b', 'c', b}, {b, b}} {
				try(tag, s)
			}
		}
	case 1: // every 16-bit unit
		for lo := 0; lo < 256; lo++ {
			try(0x1e, []byte{byte(hi), byte(lo)})
			if hi >= 0xd7 && hi <= 0xe0 {
				for _, next := range [][]byte{{0, 'a'}, {0xdc, 0}, {0xdf, 0xff}, {0xd8, 0}, {0xe0, 0}, {0, 0}} {
					try(0x1e, append([]byte{byte(hi), byte(lo)}, next...))
				}
			}
		}
	case 2: // every 2-byte combination in UTF-8
		for lo := 0; lo < 256; lo++ {
			try(0x0c, []byte{byte(hi), byte(lo)})
			if hi >= 0xe0 {
				try(0x0c, []byte{byte(hi), byte(lo), 0x80})
				try(0x0c, []byte{byte(hi), byte(lo), 0x80, 0x80})
			}
		}
	case 3: // lengths and zero bytes
		if hi >= 40 {
			return
		}
		for _, tag := range []byte{0x0c, 0x12, 0x13, 0x14, 0x16, 0x1e} {
			for _, c := range []byte{0, '1', ' ', 'A'} {
				try(tag, bytes.Repeat([]byte{c}, hi))
				try(tag, append(bytes.Repeat([]byte{'1'}, hi), 0, 0))
			}
		}
	}
	t.Outcome("kind %d hi %d: %d of %d read", kind, hi, ok, n)
}

func c26Times(t *engine.T) {
	kind := t.Pick("kind", 5)
	i := t.Pick("i", 100)
	t.Begin()
	n, ok := 0, 0
	good := ref.TLV(0x17, []byte("200101000000Z"))
	try := func(tag byte, s string) {
		n++
		tl := ref.TLV(tag, []byte(s))
		a := c26Judge(t, fmt.Sprintf("begin %q type %#x", s, tag), c26Parts{validity: ref.Seq(tl, good)}.der())
		b := c26Judge(t, fmt.Sprintf("end %q type %#x", s, tag), c26Parts{validity: ref.Seq(good, tl)}.der())
		if a && b {
			ok++
		}
	}
	seeds := []struct {
		tag byte
		s   string
	}{{0x17, "200102030405Z"}, {0x17, "2001020304Z"}, {0x17, "200102030405+0800"}, {0x17, "2001020304-0130"}, {0x18, "20600102030405Z"}, {0x18, "20600102030405+0800"}, {0x18, "20600102030405.5Z"}, {0x18, "206001020304Z"}}
	switch kind {
	case 0:
		if i >= len(seeds) {
			return
		}
		s := seeds[i]
		try(s.tag, s.s)
		try(s.tag^0x0f, s.s) // the other time type
		for k := range s.s {
			for _, c := range "0123456789Z+-. :a/\x00" {
				try(s.tag, s.s[:k]+string(c)+s.s[k+1:])
			}
			try(s.tag, s.s[:k])
			try(s.tag, s.s[:k]+s.s[k+1:])
			try(s.tag, s.s[:k]+s.s[k:k+1]+s.s[k:])
		}
		try(s.tag, s.s+"Z")
		try(s.tag, s.s+" ")
	case 1: // every year as UTCTime; a hundred years as GeneralizedTime
		try(0x17, fmt.Sprintf("%02d0615120000Z", i))
		try(0x17, fmt.Sprintf("%02d0228235959Z", i))
		try(0x17, fmt.Sprintf("%02d0229000000Z", i))
		for y := 100 * i; y < 100*i+100; y++ {
			try(0x18, fmt.Sprintf("%04d0615120000Z", y))
		}
		for _, y := range []int{100 * i, 100*i + 4, 100*i + 49, 100*i + 50, 100*i + 99} {
			try(0x18, fmt.Sprintf("%04d0229000000Z", y))
			try(0x18, fmt.Sprintf("%04d1231235959Z", y))
		}
	case 2: // every value of each two-digit field
		for f := 2; f <= 10; f += 2 {
			s := "200115101112Z"
			try(0x17, s[:f]+fmt.Sprintf("%02d", i)+s[f+2:])
			s = "20200115101112Z"
			try(0x18, s[:f+2]+fmt.Sprintf("%02d", i)+s[f+4:])
		}
	case 3: // days of months
		if i >= 36 {
			return
		}
		for m := 1; m <= 12; m++ {
			for _, y := range []int{0, 19, 20, 49, 50, 99} {
				try(0x17, fmt.Sprintf("%02d%02d%02d000000Z", y, m, i))
			}
			for _, y := range []int{1900, 2000, 2100} {
				try(0x18, fmt.Sprintf("%04d%02d%02d000000Z", y, m, i))
			}
		}
	case 4: // other types and offsets
		if i >= 32 {
			return
		}
		try(byte(i), "200102030405Z")
		try(byte(i), "20200102030405Z")
		try(byte(i)|0x80, "200102030405Z")
		for _, f := range []string{"200102030405%c%02d00", "200102030405%c00%02d", "200102030405%c%02d59"} {
			try(0x17, fmt.Sprintf(f, '+', i*3))
			try(0x17, fmt.Sprintf(f, '-', i*3))
		}
	}
	t.Outcome("kind %d %d: %d of %d read", kind, i, ok, n)
}

func c26Ext(id []byte, crit bool, v []byte) []byte {
	if crit {
		return ref.Seq(id, ref.TLV(1, []byte{0xff}), ref.Oct(v))
	}
	return ref.Seq(id, ref.Oct(v))
}

// c26Word is the i-th string over the alphabet, shortest first; "" is number 0.
func c26Word(al string, i int) (string, bool) {
	l, n := 0, 1
	for i >= n {
		i -= n
		n *= len(al)
		l++
	}
	b := make([]byte, l)
	for k := range b {
		b[k] = al[i%len(al)]
		i /= len(al)
	}
	return string(b), true
}

func c26Words(al string, maxLen int) int {
	n, p := 0, 1
	for l := 0; l <= maxLen; l++ {
		n += p
		p *= len(al)
	}
	return n
}

func c26AltNames(t *engine.T) {
	kind := t.Pick("kind", 5)
	blk := t.Pick("block", 64)
	t.Begin()
	n, ok := 0, 0
	try := func(what string, names ...[]byte) {
		n++
		if c26Judge(t, what, c26Parts{exts: [][]byte{c26Ext(ref.OID(2, 5, 29, 17), n%2 == 0, ref.Seq(names...))}}.der()) {
			ok++
		}
	}
	const al = "a.@:/ %[\x80"
	switch kind {
	case 0: // words
		w := c26Words(al, 4)
		for i := blk * w / 64; i < (blk+1)*w/64; i++ {
			s, _ := c26Word(al, i)
			try(fmt.Sprintf("e-mail %q", s), ref.TLV(0x81, []byte(s)))
			try(fmt.Sprintf("DNS name %q", s), ref.TLV(0x82, []byte(s)))
			try(fmt.Sprintf("URI %q", s), ref.TLV(0x86, []byte(s)))
			try(fmt.Sprintf("URI http://%s", s), ref.TLV(0x86, []byte("http://"+s)))
		}
	case 1: // every byte value in a host, path and user part
		for b := 4 * blk; b < 4*blk+4; b++ {
			for _, f := range []string{"http://a%c/x", "http://a.%cb/x", "http://%ca.b", "http://a/%cx", "%c://a/x", "http://u%c@h/", "urn:%cx", "http://a.b:8%c/", "%c", "//%c.b"} {
				s := strings.Replace(f, "%c", string([]byte{byte(b)}), 1)
				try(fmt.Sprintf("URI %q", s), ref.TLV(0x86, []byte(s)))
			}
			for _, tag := range []byte{0x81, 0x82} {
				for _, s := range [][]byte{{byte(b)}, {'a', byte(b), 'b'}, {byte(b), '@', 'a', '.', 'b'}} {
					try(fmt.Sprintf("name %q tag %#x", s, tag), ref.TLV(tag, s))
				}
			}
			// every tag
			try(fmt.Sprintf("name tag %#x", b), ref.TLV(byte(b)&^0x1f|byte(b)&0x1f, []byte("a.b")))
			try(fmt.Sprintf("name tag %#x next to a DNS name", b), ref.TLV(byte(b), []byte("a.b")), ref.TLV(0x82, []byte("x.y")))
		}
	case 2: // lengths of addresses
		if blk > 40 {
			return
		}
		try(fmt.Sprintf("address of %d bytes", blk), ref.TLV(0x87, kit.Stream("ip", blk)))
		try(fmt.Sprintf("address of %d bytes and one of 4", blk), ref.TLV(0x87, []byte{1, 2, 3, 4}), ref.TLV(0x87, kit.Stream("ip", blk)))
		try(fmt.Sprintf("%d zero bytes", blk), ref.TLV(0x87, make([]byte, blk)))
		if blk >= 2 {
			v6 := make([]byte, blk)
			v6[10%blk], v6[11%blk] = 0xff, 0xff
			try(fmt.Sprintf("mapped %d", blk), ref.TLV(0x87, v6))
		}
	case 3: // order: every sequence of up to 3 names out of 7 kinds
		k := [][]byte{ref.TLV(0x81, []byte("a@b.c")), ref.TLV(0x82, []byte("d.e")), ref.TLV(0x82, []byte("*.f")), ref.TLV(0x86, []byte("http://g/h")), ref.TLV(0x87, []byte{1, 2, 3, 4}), ref.TLV(0x87, kit.Stream("v6", 16)), ref.TLV(0x88, []byte{1, 2}), ref.TLV(0xa4, nameCN("x"))}
		c := 0
		for a := 0; a <= len(k); a++ {
			for b := 0; b <= len(k); b++ {
				for d := 0; d < len(k); d++ {
					if c++; c%64 != blk {
						continue
					}
					l := [][]byte{k[d]}
					if b < len(k) {
						l = append(l, k[b])
					}
					if a < len(k) {
						l = append(l, k[a])
					}
					try(fmt.Sprintf("names %d %d %d", d, b, a), l...)
				}
			}
		}
	case 4: // the list itself malformed
		if blk > 7 {
			return
		}
		good := ref.TLV(0x82, []byte("a.b"))
		bad := [][]byte{{}, {0x30}, {0x30, 0}, ref.Set(good), good, append(ref.Seq(good), 0), append(ref.Seq(good), ref.Seq(good)...), ref.Seq(good[:4])}[blk]
		n++
		if c26Judge(t, fmt.Sprintf("list %x", bad), c26Parts{exts: [][]byte{c26Ext(ref.OID(2, 5, 29, 17), false, bad)}}.der()) {
			ok++
		}
	}
	t.Outcome("kind %d block %d: %d of %d read", kind, blk, ok, n)
}

func c26Constraints(t *engine.T) {
	kind := t.Pick("kind", 5)
	blk := t.Pick("block", 128)
	t.Begin()
	n, ok := 0, 0
	raw := func(what string, v []byte) {
		n++
		if bytes.Count(v, []byte("@")) > 1 { // newer versions of crypto/x509 refuse some of these
			_, err := x509.ParseCertificate(c26Parts{exts: [][]byte{c26Ext(ref.OID(2, 5, 29, 30), n%2 == 0, v)}}.der())
			t.Step(1)
			if err == nil {
				ok++
			}
			return
		}
		if c26Judge(t, what, c26Parts{exts: [][]byte{c26Ext(ref.OID(2, 5, 29, 30), n%2 == 0, v)}}.der()) {
			ok++
		}
	}
	try := func(what string, v []byte) {
		st := ref.Seq(v)
		switch n % 3 {
		case 0:
			raw(what, ref.Seq(ref.Ctx(0, st)))
		case 1:
			raw(what, ref.Seq(ref.Ctx(1, st)))
		default:
			raw(what, ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x82, []byte("p.q")))), ref.Ctx(1, ref.Seq(ref.TLV(0x82, []byte("r.s"))), st)))
		}
	}
	mail := func(s string) {
		before := ok
		try(fmt.Sprintf("e-mail constraint %q", s), ref.TLV(0x81, []byte(s)))
		t.Check((ok > before) == c26Mail(s), "mail", "e-mail constraint %q, well-formed %v: read %v", s, c26Mail(s), ok > before)
	}
	switch kind {
	case 0: // e-mail words
		const al = "a.@\"\\ \x7f("
		w := c26Words(al, t.Size(5, 6))
		for i := blk * w / 128; i < (blk+1)*w/128; i++ {
			s, _ := c26Word(al, i)
			mail(s)
			if len(s) <= 4 {
				mail(s + "@b")
				mail("a@" + s)
				mail("\"" + s + "\"@b")
			}
		}
	case 1: // every byte in every place
		for b := 2 * blk; b < 2*blk+2; b++ {
			c := string([]byte{byte(b)})
			for _, f := range []string{"%c@b", "a%c@b", "%ca@b", "a%cb@c", "\"%c\"@b", "\"\\%c\"@b", "\\%c@b", "a\\%cb@c", "a@%c", "a@b%c", "a@b.%cc", "%c", "a%c", ".%c", "a.%c", "%c.a", "\"a%c", "\"a\"%c@b", "a@b%cc", "a.%c.b@c"} {
				s := strings.Replace(f, "%c", c, 1)
				mail(s)
				for _, tag := range []byte{0x82, 0x86} {
					try(fmt.Sprintf("constraint %q type %#x", s, tag), ref.TLV(tag, []byte(s)))
				}
			}
			try(fmt.Sprintf("constraint type %#x", b), ref.TLV(byte(b), []byte("a.b")))
		}
	case 2: // domain words
		const al = "a.-: *\x80"
		w := c26Words(al, 4)
		for i := blk * w / 128; i < (blk+1)*w/128; i++ {
			s, _ := c26Word(al, i)
			try(fmt.Sprintf("DNS constraint %q", s), ref.TLV(0x82, []byte(s)))
			try(fmt.Sprintf("URI constraint %q", s), ref.TLV(0x86, []byte(s)))
			try(fmt.Sprintf("URI constraint 1.2.3.%q", s), ref.TLV(0x86, []byte("1.2.3."+s)))
		}
	case 3: // addresses: masks and lengths
		if blk < 66 {
			try(fmt.Sprintf("address of %d bytes", blk), ref.TLV(0x87, make([]byte, blk)))
		}
		for v := 2 * blk; v < 2*blk+2; v++ {
			for _, l := range []int{4, 16} {
				for at := 0; at < l; at++ {
					for _, rest := range []byte{0, 0xff, 0x80} {
						m := append(kit.Stream("addr", l), bytes.Repeat([]byte{0xff}, at)...)
						m = append(append(m, byte(v)), bytes.Repeat([]byte{rest}, l-at-1)...)
						try(fmt.Sprintf("address with mask %x", m), ref.TLV(0x87, m))
					}
				}
			}
		}
		if blk == 127 {
			for _, s := range []string{"1.2.3.4", "::1", "1.2.3", "1.2.3.4.5", "[::1]", "::ffff:1.2.3.4", "01.2.3.4", "256.1.1.1", ".1.2.3.4"} {
				try(fmt.Sprintf("URI constraint %q", s), ref.TLV(0x86, []byte(s)))
				try(fmt.Sprintf("DNS constraint %q", s), ref.TLV(0x82, []byte(s)))
			}
		}
	case 4: // structures
		st := func(s string) []byte { return ref.Seq(ref.TLV(0x82, []byte(s))) }
		l := [][]byte{{}, ref.Seq(), ref.Seq(ref.Ctx(0)), ref.Seq(ref.Ctx(1)), ref.Seq(ref.Ctx(0), ref.Ctx(1)), ref.Seq(ref.Ctx(0, st("a")), ref.Ctx(1)), ref.Seq(ref.Ctx(0), ref.Ctx(1, st("a"))),
			ref.Seq(ref.Ctx(1, st("a")), ref.Ctx(0, st("b"))), ref.Seq(ref.Ctx(0, st("a")), ref.Ctx(0, st("b"))), ref.Seq(ref.Ctx(2, st("a"))), ref.Seq(ref.Ctx(0, st("a")), ref.Ctx(2, st("b"))),
			append(ref.Seq(ref.Ctx(0, st("a"))), 0), ref.Set(ref.Ctx(0, st("a"))), ref.Seq(ref.Ctx(0, ref.TLV(0x82, []byte("a")))), ref.Seq(ref.Ctx(0, ref.Seq())),
			ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x82, []byte("a")), ref.TLV(0x80, []byte{0})))), ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x82, []byte("a")), ref.TLV(0x81, []byte{5})))),
			ref.Seq(ref.TLV(0x80, st("a"))), ref.Seq(ref.Ctx(0, st("a"), st("b"), st("c")), ref.Ctx(1, st("d"), ref.Seq(ref.TLV(0x87, []byte{1, 2, 3, 4, 255, 255, 255, 0})))),
			ref.Seq(ref.Ctx(0, ref.Seq(ref.Ctx(4, nameCN("x"))))), ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x88, []byte{1})), st("b")), ref.Ctx(1, st("c"))), ref.Seq(ref.Ctx(0, st("b")), ref.Ctx(1, ref.Seq(ref.TLV(0x88, []byte{1}))))}
		if blk/2 >= len(l) {
			return
		}
		n = blk % 2
		raw(fmt.Sprintf("name constraints %x", l[blk/2]), l[blk/2])
	}
	t.Outcome("kind %d block %d: %d of %d read", kind, blk, ok, n)
}

func c26Bits(t *engine.T) {
	kind := t.Pick("kind", 6)
	i := t.Pick("i", 256)
	t.Begin()
	n, ok := 0, 0
	try := func(what string, p c26Parts) {
		n++
		if c26Judge(t, what, p.der()) {
			ok++
		}
	}
	ext := func(num int, crit bool, v []byte) {
		try(fmt.Sprintf("extension %d value %x", num, v), c26Parts{exts: [][]byte{c26Ext(ref.OID(2, 5, 29, num), crit, v)}})
	}
	switch kind {
	case 0: // key usage
		for u := 0; u <= 9; u++ {
			ext(15, u%2 == 0, ref.TLV(3, []byte{byte(u), byte(i)}))
			if u == 7 || u == 0 || u == 4 {
				for j := 0; j < 256; j++ {
					ext(15, true, ref.TLV(3, []byte{byte(u), byte(i), byte(j)}))
				}
			}
		}
		if i < 32 {
			ext(15, true, ref.TLV(byte(i), []byte{0, 0x80}))
			ext(15, true, ref.TLV(3, kit.Stream("ku", i%8)))
			ext(15, true, append(ref.TLV(3, []byte{0, 0x80}), kit.Stream("tr", i%4)...))
		}
	case 1: // basic constraints
		bools := [][]byte{nil, {1, 1, 0xff}, {1, 1, 0}, {1, 1, 1}, {1, 0}, {1, 2, 0xff, 0xff}, {2, 1, 1}}
		paths := [][]byte{nil, ref.Int(0), ref.Int(1), ref.Int(127), ref.Int(128), ref.Int(255), ref.Int(32767), ref.Int(-1), ref.Int(-2), ref.Int(1 << 31), ref.Int(1<<31 - 1), {2, 0}, {2, 2, 0, 1}, ref.TLV(2, bytes.Repeat([]byte{0x7f}, 9)), {4, 1, 1}, {5, 0}}
		tails := [][]byte{nil, {5, 0}, ref.Int(3)}
		if i >= len(bools)*len(paths) {
			return
		}
		for _, tl := range tails {
			b := append(append(kit.Clone(bools[i%len(bools)]), paths[i/len(bools)]...), tl...)
			ext(19, true, ref.Seq(b))
			ext(19, false, ref.Seq(b))
			ext(19, true, append(ref.Seq(b), 0))
			ext(19, true, b)
		}
	case 2: // versions
		if i >= 12 {
			return
		}
		for _, v := range [][]byte{ref.Ctx(0, ref.Int(int64(i-3))), ref.TLV(0x80, ref.Int(int64(i-3))), ref.Int(int64(i - 3)), ref.Ctx(0, ref.Int(int64(i-3)), ref.Int(1)), {}, ref.Ctx(0), ref.Ctx(1, ref.Int(2)), ref.Ctx(0, ref.Oct([]byte{2}))} {
			for e := 0; e < 2; e++ {
				p := c26Parts{version: v}
				if e == 1 {
					p.exts = [][]byte{c26Ext(ref.OID(2, 5, 29, 14), false, ref.Oct([]byte{1, 2}))}
				}
				try(fmt.Sprintf("version %x", v), p)
			}
		}
	case 3: // serial numbers
		if i < 40 {
			for _, top := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				b := bytes.Repeat([]byte{0x5a}, i)
				if i > 0 {
					b[0] = top
				}
				try(fmt.Sprintf("serial %x", b), c26Parts{serial: ref.TLV(2, b)})
			}
			x := new(big.Int).Lsh(ref.One, uint(8*i))
			for d := int64(-1); d <= 1; d++ {
				y := new(big.Int).Add(x, kit.B(d))
				try(fmt.Sprintf("serial %x", y), c26Parts{serial: ref.DERInt(y)})
				try(fmt.Sprintf("serial -%x", y), c26Parts{serial: ref.DERInt(new(big.Int).Neg(y))})
			}
		}
		try(fmt.Sprintf("serial %x", i), c26Parts{serial: ref.TLV(2, []byte{byte(i)})})
		try(fmt.Sprintf("serial 00%x", i), c26Parts{serial: ref.TLV(2, []byte{0, byte(i)})})
		try(fmt.Sprintf("serial ff%x", i), c26Parts{serial: ref.TLV(2, []byte{0xff, byte(i)})})
	case 5: // unique identifiers: none, each, both, in the wrong order, of other types
		bs := func(b ...byte) []byte { return append([]byte{0}, b...) }
		id := [][]byte{nil, ref.TLV(0x81, bs(1, 2, 3)), ref.TLV(0x82, bs(4)), ref.TLV(0x81, bs()), ref.TLV(0x82, kit.Stream("uid", 200)), ref.TLV(0xa1, ref.BitStr([]byte{1})), ref.TLV(0xa2, ref.BitStr([]byte{2})),
			ref.TLV(0x81, nil), ref.TLV(0x80, bs(1)), ref.TLV(0x83, bs(1)), ref.BitStr([]byte{1}), {0x81, 5, 0}}
		if i >= len(id)*len(id) {
			return
		}
		l := [][]byte{id[i%len(id)], id[i/len(id)]}
		full := [][]byte{c26Ext(ref.OID(2, 5, 29, 19), true, ref.Seq(ref.TLV(1, []byte{0xff}), ref.Int(0))), c26Ext(ref.OID(2, 5, 29, 15), true, ref.TLV(3, []byte{2, 4})),
			c26Ext(ref.OID(2, 5, 29, 30), true, ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x82, []byte("a")))))), c26Ext(ref.OID(1, 2, 3, 4), true, []byte{5, 0})}
		for v := int64(0); v < 3; v++ {
			for e := 0; e <= len(full); e++ {
				p := c26Parts{version: ref.Ctx(0, ref.Int(v)), ids: l, exts: full[:e]}
				if v == 0 {
					p.version = []byte{}
				}
				try(fmt.Sprintf("version %d, %d extensions, unique identifiers %x %x", v+1, e, l[0], l[1]), p)
			}
		}
	case 4: // booleans, signature bits
		e := ref.Seq(ref.OID(2, 5, 29, 14), ref.TLV(1, []byte{byte(i)}), ref.Oct(ref.Oct([]byte{1})))
		try(fmt.Sprintf("critical %#x", i), c26Parts{exts: [][]byte{e}})
		d := c26Parts{}.der()
		if i < 9 {
			s := ref.TLV(3, []byte{byte(i)}, make([]byte, 63), []byte{0x80})
			top := ref.Parse(d, 0)[0]
			n++
			if c26Judge(t, fmt.Sprintf("signature with %d unused bits", i), ref.Seq(top.At(0).Raw, top.At(1).Raw, s)) {
				ok++
			}
		}
	}
	t.Outcome("kind %d %d: %d of %d read", kind, i, ok, n)
}

func c26ExtAlphabet() [][2][]byte {
	o := func(n int) []byte { return ref.OID(2, 5, 29, n) }
	aia := ref.OID(1, 3, 6, 1, 5, 5, 7, 1, 1)
	ocsp, iss := ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 1), ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 2)
	u := func(s string) []byte { return ref.TLV(0x86, []byte(s)) }
	dp := func(b ...[]byte) []byte { return ref.Seq(b...) }
	full := func(b ...[]byte) []byte { return ref.Ctx(0, ref.Ctx(0, b...)) }
	return [][2][]byte{
		{o(15), ref.TLV(3, []byte{5, 0xa0})}, {o(15), ref.TLV(3, []byte{7, 0, 0x80})},
		{o(19), ref.Seq(ref.TLV(1, []byte{0xff}), ref.Int(0))}, {o(19), ref.Seq()},
		{o(17), ref.Seq(ref.TLV(0x82, []byte("a.b")))}, {o(17), ref.Seq(ref.TLV(0x88, []byte{1}))}, {o(17), ref.Seq()},
		{o(30), ref.Seq(ref.Ctx(0, ref.Seq(ref.TLV(0x82, []byte("a")))))}, {o(30), ref.Seq(ref.Ctx(1, ref.Seq(ref.TLV(0x88, []byte{1}))))},
		{o(31), ref.Seq(dp(full(u("http://1"), u("http://2"))), dp(full(u("http://3"))))}, {o(31), ref.Seq(dp(ref.TLV(0x81, []byte{1, 6})), dp(full(ref.Ctx(4, nameCN("x")), u("http://x"))), dp(ref.Ctx(0, ref.Ctx(1, nameCN("r")))))},
		{o(31), ref.Seq(dp(), dp(full(u("http://4"), ref.TLV(0x82, []byte("dns")), u("http://5")), ref.TLV(0x81, []byte{0, 1})))}, {o(31), ref.Seq()},
		{o(35), ref.Seq(ref.TLV(0x80, []byte{1, 2, 3}))}, {o(35), ref.Seq(ref.Ctx(1, ref.Ctx(4, nameCN("x"))), ref.TLV(0x82, []byte{9}))}, {o(35), ref.Seq()}, {o(35), ref.Seq(ref.TLV(0x80, []byte{}), ref.TLV(0x82, []byte{9}))},
		{o(37), ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 3, 1), ref.OID(1, 2, 3, 4), o(37), ref.OID(2, 5, 29, 37, 0))}, {o(37), ref.Seq()},
		{o(14), ref.Oct([]byte{4, 5, 6})}, {o(14), ref.Oct(nil)},
		{o(32), ref.Seq(ref.Seq(ref.OID(1, 2, 3)), ref.Seq(ref.OID(2, 5, 29, 32, 0), ref.Seq(ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 2, 1), ref.TLV(0x16, []byte("cps"))))))}, {o(32), ref.Seq()},
		{aia, ref.Seq(ref.Seq(ocsp, u("http://o1")), ref.Seq(iss, u("http://i1")), ref.Seq(ocsp, ref.TLV(0x82, []byte("dns"))), ref.Seq(ref.OID(1, 2, 3), u("http://q")), ref.Seq(ocsp, u("http://o2")))}, {aia, ref.Seq()},
		{o(99), []byte{1, 2, 3}}, {ref.OID(1, 2, 3, 4), nil}, {ref.OID(2, 5, 29), []byte{5, 0}}, {ref.OID(2, 5, 29, 15, 1), ref.TLV(3, []byte{7, 0x80})}, {ref.OID(2, 5, 28, 15), ref.TLV(3, []byte{7, 0x80})}, {ref.OID(1, 5, 29, 15), ref.TLV(3, []byte{7, 0x80})}, {ref.OID(2, 4, 29, 19), ref.Seq(ref.TLV(1, []byte{0xff}))},
	}
}

func c26Extensions(t *engine.T) {
	al := c26ExtAlphabet()
	a := t.Pick("first", len(al))
	b := t.Pick("second", len(al)+1)
	t.Begin()
	ok := 0
	for cr := 0; cr < 4; cr++ {
		l := [][]byte{c26Ext(al[a][0], cr&1 != 0, al[a][1])}
		if b < len(al) {
			l = append(l, c26Ext(al[b][0], cr&2 != 0, al[b][1]))
		}
		if c26Judge(t, fmt.Sprintf("extensions %d %d critical %d", a, b, cr), c26Parts{exts: l}.der()) {
			ok++
		}
		if b == len(al) {
			// the value cut, extended, of another type
			v := al[a][1]
			for k := 0; k <= len(v); k++ {
				c26Judge(t, fmt.Sprintf("extension %d cut to %d", a, k), c26Parts{exts: [][]byte{c26Ext(al[a][0], cr&1 != 0, v[:k])}}.der())
			}
			for _, x := range [][]byte{append(kit.Clone(v), 0), append(kit.Clone(v), 5, 0), ref.Seq(v), ref.Set(v), ref.Oct(v), {5, 0}, {0x30, 0x80, 0, 0}, {0x30, 0x81, 0}} {
				c26Judge(t, fmt.Sprintf("extension %d value %x", a, x), c26Parts{exts: [][]byte{c26Ext(al[a][0], cr&1 != 0, x)}}.der())
			}
		}
	}
	t.Outcome("%d %d: %d of 4 read", a, b, ok)
}

func c26Keys(t *engine.T) {
	kind := t.Pick("kind", 4)
	i := t.Pick("i", 96)
	t.Begin()
	n, ok := 0, 0
	try := func(what string, spki []byte) {
		n++
		k, err := x509.ParsePKIXPublicKey(spki)
		t.Step(1)
		s, serr := stdx509.ParsePKIXPublicKey(spki)
		t.Check((err == nil) == (serr == nil) || err == nil && c26Allowed(what, serr), "key", "%s: %v, crypto/x509: %v: %x", what, err, serr, spki)
		if err == nil && serr == nil {
			ok++
			if !(fmt.Sprintf("%#v", k) == fmt.Sprintf("%#v", s) || pubEqual(k, s)) {
				t.Fail("other", "%s: %#v, crypto/x509: %#v", what, k, s)
			}
		}
		c, cerr := x509.ParseCertificate(c26Parts{spki: spki}.der())
		if strings.HasPrefix(what, "unknown") {
			t.Check(err != nil && k == nil && cerr == nil && c.PublicKey == nil && c.PublicKeyAlgorithm == x509.UnknownPublicKeyAlgorithm, "unknown", "%s: %v, in a certificate %v", what, k, c)
			return
		}
		t.Check((cerr == nil) == (err == nil), "key", "%s: alone %v, in a certificate %v: %x", what, err, cerr, spki)
		if cerr == nil {
			t.Check(fmt.Sprintf("%#v", c.PublicKey) == fmt.Sprintf("%#v", k) || pubEqual(c.PublicKey, k), "other", "%s: differs in a certificate", what)
			t.Check(bytes.Equal(c.RawSubjectPublicKeyInfo, spki), "raw", "%s: raw key %x", what, c.RawSubjectPublicKeyInfo)
		}
	}
	switch kind {
	case 0: // DSA: p, q, g, y each negative, zero, one, small, large
		if i >= 81 {
			return
		}
		vals := []*big.Int{kit.B(-5), kit.B(0), new(big.Int).SetBytes(kit.Stream("dsa", 128))}
		v := func(k int) []byte { return ref.DERInt(vals[i/[]int{1, 3, 9, 27}[k]%3]) }
		o := ref.OID(1, 2, 840, 10040, 4, 1)
		try(fmt.Sprintf("DSA %d", i), ref.Seq(ref.Seq(o, ref.Seq(v(0), v(1), v(2))), ref.BitStr(v(3))))
		if i == 80 {
			try("DSA without parameters", ref.Seq(ref.Seq(o), ref.BitStr(v(3))))
			try("DSA with NULL", ref.Seq(ref.Seq(o, ref.Null()), ref.BitStr(v(3))))
			try("DSA with two parameters", ref.Seq(ref.Seq(o, ref.Seq(v(0), v(1))), ref.BitStr(v(3))))
			try("DSA with four parameters", ref.Seq(ref.Seq(o, ref.Seq(v(0), v(1), v(2), v(3))), ref.BitStr(v(3))))
			try("DSA key empty", ref.Seq(ref.Seq(o, ref.Seq(v(0), v(1), v(2))), ref.BitStr(nil)))
			try("DSA key of another type", ref.Seq(ref.Seq(o, ref.Seq(v(0), v(1), v(2))), ref.BitStr(ref.Oct([]byte{1}))))
			try("DSA key and trailing", ref.Seq(ref.Seq(o, ref.Seq(v(0), v(1), v(2))), ref.BitStr(append(v(3), 0))))
		}
	case 1: // Ed25519 of every length, and parameters
		e := ref.OID(1, 3, 101, 112)
		try(fmt.Sprintf("Ed25519 of %d bytes", i), ref.Seq(ref.Seq(e), ref.BitStr(kit.Stream("e", i))))
		try(fmt.Sprintf("Ed25519 of %d bytes with NULL", i), ref.Seq(ref.Seq(e, ref.Null()), ref.BitStr(kit.Stream("e", i))))
		try(fmt.Sprintf("unknown algorithm %d", i), ref.Seq(ref.Seq(ref.OID(1, 3, 101, 14+i), ref.Null()), ref.BitStr(kit.Stream("e", i))))
	case 2: // RSA parameters and values
		nn := kit.RSA(2).N
		ns := []*big.Int{nn, kit.B(0), kit.B(-3), kit.B(1), new(big.Int).Neg(nn), kit.B(15)}
		es := []*big.Int{kit.B(65537), kit.B(3), kit.B(0), kit.B(-3), kit.B(1), kit.B(1<<31 - 1), kit.B(1 << 31), new(big.Int).Lsh(ref.One, 63), new(big.Int).Lsh(ref.One, 80)}
		ps := [][]byte{ref.Null(), nil, ref.Seq(), {5, 1, 0}, oidSM2Crv}
		if i >= len(ns)*len(es) {
			return
		}
		for pi, p := range ps {
			key := ref.Seq(ref.DERInt(ns[i%len(ns)]), ref.DERInt(es[i/len(ns)]))
			try(fmt.Sprintf("RSA %d with parameters %d", i, pi), ref.Seq(ref.Seq(oidRSAEnc, p), ref.BitStr(key)))
			if pi == 0 {
				try("RSA with trailing data", ref.Seq(ref.Seq(oidRSAEnc, p), ref.BitStr(append(key, 0))))
				try("RSA with a third number", ref.Seq(ref.Seq(oidRSAEnc, p), ref.BitStr(ref.Seq(ref.DERInt(ns[i%len(ns)]), ref.DERInt(es[i/len(ns)]), ref.Int(1)))))
				try("RSA without exponent", ref.Seq(ref.Seq(oidRSAEnc, p), ref.BitStr(ref.Seq(ref.DERInt(ns[i%len(ns)])))))
			}
		}
	case 3: // EC: curve and parameters
		c := c09Curves[i%4]
		k := kit.ECDSA(c, ecScalar(c, i/4%8))
		full := spkiOf(&k.PublicKey)
		try("EC", full)
		nd := ref.Parse(full, 0)[0]
		pt := nd.At(1).Body[1:]
		for _, o := range [][]byte{ref.OID(1, 3, 132, 0, 33), oidP256Crv, ref.OID(1, 3, 132, 0, 34), ref.OID(1, 3, 132, 0, 35), ref.OID(1, 3, 132, 0, 10), ref.Null(), {}, ref.Seq()} {
			try("EC under another curve", ref.Seq(ref.Seq(oidECPub, o), ref.BitStr(pt)))
		}
		for _, q := range [][]byte{pt[:len(pt)-1], append(kit.Clone(pt), 0), append([]byte{2 + pt[len(pt)-1]&1}, pt[1:len(pt)/2+1]...), append([]byte{6 + pt[len(pt)-1]&1}, pt[1:]...), {0}, {4}, {}} {
			try("EC point form", ref.Seq(nd.At(0).Raw, ref.BitStr(q)))
		}
	}
	t.Outcome("kind %d %d: %d of %d read", kind, i, ok, n)
}

func c26Tree(t *engine.T) {
	si := t.Pick("seed", 7)
	blk := t.Pick("block", 32)
	t.Begin()
	var s c23Seed
	for _, x := range c23Seeds() {
		if x.name == []string{"full certificate", "RSA certificate", "Ed25519 version 1 certificate", "request", "SM2 request", "CRL", "DER CRL"}[si] {
			s = x
		}
	}
	t.Check(s.der != nil, "harness", "seed %d", si)
	root := &elem{tag: 0x30}
	for _, n := range ref.Parse(s.der, 0) {
		root.kids = append(root.kids, toTree(n))
	}
	enc := func() []byte {
		var b []byte
		for _, k := range root.kids {
			b = append(b, k.enc()...)
		}
		return b
	}
	var all []slot
	slots(root, &all)
	n, ok := 0, 0
	for i := blk * len(all) / 32; i < (blk+1)*len(all)/32; i++ {
		for op := 0; op < numTreeOps; op++ {
			undo, does := mutate(all[i], op)
			if does {
				if d := enc(); !iterBomb(d) {
					n++
					what := fmt.Sprintf("%s, element %d changed by %d", s.name, i, op)
					var r bool
					switch {
					case si < 3:
						r = c26Judge(t, what, d)
					case si < 5:
						r = c26JudgeCSR(t, what, d)
					default:
						r = c26JudgeCRL(t, what, d)
					}
					if r {
						ok++
					}
				}
			}
			undo()
		}
	}
	t.Outcome("%s block %d: %d of %d read", s.name, blk, ok, n)
}

func c26JudgeCSR(t *engine.T, what string, der []byte) bool {
	c, err := x509.ParseCertificateRequest(der)
	t.Step(1)
	s, serr := stdx509.ParseCertificateRequest(swapCSRKey(der))
	if err != nil {
		t.Check(c == nil, "result-with-error", "%s: request returned with error %v", what, err)
		t.Check(serr != nil || bytes.Contains(der, oidSM2Crv), "refused", "%s: refused (%v), read by crypto/x509: %x", what, err, der)
		return false
	}
	if serr != nil {
		t.Check(c26Allowed(what, serr) || bytes.Contains(der, oidSM2Crv) && strings.Contains(serr.Error(), "curve"), "accepted", "%s: read, refused by crypto/x509 (%v): %x", what, serr, der)
		return true
	}
	if d := diffViews(csrView(c), stdCSRView(s)); d != "" {
		t.Fail("other", "%s: compared with crypto/x509 it has %s: %x", what, d, der)
	}
	return true
}

func c26JudgeCRL(t *engine.T, what string, der []byte) bool {
	c, err := x509.ParseCRL(der)
	t.Step(1)
	s, serr := stdx509.ParseCRL(der)
	if err != nil {
		t.Check(c == nil, "result-with-error", "%s: list returned with error %v", what, err)
		t.Check(serr != nil, "refused", "%s: refused (%v), read by crypto/x509: %x", what, err, der)
		return false
	}
	if serr != nil {
		t.Check(c26Allowed(what, serr), "accepted", "%s: read, refused by crypto/x509 (%v): %x", what, serr, der)
		return true
	}
	a, b := fmt.Sprintf("%+v", *c), fmt.Sprintf("%+v", *s)
	t.Check(a == b, "other", "%s: %s, crypto/x509: %s: %x", what, a, b, der)
	return true
}
