package props

import (
	"fmt"

	"verif/mc/engine"
	"verif/mc/ref"
)

// Requests and revocation lists made elsewhere.

func c26Requests(t *engine.T) {
	al := c26ExtAlphabet()
	a := t.Pick("first", len(al))
	b := t.Pick("second", len(al)+1)
	t.Begin()
	spki := spkiOf(xkeyOf(3).pub)
	extReq := ref.OID(1, 2, 840, 113549, 1, 9, 14)
	chal := ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 7), ref.Set(ref.TLV(0x0c, []byte("pw"))))
	typed := ref.Seq(ref.OID(1, 2, 3), ref.Set(ref.Seq(ref.Seq(ref.OID(1, 2, 4), ref.TLV(0x13, []byte("v"))))))
	ai := ref.Seq(ref.OID(1, 3, 101, 112))
	n, ok := 0, 0
	judge := func(what string, subj []byte, attrs ...[]byte) {
		body := [][]byte{ref.Int(0), subj, spki}
		if attrs != nil {
			body = append(body, ref.Ctx(0, attrs...))
		}
		n++
		if c26JudgeCSR(t, what, ref.Seq(ref.Seq(body...), ai, ref.BitStr(make([]byte, 64)))) {
			ok++
		}
	}
	for cr := 0; cr < 4; cr++ {
		ea := c26Ext(al[a][0], cr&1 != 0, al[a][1])
		set := func(e ...[]byte) []byte { return ref.Seq(extReq, ref.Set(ref.Seq(e...))) }
		for si, subj := range [][]byte{nameCN("s"), ref.Seq()} {
			what := fmt.Sprintf("request with extensions %d %d critical %d subject %d", a, b, cr, si)
			if b == len(al) {
				one := set(ea)
				judge(what+" alone", subj, one)
				judge(what+" after a password", subj, chal, one)
				judge(what+" before a password", subj, one, chal)
				judge(what+" with another attribute", subj, typed, one, typed)
				judge(what+" after an empty request", subj, ref.Seq(extReq, ref.Set()), one)
				judge(what+" after an empty list", subj, set(), one)
				judge(what+" then an empty list", subj, one, set())
				judge(what+" in the second set", subj, ref.Seq(extReq, ref.Set(ref.Seq(), ref.Seq(ea))))
				judge(what+" with trailing data", subj, ref.Seq(extReq, ref.Set(ref.Seq(ea)), ref.TLV(5, nil)))
				judge(what+" not in a sequence", subj, ref.Seq(extReq, ref.Set(ea)))
				judge(what+" under another identifier", subj, ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 15), ref.Set(ref.Seq(ea))))
				judge(what+" not", subj)
				continue
			}
			eb := c26Ext(al[b][0], cr&2 != 0, al[b][1])
			judge(what+" in one list", subj, set(ea, eb))
			judge(what+" in two attributes", subj, set(ea), set(eb))
			judge(what+" in two sets", subj, ref.Seq(extReq, ref.Set(ref.Seq(ea), ref.Seq(eb))))
		}
	}
	t.Outcome("%d %d: %d of %d read", a, b, ok, n)
}

func c26Lists(t *engine.T) {
	ver := t.Pick("version", 6)
	this := t.Pick("this", 5)
	next := t.Pick("next", 5)
	t.Begin()
	ai := ref.Seq(ref.OID(1, 3, 101, 112))
	utc, gen := ref.TLV(0x17, []byte("200101000000Z")), ref.TLV(0x18, []byte("20500101000000Z"))
	vers := [][]byte{nil, ref.Int(0), ref.Int(1), ref.Int(2), ref.Int(-1), ref.TLV(2, []byte{0, 1})}
	times := [][]byte{utc, gen, ref.TLV(0x17, []byte("2001010000Z")), ref.TLV(0x18, []byte("20200101000000.5Z")), nil}
	e := func(id []byte, crit, val []byte) []byte {
		if crit == nil {
			return ref.Seq(id, ref.Oct(val))
		}
		return ref.Seq(id, ref.TLV(1, crit), ref.Oct(val))
	}
	reason := ref.OID(2, 5, 29, 21)
	var exts [][]byte
	for _, crit := range [][]byte{nil, {0xff}, {0}, {1}, {}} {
		exts = append(exts, ref.Seq(e(reason, crit, ref.TLV(10, []byte{4}))), ref.Seq(e(ref.OID(1, 2, 3), crit, nil), e(reason, nil, ref.TLV(10, []byte{1}))))
	}
	exts = append(exts, ref.Seq(), ref.Set(), ref.Seq(e(reason, nil, nil), e(reason, nil, nil)))
	entries := [][]byte{nil, ref.Seq(), ref.Seq(ref.Seq(ref.Int(1), utc)), ref.Seq(ref.Seq(ref.Int(-1), gen), ref.Seq(ref.TLV(2, []byte{0, 0x80}), utc), ref.Seq(ref.Int(1), utc)),
		ref.Seq(ref.Seq(ref.Int(1))), ref.Seq(ref.Seq(utc, ref.Int(1))), ref.Seq(ref.Seq(ref.Int(1), utc, ref.TLV(5, nil))), ref.Seq(ref.Seq(ref.TLV(2, nil), utc))}
	for _, x := range exts {
		entries = append(entries, ref.Seq(ref.Seq(ref.Int(5), utc, x), ref.Seq(ref.Int(300), gen)))
	}
	lists := [][]byte{nil}
	for _, x := range exts {
		lists = append(lists, ref.Ctx(0, x))
	}
	lists = append(lists, ref.Ctx(1, ref.Seq()), ref.TLV(5, nil))
	ok, n := 0, 0
	for i, en := range entries {
		for j, l := range lists {
			var body [][]byte
			for _, b := range [][]byte{vers[ver], ai, nameCN("i"), times[this], times[next], en, l} {
				if b != nil {
					body = append(body, b)
				}
			}
			n++
			if c26JudgeCRL(t, fmt.Sprintf("list %d %d %d entries %d extensions %d", ver, this, next, i, j), ref.Seq(ref.Seq(body...), ai, ref.BitStr(make([]byte, 64)))) {
				ok++
			}
		}
	}
	t.Outcome("%d %d %d: %d of %d read", ver, this, next, ok, n)
}
