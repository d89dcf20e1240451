package props

import (
	"bytes"
	"hash"

	"verif/mc/engine"
	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/mmdet/mcrypto/sm3"
)

func init() {
	engine.Register(&engine.Prop{ID: "C02", Harnesses: []engine.Harness{
		{Name: "ops1", Rule: "every sequence of up to 6 (quick) or 7 (thorough) operations out of 11 on one hash object, the model being the bytes written since New or Reset", Run: func(t *engine.T) { c02Ops(t, 1, t.Size(6, 7)) }},
		{Name: "ops2", Rule: "every sequence of up to 4 (quick) or 5 (thorough) operations on two hash objects and the package function: objects do not influence each other", Run: func(t *engine.T) { c02Ops(t, 2, t.Size(4, 5)) }},
		{Name: "split2", Rule: "every split of every message of length 0..320 (quick) or 0..640 (thorough) into two writes", Run: c02Split2},
		{Name: "split3", Rule: "every split of every message of length 0..160 (quick) or 0..260 (thorough) into three writes, with a Sum between them", Run: c02Split3},
		{Name: "wide", Rule: "a first write of 0..70 bytes, a second one of 62 lengths around every power of two up to 2^17 (quick) or 2^21 (thorough), a third of 5 lengths: digest of the concatenation, before and after each", Run: c02Wide},
		{Name: "long", Rule: "up to 70000 (quick) or 1100000 (thorough) writes of 1, 3, 64 and 65 bytes on one object with Sum around every power of two; 300 rounds of Reset, Write of every length and Sum", Run: c02Long},
		{Name: "prefix", Rule: "Sum appended to slices of every length 0..70 and every spare capacity 0..70, sharing memory with the object's input or not: prefix, digest and what lies beyond", Run: c02Prefix},
		{Name: "bytewise", Rule: "each length 0..700: one-byte writes, with a Sum after every byte", Run: c02Bytewise},
	}})
}

var c02Lens = []int{0, 1, 55, 63, 64, 65, 130}

func c02Ops(t *engine.T, objs, depth int) {
	nops := len(c02Lens) + 4
	if objs > 1 {
		nops++
	}
	seq := make([]int, depth)
	for i := range seq {
		seq[i] = t.Pick("op", nops*objs)
		if i == 1 {
			t.Begin()
		}
	}
	hs := make([]hash.Hash, objs)
	model := make([][]byte, objs)
	for i := range hs {
		hs[i] = sm3.New()
	}
	type held struct{ got, want []byte }
	var keep []held
	sum := func(o int, in []byte) {
		want := append(kit.Clone(in), ref.SM3(model[o])...)
		saved := kit.Clone(in)
		got := hs[o].Sum(in)
		t.Step(1)
		t.Check(bytes.Equal(got, want), "sum", "object %d after %v: Sum(%d-byte prefix) = %x, want %x", o, seq, len(in), got, want)
		t.Check(bytes.Equal(saved, in), "sum-prefix", "Sum changed the bytes of its argument")
		keep = append(keep, held{got, want})
	}
	buf := make([]byte, 0, 200)
	for step, op := range seq {
		o := op / nops
		switch k := op % nops; {
		case k < len(c02Lens):
			buf = buf[:0]
			for i := 0; i < c02Lens[k]; i++ {
				buf = append(buf, byte(step*31+i*5+o*3+1))
			}
			saved := kit.Clone(buf)
			n, err := hs[o].Write(buf)
			t.Step(1)
			t.Check(n == len(buf) && err == nil, "write", "Write(%d bytes) = %d, %v", len(buf), n, err)
			t.Check(bytes.Equal(saved, buf), "write-modifies", "Write changed its argument")
			model[o] = append(model[o], buf...)
			for i := range buf { // the object must not keep the caller's buffer
				buf[i] ^= 0x5a
			}
		case k == len(c02Lens):
			sum(o, nil)
		case k == len(c02Lens)+1:
			in := make([]byte, 5, 64)
			copy(in, "abcde")
			sum(o, in)
		case k == len(c02Lens)+2:
			hs[o].Reset()
			model[o] = nil
		case k == len(c02Lens)+3:
			t.Check(hs[o].Size() == 32 && hs[o].BlockSize() == 64, "size", "Size %d BlockSize %d", hs[o].Size(), hs[o].BlockSize())
			in := []byte("full")
			sum(o, in[:4:4])
		default:
			got := sm3.Sum(model[o])
			t.Step(1)
			t.Check(bytes.Equal(got, ref.SM3(model[o])), "oneshot", "package Sum after %v: %x", seq, got)
			keep = append(keep, held{got, ref.SM3(model[o])})
		}
	}
	for o := range hs {
		sum(o, nil)
		sum(o, nil) // asking does not change the answer
	}
	for _, h := range keep {
		t.Check(bytes.Equal(h.got, h.want), "aliased", "a digest returned earlier changed: %x, was %x (sequence %v)", h.got, h.want, seq)
	}
	t.Outcome("%d objects, final digest %x", objs, keep[len(keep)-1].got)
}

func c02Split2(t *engine.T) {
	n := t.Pick("len", t.Size(321, 641))
	t.Begin()
	m := kit.Pattern(0, n)
	want := ref.SM3(m)
	for a := 0; a <= n; a++ {
		d := sm3.New()
		d.Write(m[:a])
		d.Write(m[a:])
		got := d.Sum(nil)
		t.Step(1)
		t.Check(bytes.Equal(got, want), "split", "%d bytes split at %d: %x, want %x", n, a, got, want)
	}
	t.Outcome("all 2-splits of %d bytes", n)
}

func c02Split3(t *engine.T) {
	n := t.Pick("len", t.Size(161, 261))
	a := t.Pick("a", n+1)
	t.Begin()
	m := kit.Pattern(3, n)
	want := ref.SM3(m)
	for b := a; b <= n; b++ {
		d := sm3.New()
		d.Write(m[:a])
		d.Write(m[a:b])
		if b%3 == 0 {
			d.Sum(nil)
		}
		d.Write(m[b:])
		got := d.Sum(nil)
		t.Step(1)
		t.Check(bytes.Equal(got, want), "split", "%d bytes split at %d and %d: %x, want %x", n, a, b, got, want)
	}
	t.State("%d %d", n, a)
}

func c02Bytewise(t *engine.T) {
	n := t.Pick("group", 14) * 50
	t.Begin()
	m := kit.Pattern(0, n+50)
	d := sm3.New()
	for i := range m {
		d.Write(m[i : i+1])
		if i < n {
			continue
		}
		got := d.Sum(nil)
		t.Step(1)
		t.Check(bytes.Equal(got, ref.SM3(m[:i+1])), "bytewise", "after %d one-byte writes: %x", i+1, got)
	}
	t.Outcome("byte-wise to %d", n+50)
}

func c02Wide(t *engine.T) {
	a := t.Pick("first", 71)
	k := t.Pick("power", t.Size(11, 15)) // 2^7 .. 2^17 or 2^21
	t.Begin()
	base := 1 << (7 + k)
	for _, d := range []int{-64, -1, 0, 1, 63, 64} {
		b := base + d
		m := kit.Pattern(3, a+b+65)
		h := sm3.New()
		h.Write(m[:a])
		n, err := h.Write(m[a : a+b])
		t.Step(1)
		t.Check(n == b && err == nil, "write", "Write(%d bytes) = %d, %v", b, n, err)
		want := ref.SM3(m[:a+b])
		got := h.Sum(nil)
		t.Check(bytes.Equal(got, want), "sum", "writes of %d and %d bytes: %x, want %x", a, b, got, want)
		if k < 6 { // the longer ones: once
			for _, c := range []int{1, 65} {
				h2 := sm3.New()
				h2.Write(m[:a+b])
				h2.Write(m[a+b : a+b+c])
				t.Step(1)
				t.Check(bytes.Equal(h2.Sum(nil), ref.SM3(m[:a+b+c])), "sum", "writes of %d and %d bytes", a+b, c)
			}
		}
		h.Write(m[a+b : a+b+7])
		t.Check(bytes.Equal(h.Sum(nil), ref.SM3(m[:a+b+7])), "sum", "writes of %d, %d and 7 bytes", a, b)
	}
	t.Outcome("first %d second 2^%d", a, 7+k)
}

func c02Long(t *engine.T) {
	mode := t.Pick("mode", 6)
	t.Begin()
	if mode >= 4 {
		h := sm3.New()
		for i := 0; i < 300; i++ {
			m := kit.Pattern(i%4, i*(mode-3))
			h.Write(m)
			if mode == 5 {
				h.Write(m)
				m = append(m, m...)
			}
			got := h.Sum(nil)
			t.Step(1)
			t.Check(bytes.Equal(got, ref.SM3(m)), "sum", "round %d of Reset, Write and Sum: %x", i, got)
			h.Reset()
		}
		t.Outcome("300 rounds, mode %d", mode)
		return
	}
	w := []int{1, 3, 64, 65}[mode]
	max := t.Size(70000, 1100000)
	all := make([]byte, 0, w*max)
	h := sm3.New()
	buf := make([]byte, w)
	for i := 1; i <= max; i++ {
		for j := range buf {
			buf[j] = byte(i*7 + j + i>>8)
		}
		h.Write(buf)
		all = append(all, buf...)
		low := i & (i - 1)
		if low == 0 || low == 1 || (i+1)&i == 0 || i == max {
			got := h.Sum(nil)
			t.Step(1)
			t.Check(bytes.Equal(got, ref.SM3(all)), "sum", "after %d writes of %d bytes: %x", i, w, got)
		}
	}
	t.Outcome("%d writes of %d bytes", max, w)
}

func c02Prefix(t *engine.T) {
	n := t.Pick("len", 71)
	share := t.Pick("share", 2)
	t.Begin()
	for spare := 0; spare <= 70; spare++ {
		m := kit.Pattern(0, 200)
		h := sm3.New()
		want := ref.SM3(m[:100])
		mem := kit.Pattern(2, 200)
		if share == 1 {
			mem = m
		}
		saved := kit.Clone(mem)
		h.Write(m[:100])
		got := h.Sum(mem[: n : n+spare])
		t.Step(1)
		t.Check(bytes.Equal(got[:n], saved[:n]) && bytes.Equal(got[n:], want), "sum", "Sum(prefix of %d, spare %d) = %x", n, spare, got)
		t.Check(bytes.Equal(mem[:n], saved[:n]) && bytes.Equal(mem[n+spare:], saved[n+spare:]), "sum-prefix", "Sum(prefix of %d, spare %d) changed memory that is not its own", n, spare)
		h.Write([]byte("more"))
		want2 := ref.SM3(append(kit.Pattern(0, 100), "more"...))
		t.Check(bytes.Equal(h.Sum(nil), want2), "sum", "Write after Sum(prefix of %d, spare %d)", n, spare)
	}
	t.Outcome("prefix %d share %d", n, share)
}
