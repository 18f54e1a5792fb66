// C61: serialized 256-bit sets round trip and keep their format.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/bitset256"

	"verif/harness/gen"
	"verif/harness/mon"
)

const rule = "sets: every single element, every pair of elements, their complements and random ones, to bytes and text and back, each against the fixed layout; bytes of every length to 80 and more; texts with other lengths and characters; non-trivial for a set which is not empty; distinct by set or input"

// layout is the place of an element in the bytes: word 3-i is in the bytes
// which are i modulo 4, its highest byte first.
func layout(x byte) (int, byte) {
	w, bit := int(x>>6), x&63
	j := 7 - int(bit>>3)
	return j*4 + 3 - w, 1 << (bit & 7)
}

func form(l []byte) []byte {
	b := make([]byte, 32)
	for _, x := range l {
		i, m := layout(x)
		b[i] |= m
	}
	return b
}

// set checks a set with the given elements (in order, once).
func set(m *mon.M, l []byte) {
	if len(l) > 0 {
		m.NonTrivial()
	}
	m.Event("sets")
	s := bitset256.New(l...)
	want := form(l)
	text := hex.EncodeToString(want)
	b := s.AsBytes()
	m.Check(bytes.Equal(b, want), "AsBytes", "%x, want %x", b, want)
	m.Check(s.AsHex() == text, "AsHex", "%s, want %s", s.AsHex(), text)
	m.Check(s.String() == text && fmt.Sprint(s) == text, "String", "%s", s)
	back, err := bitset256.FromBytes(b)
	if m.Check(err == nil, "FromBytes", "%v", err) {
		m.Check(back.Equals(s) && bytes.Equal(back.Indices(), l), "bytes", "%v", back.Indices())
		for i := range b {
			b[i] ^= 0xff
		}
		m.Check(bytes.Equal(back.Indices(), l) && bytes.Equal(s.Indices(), l), "bytes", "the set shares its bytes")
		m.Check(bytes.Equal(s.AsBytes(), want), "AsBytes", "second call %x", s.AsBytes())
	}
	in := append([]byte{}, want...)
	back, err = bitset256.FromBytes(in)
	m.Check(err == nil && bytes.Equal(in, want), "FromBytes", "input changed, %v", err)
	hb, err := bitset256.FromHex(text)
	if m.Check(err == nil, "FromHex", "%v", err) {
		m.Check(hb.Equals(s) && bytes.Equal(hb.Indices(), l), "text", "%v", hb.Indices())
		hb.Toggle(7)
		m.Check(bytes.Equal(back.Indices(), l), "text", "results share storage")
	}
	// upper case is the same text, if it is one
	up, err := bitset256.FromHex(strings.ToUpper(text))
	m.Check(err != nil || bytes.Equal(up.Indices(), l), "upper case", "")
}

func rejectBytes(m *mon.M, b []byte) {
	m.Do("bytes", func() {
		s, err := bitset256.FromBytes(b)
		if len(b) == 32 {
			if m.Check(err == nil, "FromBytes", "%v", err) {
				m.NonTrivial()
				m.Check(bytes.Equal(s.AsBytes(), b), "FromBytes", "%v", s)
			}
			return
		}
		m.NonTrivial()
		m.Event("rejected")
		m.Check(err != nil, "not rejected", "%v", s)
	}, b)
}

func rejectText(m *mon.M, t string) {
	m.Do("text", func() {
		s, err := bitset256.FromHex(t)
		b, herr := hex.DecodeString(t)
		if herr == nil && len(b) == 32 {
			if strings.ToLower(t) == t || err == nil {
				m.Check(err == nil && s.AsHex() == strings.ToLower(t), "FromHex", "%v, %v", s, err)
			}
			return
		}
		m.NonTrivial()
		m.Event("rejected")
		m.Check(err != nil, "not rejected", "%v", s)
	}, t)
}

func main() {
	mon.Main("C61", rule, func(m *mon.M) {
		m.Require("sets", 60000)
		m.Require("rejected", 3000)
		m.Par("elements", 256, func(m *mon.M, i int) {
			for j := i; j < 256; j++ {
				l := []byte{byte(i), byte(j)}
				if i == j {
					l = l[:1]
				}
				m.Do("pair", func() { set(m, l) }, l)
				var c []byte
				for x := 0; x < 256; x++ {
					if x != i && x != j {
						c = append(c, byte(x))
					}
				}
				m.Do("all but a pair", func() { set(m, c) }, l)
			}
		})
		m.Do("empty", func() { set(m, nil) })
		m.Par("random", 64, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for k := 0; k < m.N(2000, 10000); k++ {
				p := 1 + r.IntN(63)
				var l []byte
				for x := 0; x < 256; x++ {
					if r.IntN(64) < p {
						l = append(l, byte(x))
					}
				}
				m.Do("random", func() { set(m, l) }, l)
				rejectBytes(m, r.Bytes(r.Len(80)))
				rejectBytes(m, r.Bytes(32))
				t := hex.EncodeToString(r.Bytes(32))
				rejectText(m, t)
				rejectText(m, r.Case(t))
				rejectText(m, r.Mutate(t, "0123456789abcdefABCDEFg G-+x_\x00\xff"))
				rejectText(m, hex.EncodeToString(r.Bytes(r.Len(80))))
				rejectText(m, gen.Pick(r, "0x"+t, "0x"+t[2:], " "+t, t+"\n", t[:63], t+"0", t+"00", t[1:], t[2:], "", "-"+t[1:], "+"+t[1:], t[:32]+"é"+t[34:], strings.Repeat("g", 64), t+t))
			}
		})
		for n := 0; n <= 300; n++ {
			rejectBytes(m, make([]byte, n))
			rejectBytes(m, bytes.Repeat([]byte{0xff}, n))
			rejectText(m, strings.Repeat("0", n))
			rejectText(m, strings.Repeat("f", n))
		}
		rejectBytes(m, nil)
		for i := 0; i < 64; i++ {
			for c := 0; c < 256; c++ {
				rejectText(m, strings.Repeat("5", i)+string([]byte{byte(c)})+strings.Repeat("5", 63-i))
			}
		}
	})
}
