// C50: key phrases round trip and are the documented encoding.
package main

import (
	"bytes"
	"strings"

	"github.com/ndau/ndaumath/pkg/words"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "byte strings: all of up to 2 bytes, and of every length to 300 and some to 20000, constant, with runs, single bits and random; the words against an independent encoder, and back; " +
	"non-trivial when at least one byte is encoded; distinct by bytes"

func one(m *mon.M, b []byte) {
	if len(b) > 0 {
		m.NonTrivial()
	}
	// in a larger buffer, the rest of which stays as it is
	buf := append(append([]byte{}, b...), 0xa5, 0x5a, 0xa5)
	in := buf[:len(b)]
	w, err := words.FromBytes("en", in)
	if !m.Check(err == nil, "FromBytes", "%v", err) {
		return
	}
	m.Check(bytes.Equal(buf, append(append([]byte{}, b...), 0xa5, 0x5a, 0xa5)), "input changed", "%x", buf)
	want := ref.PhraseWords(b)
	if !m.Check(strings.Join(w, " ") == strings.Join(want, " "), "phrase", "got %v, want %v", w, want) {
		return
	}
	keep := append([]string{}, w...)
	short, ok := ref.FromWords(want)
	if !ok {
		panic("reference")
	}
	back, err := words.ToBytes("en", w)
	m.Check(strings.Join(keep, " ") == strings.Join(w, " "), "words changed", "%v", w)
	if !m.Check(err == nil, "ToBytes", "%v of %v", err, w) {
		return
	}
	if len(short) == len(b) {
		m.Event("round trip")
		m.Check(bytes.Equal(back, b), "round trip", "%x", back)
	} else {
		// the phrase is also that of a shorter string
		m.Event("ambiguous")
		m.Check(bytes.Equal(back, b) || bytes.Equal(back, short), "round trip", "%x", back)
	}
	// results belong to the caller
	for i := range w {
		w[i] = "zoo"
	}
	for i := range back {
		back[i] ^= 0xff
	}
	w2, err := words.FromBytes("en", in)
	m.Check(err == nil && strings.Join(w2, " ") == strings.Join(want, " "), "second call", "%v, %v", w2, err)
}

func main() {
	mon.Main("C50", rule, func(m *mon.M) {
		m.Require("round trip", 10000)
		m.Require("ambiguous", 3)
		m.Par("all", 256, func(m *mon.M, i int) {
			if i == 0 {
				m.Do("empty", func() { one(m, nil) })
				m.Do("empty", func() { one(m, []byte{}) })
			}
			b := []byte{byte(i)}
			m.Do("one byte", func() { one(m, b) }, b)
			for j := 0; j < 256; j++ {
				b := []byte{byte(i), byte(j)}
				m.Do("two bytes", func() { one(m, b) }, b)
			}
		})
		m.Par("lengths", 301, func(m *mon.M, n int) {
			r := gen.R{Rand: m.Rand}
			for _, c := range []byte{0, 1, 0x55, 0x80, 0xaa, 0xff} {
				b := bytes.Repeat([]byte{c}, n)
				m.Do("constant", func() { one(m, b) }, b)
			}
			for j := 0; j < m.N(400, 3000); j++ {
				b := r.Bytes(n)
				if r.IntN(2) == 0 {
					for k := range b {
						b[k] = byte(r.Rand.Uint64())
					}
				}
				m.Do("random", func() { one(m, b) }, b)
			}
			if n > 0 {
				for j := 0; j < 20; j++ {
					b := make([]byte, n)
					b[r.IntN(n)] = 1 << r.IntN(8)
					m.Do("single bit", func() { one(m, b) }, b)
				}
			}
			// phrases which two strings share
			for j := 0; j < m.N(20, 200); j++ {
				b := r.Bytes(n)
				if ref.PhraseLen(n) != ref.PhraseLen(n+1) {
					break
				}
				// the byte which the check value of b begins with
				p := ref.Phrase(b)
				check := 11*len(p) - 8*n
				v := uint64(ref.CRC8(b))
				c := append(append([]byte{}, b...), byte(v>>(check-8)))
				m.Do("one byte more", func() { one(m, c) }, c)
			}
		})
		m.Par("long", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < m.N(3, 50); j++ {
				b := r.Bytes(300 + r.IntN(3000))
				if j == 0 {
					b = r.Bytes(gen.Pick(r, 8191, 8192, 20000))
				}
				m.Do("long", func() { one(m, b) }, b)
			}
		})
		longs := gen.Longs(301, m.N(150000, 600000))
		m.Par("around", len(longs), func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			b := make([]byte, longs[i])
			for j := range b {
				b[j] = byte(r.Rand.Uint32())
			}
			m.Do("long", func() { one(m, b) }, b)
		})
		if m.Thorough {
			m.Par("three", 256, func(m *mon.M, i int) {
				for j := 0; j < 1<<16; j++ {
					b := []byte{byte(i), byte(j >> 8), byte(j)}
					m.Do("three bytes", func() { one(m, b) }, b)
				}
			})
		}
	})
}
