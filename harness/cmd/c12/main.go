// C12: base 32 and checksums.
package main

import (
	"bytes"
	"crypto/sha256"
	"strings"

	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "byte strings of every length from 0 to 600 and random ones up to 5000; encodings, changes of them and arbitrary text; checksums right, changed and of other messages, widths of every value; " +
	"non-trivial when an encoding or checksum was compared with the reference; distinct by input"

func encode(m *mon.M, r gen.R, n int) {
	buf := r.Bytes(n + 16)
	b := buf[:n]
	keep := append([]byte{}, buf...)
	m.Do("encode", func() {
		m.NonTrivial()
		s := b32.Encode(b)
		want := ref.B32(b)
		m.Check(s == want, "Encode", "got %q, want %q", s, want)
		back, err := b32.Decode(s)
		m.Check(err == nil && bytes.Equal(back, b), "Decode", "%q gives %x, %v", s, back, err)
		t := r.Case(s)
		back, err = b32.Decode(t)
		m.Check(err == nil && bytes.Equal(back, b), "Decode", "%q gives %x, %v", t, back, err)
		c := ref.CRC16(b)
		k := b32.Checksum16(b)
		m.Check(len(k) == 2 && k[0] == byte(c>>8) && k[1] == byte(c), "Checksum16", "got %x, want %04x", k, c)
		m.Check(b32.Check(m.Arg(b), m.Arg(k)), "Check", "rejects %x", k)
		x := []byte{k[0] ^ byte(r.Rand.Uint64()), k[1] ^ byte(r.Rand.Uint64())}
		if r.IntN(2) == 0 {
			x = []byte{k[0], k[1]}
			x[r.IntN(2)] ^= 1 << r.IntN(8)
		}
		m.Check(b32.Check(m.Arg(b), m.Arg(x)) == bytes.Equal(x, k), "Check", "of %x, the checksum is %x", x, k)
		h := sha256.Sum256(b)
		m.Check(bytes.Equal(b32.Checksum24(b), h[:3]), "Checksum24", "got %x, want %x", b32.Checksum24(b), h[:3])
		a := signature.AddChecksum(b)
		m.Check(bytes.Equal(a, ref.Checksummed(b)), "AddChecksum", "got %x, want %x", a, ref.Checksummed(b))
		m.Check(len(a)%5 == 0, "AddChecksum", "gives %d bytes", len(a))
		msg, ok := signature.CheckChecksum(m.Arg(a))
		m.Check(ok && bytes.Equal(msg, b), "CheckChecksum", "of %x gives %x, %v", a, msg, ok)
		m.Check(bytes.Equal(buf, keep), "input changed", "to %x", buf)
	}, b)
}

func check(m *mon.M, r gen.R, b []byte) {
	m.Do("CheckChecksum", func() {
		keep := append([]byte{}, b...)
		want, wok := ref.Unchecksum(b)
		msg, ok := signature.CheckChecksum(m.Arg(b))
		m.Check(ok == wok, "CheckChecksum", "says %v, want %v", ok, wok)
		if ok {
			m.Event("checksum accepted")
			m.Check(bytes.Equal(msg, want), "message", "got %x, want %x", msg, want)
		} else {
			m.Event("checksum rejected")
		}
		m.Check(bytes.Equal(b, keep), "input changed", "from %x", keep)
		m.NonTrivial()
	}, b)
}

func hostileSum(m *mon.M, r gen.R) {
	msg := r.Bytes(r.Len(120))
	b := ref.Checksummed(msg)
	switch r.IntN(8) {
	case 0:
		b[r.IntN(len(b))] ^= 1 << r.IntN(8)
	case 1:
		b[0] = byte(r.IntN(256))
	case 2:
		b[0] = byte(r.IntN(12))
	case 3: // a correct checksum of another width
		w := r.IntN(29)
		h := sha256.Sum224(msg)
		b = append(append([]byte{byte(w)}, msg...), h[28-w:]...)
	case 4:
		b = b[:r.IntN(len(b)+1)]
	case 5:
		b = append(b, r.Bytes(1+r.IntN(6))...)
	case 6:
		b = r.Bytes(r.Len(40))
	}
	check(m, r, b)
}

func strip(s string) string {
	return strings.NewReplacer("\r", "", "\n", "").Replace(s)
}

func decode(m *mon.M, r gen.R) {
	s := ref.B32(r.Bytes(r.Len(60)))
	switch r.IntN(8) {
	case 0:
		s = r.Text(ref.Alphabet+"=", 40)
	case 1:
		s = r.Mutate(s, ref.Alphabet+"=lo01\n")
	case 2:
		s = r.Case(r.Mutate(s, ref.Alphabet))
	case 3:
		s = strings.TrimRight(s, "=")
	case 4:
		s = s + strings.Repeat("=", r.IntN(9))
	case 5:
		if len(s) > 0 {
			i := r.IntN(len(s))
			s = s[:i] + gen.Pick(r, "l", "o", "0", "1", "L", "O", "I", "i", "=", "\n", " ", "-", "\x00", "é") + s[i+1:]
		}
	case 6:
		s = strings.Repeat(string(ref.Alphabet[r.IntN(32)]), r.IntN(30))
	}
	m.Do("decode", func() {
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				b32.Decode(s) // case folding may make ASCII of it
				return
			}
		}
		want, ok := ref.B32Decode(strip(s))
		got, err := b32.Decode(s)
		if !ok {
			if strings.Contains(s, "=") {
				// the decoder of the standard library tolerates some wrong
				// amounts and places of padding
				m.Event("odd padding")
				return
			}
			m.Event("decoding rejected")
			m.Check(err != nil, "not rejected", "%q gives %x", s, got)
			return
		}
		m.NonTrivial()
		m.Event("decoded")
		m.Check(err == nil && bytes.Equal(got, want), "Decode", "gives %x, %v; want %x", got, err, want)
	}, s)
}

func main() {
	mon.Main("C12", rule, func(m *mon.M) {
		m.Require("decoded", 10000)
		m.Require("decoding rejected", 10000)
		m.Require("checksum accepted", 5000)
		m.Require("checksum rejected", 20000)
		for i := 0; i < 256; i++ {
			m.Do("Index", func() {
				m.NonTrivial()
				c := string([]byte{byte(i)})
				m.Check(b32.Index(c) == strings.IndexByte(ref.Alphabet, byte(i)), "Index", "got %d", b32.Index(c))
			}, i)
		}
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for n := i; n <= 600; n += 16 {
				encode(m, r, n)
				b := ref.Checksummed(r.Bytes(n))
				for w := 0; w < 256; w++ {
					b[0] = byte(w)
					check(m, r, append([]byte{}, b...))
				}
			}
			for j := m.N(60000, 300000); j > 0; j-- {
				n := r.Len(150)
				if r.IntN(40) == 0 {
					n = r.Len(5000)
				}
				encode(m, r, n)
				hostileSum(m, r)
				decode(m, r)
				decode(m, r)
			}
		})
		longs := gen.Longs(601, m.N(1<<18, 1<<22))
		m.Par("long", len(longs), func(m *mon.M, i int) {
			encode(m, gen.R{Rand: m.Rand}, longs[i])
		})
	})
}
