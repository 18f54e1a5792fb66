// C11: address validation.
package main

import (
	"encoding/json"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "addresses of every kind; all their single character errors, adjacent transpositions and (for some) all bit bursts up to a length, the rest at random; other prefixes, padding, line breaks, white space, case, non-ASCII letters, " +
	"recomputed checksums over changed contents, other lengths; non-trivial when the text has 48 characters; distinct by text"

func valid(r gen.R) string {
	k := gen.Pick(r, []byte(ref.AddressKinds)...)
	s, _ := ref.Address(k, r.Bytes(12+r.IntN(60)))
	return s
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

var old, _ = ref.Address('x', []byte("the previous contents"))

// judge compares all the decoders with the reference. must says that s is
// known not to be valid from the way it was made.
func judge(m *mon.M, kind, s string, mustReject bool) {
	m.Do(kind, func() {
		if len(s) == 48 {
			m.NonTrivial()
		}
		want, ok := ref.ValidAddress(s)
		free := false
		if !ascii(s) {
			// case folding may map other letters to ASCII
			w, fok := ref.ValidAddress(strings.ToLower(s))
			if fok {
				want, free = w, true
			}
		}
		if mustReject {
			if ok {
				panic("the reference accepts an error which it cannot")
			}
		}
		a, err := address.Validate(s)
		if err == nil {
			m.Event("accepted")
			if !ok && !free {
				m.Failf("accepted", "as %q", a)
				return
			}
			m.Check(a.String() == want, "not canonical", "got %q, want %q", a, want)
			m.Check(a.Kind() == want[2], "kind", "got %c", a.Kind())
			m.Check(a.Revalidate() == nil, "Revalidate", "%v", a.Revalidate())
		} else {
			m.Event("rejected")
			m.Check(!ok, "rejected", "%v", err)
			m.Check(a == address.Address{}, "address with an error", "got %q", a)
		}
		prev, _ := address.Validate(old)
		u := prev
		err2 := u.UnmarshalText(m.Arg([]byte(s)))
		m.Check((err == nil) == (err2 == nil), "decoders disagree", "Validate %v, UnmarshalText %v", err, err2)
		if err2 == nil {
			m.Check(u == a, "decoders disagree", "Validate %q, UnmarshalText %q", a, u)
		} else {
			m.Check(u == prev, "receiver changed", "to %q", u)
		}
	}, s)
}

// viaJSON compares decoding from JSON, for texts JSON can carry.
func viaJSON(m *mon.M, s string) {
	m.Do("JSON", func() {
		j, err := json.Marshal(s)
		var back string
		if err != nil || json.Unmarshal(j, &back) != nil || back != s {
			return
		}
		m.NonTrivial()
		v, err := address.Validate(s)
		prev, _ := address.Validate(old)
		l := []address.Address{prev}
		err2 := json.Unmarshal(append(append([]byte{'['}, j...), ']'), &l)
		m.Check((err == nil) == (err2 == nil), "decoders disagree", "Validate %v, JSON %v", err, err2)
		if err2 == nil && err == nil {
			m.Check(len(l) == 1 && l[0] == v, "decoders disagree", "%v", l)
			m.Event("JSON accepted")
			o, err := json.Marshal(v)
			m.Check(err == nil && string(o) == `"`+strings.ToLower(s)+`"` || !ascii(s), "JSON", "%s, %v", o, err)
			mp := map[address.Address]int{v: 1}
			o, err = json.Marshal(mp)
			var mq map[address.Address]int
			m.Check(err == nil && json.Unmarshal(o, &mq) == nil && mq[v] == 1, "JSON", "as a key of a map: %s, %v, %v", o, err, mq)
		}
	}, s)
}

func bits(s string) []byte {
	b, _ := ref.B32Decode(s)
	return b
}

func xorBits(b []byte, at int, pat uint32, n int) []byte {
	out := append([]byte{}, b...)
	for i := 0; i < n; i++ {
		if pat>>i&1 == 1 {
			out[(at+i)/8] ^= 0x80 >> ((at + i) % 8)
		}
	}
	return out
}

func exhaustive(m *mon.M, r gen.R, maxBurst int) {
	s := valid(r)
	judge(m, "valid", s, false)
	for i := range s {
		for _, c := range []byte(ref.Alphabet) {
			if c != s[i] {
				judge(m, "single character", s[:i]+string(rune(c))+s[i+1:], true)
			}
		}
		for _, c := range []string{"l", "o", "0", "1", "L", "O", "=", "\n", "\r", " ", "-", "\x00", "\xff"} {
			judge(m, "single foreign character", s[:i]+c+s[i+1:], true)
		}
		if i+1 < len(s) && s[i] != s[i+1] {
			judge(m, "transposition", s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:], true)
		}
		judge(m, "deletion", s[:i]+s[i+1:], true)
		judge(m, "doubling", s[:i]+s[i:i+1]+s[i:], true)
	}
	b := bits(s)
	for n := 1; n <= maxBurst; n++ {
		for at := 0; at+n <= 240; at++ {
			// bursts of length n begin and end with a change
			if n == 1 {
				judge(m, "burst", ref.B32(xorBits(b, at, 1, 1)), true)
				continue
			}
			for p := uint32(0); p < 1<<(n-2); p++ {
				judge(m, "burst", ref.B32(xorBits(b, at, 1|p<<1|1<<(n-1), n)), true)
			}
		}
	}
}

func randomBurst(m *mon.M, r gen.R, s string) {
	b := bits(s)
	for j := 0; j < 60; j++ {
		n := 2 + r.IntN(15)
		at := r.IntN(241 - n)
		judge(m, "burst", ref.B32(xorBits(b, at, uint32(r.Rand.Uint64())|1|1<<(n-1), n)), true)
	}
}

func summed(b []byte) string {
	c := ref.CRC16(b)
	return ref.B32(append(append([]byte{}, b...), byte(c>>8), byte(c)))
}

func hostile(m *mon.M, r gen.R) {
	s := valid(r)
	b := bits(s)
	switch r.IntN(12) {
	case 0:
		s = r.Case(s)
	case 1: // any contents with the right checksum: the kind decides
		c := append([]byte{}, b[:28]...)
		c[r.IntN(28)] ^= byte(1 + r.IntN(255))
		s = r.Case(summed(c))
	case 2:
		s = summed(r.Bytes(28))
	case 3: // other lengths with the right checksum
		n := gen.Pick(r, 3, 8, 13, 18, 23, 33, 38, 29, 27, 26)
		s = summed(append(append([]byte{}, b[:2]...), r.Bytes(n)...))
	case 4: // padding and line breaks which a lenient decoder skips
		pre := summed(append(append([]byte{}, b[:2]...), r.Bytes(21)...)) // 25 bytes, 40 characters
		s = pre + gen.Pick(r, strings.Repeat("=", 8), strings.Repeat("\n", 8), "\r\n\r\n\r\n\r\n", "        ", strings.Repeat("a", 8))
	case 5: // 48 characters with padding at the end, right checksum
		n := gen.Pick(r, 26, 27, 28, 29) - 2
		s = summed(append(append([]byte{}, b[:2]...), r.Bytes(n-2)...))
	case 6: // line breaks inside
		k := gen.Pick(r, 1, 2, 8)
		i := r.IntN(len(s))
		s = s[:i] + strings.Repeat(gen.Pick(r, "\n", "\r"), k) + s[i:]
		if r.IntN(2) == 0 {
			s = s[:48]
		}
	case 7:
		i := r.IntN(len(s) - 3)
		s = s[:i] + gen.Pick(r, "K", "İ", "é", "ſ") + s[i+gen.Pick(r, 1, 2, 3):]
	case 8:
		s = gen.Pick(r, " ", "\n", "\t", "nd", "ND") + s
		if r.IntN(2) == 0 {
			s = s[:48]
		}
	case 9:
		s = r.Text(ref.Alphabet, 60)
	case 10: // Kelvin sign for a k
		if i := strings.IndexByte(s, 'k'); i >= 0 {
			s = s[:i] + "\u212a" + s[i+1:]
		}
	default:
		for k := 1 + r.IntN(4); k > 0; k-- {
			s = r.Mutate(s, ref.Alphabet)
		}
	}
	judge(m, "hostile", s, false)
	viaJSON(m, s)
}

// canonical: texts which denote the same address give equal values.
func same(m *mon.M, r gen.R) {
	s := valid(r)
	t := r.Case(s)
	m.Do("same address", func() {
		m.NonTrivial()
		a, err := address.Validate(s)
		b, err2 := address.Validate(t)
		var c address.Address
		err3 := c.UnmarshalText(m.Arg([]byte(t)))
		m.Check(err == nil && err2 == nil && err3 == nil, "rejected", "%v, %v, %v", err, err2, err3)
		m.Check(a == b && b == c, "not equal", "%q, %q, %q", a, b, c)
	}, t)
	viaJSON(m, t)
}

func main() {
	mon.Main("C11", rule, func(m *mon.M) {
		m.Require("accepted", 5000)
		m.Require("rejected", 100000)
		m.Require("JSON accepted", 500)
		m.Par("exhaustive", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(2, 6); j > 0; j-- {
				exhaustive(m, r, m.N(7, 12))
			}
		})
		m.Par("hostile", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(30000, 200000); j > 0; j-- {
				hostile(m, r)
				same(m, r)
				if j%40 == 0 {
					s := valid(r)
					randomBurst(m, r, s)
				}
			}
		})
		if m.Thorough {
			m.Par("all bursts", 16, func(m *mon.M, i int) {
				r := gen.R{Rand: m.Rand}
				b := bits(valid(r))
				for n := 13; n <= 16; n++ {
					for at := i; at+n <= 240; at += 16 {
						for p := uint32(0); p < 1<<(n-2); p++ {
							s := ref.B32(xorBits(b, at, 1|p<<1|1<<(n-1), n))
							if _, err := address.Validate(s); err == nil {
								judge(m, "burst", s, true)
							}
							m.Event("burst of 13 to 16 bits")
						}
					}
				}
			})
		}
	})
}
