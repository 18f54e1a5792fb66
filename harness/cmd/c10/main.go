// C10: address generation.
package main

import (
	"bytes"
	"strings"

	"github.com/ndau/ndaumath/pkg/address"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "all 256 kinds with data of every length from 0 to 300 and random lengths up to 5000 and around powers of two up to millions, data which are themselves addresses, keys or words, in buffers with spare capacity and in histories which generate other addresses in between; " +
	"non-trivial when an address is generated and compared with the reference; distinct by kind and data"

// texts are data with a form of their own: addresses, keys, their decodings,
// numbers and words.
func texts(r gen.R, kind byte) []byte {
	a, ok := ref.Address(kind, r.Bytes(12+r.IntN(40)))
	if !ok || r.IntN(4) == 0 {
		a, _ = ref.Address(gen.Pick(r, []byte(ref.AddressKinds)...), r.Bytes(20))
	}
	x := hd.XKey(r)
	switch r.IntN(9) {
	case 0:
		return []byte(a)
	case 1:
		return []byte(strings.ToUpper(a))
	case 2:
		b, _ := ref.B32Decode(a)
		return b
	case 3:
		return []byte(x.Text())
	case 4:
		return x.Pub()
	case 5:
		return []byte(x.Public().Text())
	case 6:
		return []byte(strings.Join(ref.PhraseWords(r.Bytes(16)), " "))
	case 7:
		return []byte(strings.Repeat(gen.Pick(r, " ", "\x00", "\xff", "a", "=", "\n"), 12+r.IntN(60)))
	}
	return []byte(gen.Pick(r, "\"", "{", "\xa9", "\xc4", " ") + a)
}

func generate(m *mon.M, r gen.R, kind byte, n int) {
	var buf []byte
	if n == formed {
		t := texts(r, kind)
		n = len(t)
		buf = append(t, r.Bytes(40)...)
	} else {
		buf = r.Bytes(n + 40)
	}
	keep := append([]byte{}, buf...)
	data := buf[:n]
	m.Do("Generate", func() {
		a, err := address.Generate(kind, data)
		want, ok := ref.Address(kind, keep[:n])
		m.Check(bytes.Equal(buf, keep), "input changed", "%x became %x", keep, buf)
		if !ok {
			m.Event("refused")
			m.Check(err != nil, "no error", "got %s", a)
			m.Check(a == address.Address{}, "address with an error", "got %s", a)
			return
		}
		m.NonTrivial()
		m.Event("generated")
		if !m.Check(err == nil, "error", "%v", err) {
			return
		}
		s := a.String()
		m.Check(s == want, "wrong address", "got %s, want %s", s, want)
		m.Check(a.Kind() == kind, "kind", "got %c", a.Kind())
		m.Check(a.Revalidate() == nil, "not valid", "%s: %v", s, a.Revalidate())
		v, err := address.Validate(s)
		m.Check(err == nil && v == a, "not valid", "%s: %v", s, err)
		v, err = address.Validate(strings.ToUpper(s))
		m.Check(err == nil && v == a, "not valid", "%s in upper case: %v", s, err)
		b, err := a.MarshalText()
		m.Check(err == nil && string(b) == want, "text", "got %q, %v", b, err)
		// the same again, after others
		address.Generate('n', keep)
		c, err := address.Generate(kind, append([]byte{}, data...))
		m.Check(err == nil && c == a, "not deterministic", "%s then %s, %v", a, c, err)
		// and the data makes a difference
		if n > 0 {
			keep[r.IntN(n)] ^= 1 << r.IntN(8)
			c, err = address.Generate(kind, keep[:n])
			m.Check(err == nil && c != a, "different data", "gives %s too", c)
		}
	}, kind, data)
}

var names = map[string]byte{"user": 'a', "u": 'a', "ndau": 'n', "endowment": 'e', "exchange": 'x', "bpc": 'b', "marketmaker": 'm'}

// formed stands for the length of data which have a form.
const formed = -1

func kinds(m *mon.M) {
	for i := 0; i < 256; i++ {
		k := byte(i)
		m.Do("kind", func() {
			valid := strings.IndexByte(ref.AddressKinds, k) >= 0
			m.Check(address.IsValidKind(k) == valid, "IsValidKind", "got %v", !valid)
			for _, in := range []any{k, int8(k)} {
				got, err := address.ParseKind(in)
				m.Check((err == nil) == valid && (err != nil || got == k), "ParseKind", "%T: got %d, %v", in, got, err)
			}
			if k < 128 {
				low := k
				if k >= 'A' && k <= 'Z' {
					low += 32
				}
				for _, in := range []any{rune(k), string(rune(k))} {
					got, err := address.ParseKind(in)
					want := strings.IndexByte(ref.AddressKinds, low) >= 0
					if k == 'u' || k == 'U' {
						if _, ok := in.(string); ok {
							want, low = true, 'a'
						}
					}
					m.Check((err == nil) == want && (err != nil || got == low), "ParseKind", "%T: got %d, %v", in, got, err)
				}
			}
			m.NonTrivial()
		}, k)
	}
	for n, k := range names {
		for _, s := range []string{n, strings.ToUpper(n), strings.Title(n)} {
			m.Do("kind name", func() {
				m.NonTrivial()
				got, err := address.ParseKind(s)
				m.Check(err == nil && got == k, "ParseKind", "got %c, %v", got, err)
			}, s)
		}
	}
	for _, in := range []any{nil, 3, uint16(97), "", []byte("a"), 1.5, true} {
		m.Do("no kind", func() {
			got, err := address.ParseKind(in)
			m.Check(err != nil, "ParseKind", "got %d", got)
		}, in)
	}
}

func main() {
	mon.Main("C10", rule, func(m *mon.M) {
		m.Require("generated", 20000)
		m.Require("refused", 3000)
		kinds(m)
		m.Par("all", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for n := i; n <= 300; n += 16 {
				for _, k := range []byte(ref.AddressKinds) {
					generate(m, r, k, n)
				}
			}
			for k := i; k < 256; k += 16 {
				generate(m, r, byte(k), 32)
				generate(m, r, byte(k), r.Len(100))
			}
			for j := m.N(3000, 20000); j > 0; j-- {
				generate(m, r, gen.Pick(r, []byte(ref.AddressKinds)...), formed)
			}
			for j := m.N(60000, 200000); j > 0; j-- {
				k := gen.Pick(r, []byte(ref.AddressKinds)...)
				if r.IntN(10) == 0 {
					k = byte(r.IntN(256))
				}
				n := r.Len(200)
				if r.IntN(50) == 0 {
					n = r.Len(5000)
				}
				generate(m, r, k, n)
			}
		})
		longs := gen.Longs(301, m.N(1<<22, 1<<25))
		m.Par("long", len(longs), func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			generate(m, r, gen.Pick(r, []byte(ref.AddressKinds)...), longs[i])
		})
	})
}
