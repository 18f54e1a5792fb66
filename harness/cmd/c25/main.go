// C25: import of keys in the old format.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "old-format texts of private and public keys with any depth, fingerprint, number and chain code, the four versions and special scalars; with wrong checksums, lengths, key prefixes, scalars out of range and points off the curve under a right checksum; " +
	"changes of characters; arbitrary and new-format text; non-trivial when the text decodes to 80 bytes; distinct by text"

var versions = [][]byte{{99, 103, 31}, {99, 100, 16}, {139, 103, 31}, {139, 100, 16}}

func payload(ver []byte, x *ref.XKey, data []byte) []byte {
	b := append([]byte{}, ver...)
	b = append(b, x.Depth)
	b = append(b, x.FP...)
	b = binary.BigEndian.AppendUint32(b, x.Num)
	b = append(b, x.Chain...)
	return append(b, data...)
}

func seal(p []byte) string {
	h := sha256.Sum256(p)
	h = sha256.Sum256(h[:])
	return ref.B32(append(append([]byte{}, p...), h[:4]...))
}

func keyData(x *ref.XKey) []byte {
	if x.Private {
		return append([]byte{0}, x.Key...)
	}
	return x.Key
}

func imports(m *mon.M, r gen.R, s string, x *ref.XKey) {
	m.Do("valid", func() {
		m.NonTrivial()
		m.Event("imported")
		k, err := key.FromOldSerialization(s)
		if !m.Check(err == nil, "refused", "%v", err) {
			return
		}
		hd.Same(m, "import", k, x)
		for name, f := range map[string]func(string) (*keyaddr.Key, error){"FromOldString": keyaddr.FromOldString, "FromString": keyaddr.FromString} {
			ka, err := f(s)
			m.Check(err == nil && ka.Key == x.Text(), name, "%v, %v", ka, err)
		}
		// it derives like the native one
		i := hd.Index(r)
		want, werr := x.Child(i)
		got, gerr := k.Child(i)
		if werr != nil {
			m.Check(gerr != nil, "child not refused", "%d", i)
		} else if m.Check(gerr == nil, "child refused", "%v", gerr) {
			hd.Same(m, "child of an import", got, want)
		}
		p, err := k.Public()
		if m.Check(err == nil, "Public", "%v", err) {
			hd.Same(m, "public key of an import", p, x.Public())
		}
		// a second import after the first was wiped
		k.Zero()
		k, err = key.FromOldSerialization(s)
		if m.Check(err == nil, "refused", "%v", err) {
			hd.Same(m, "second import", k, x)
		}
	}, s)
}

func rejects(m *mon.M, kind, s string) {
	m.Do(kind, func() {
		m.NonTrivial()
		m.Event("rejected")
		k, err := key.FromOldSerialization(s)
		m.Check(err != nil && k == nil, "not rejected", "%v", k)
		ka, err := keyaddr.FromOldString(s)
		m.Check(err != nil && ka == nil, "not rejected", "FromOldString: %v", ka)
		ka, err = keyaddr.FromString(s)
		m.Check(err != nil && ka == nil, "not rejected", "FromString: %v", ka)
	}, s)
}

// hostile text: no panic, and the verdict of the reference.
func hostile(m *mon.M, s string) {
	m.Do("hostile", func() {
		k, err := key.FromOldSerialization(s)
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				return
			}
		}
		b, ok := ref.B32Decode(strings.NewReplacer("\n", "", "\r", "").Replace(s))
		if !ok && strings.Contains(s, "=") {
			m.Check(err != nil || k != nil, "nil key", "")
			return
		}
		good := ok && len(b) == 80
		if good {
			m.NonTrivial()
			h := sha256.Sum256(b[:76])
			h = sha256.Sum256(h[:])
			d := b[43:76]
			good = bytes.Equal(h[:4], b[76:]) && goodKey(d)
		}
		if ok && len(b) == 80 && free(b[43:76]) {
			return
		}
		m.Check((err == nil) == good, "verdict", "%v", err)
	}, s)
}

// free tells whether the x coordinate is not reduced: both verdicts are right.
func free(d []byte) bool {
	return d[0] != 0 && new(big.Int).SetBytes(d[1:]).Cmp(ref.P) >= 0
}

func goodKey(d []byte) bool {
	if d[0] == 0 {
		n := new(big.Int).SetBytes(d[1:])
		return n.Sign() > 0 && n.Cmp(ref.N) < 0
	}
	_, ok := ref.ParseP(d)
	return ok
}

func main() {
	mon.Main("C25", rule, func(m *mon.M) {
		m.Require("imported", 1500)
		m.Require("rejected", 20000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(1000, 5000); j > 0; j-- {
				x := hd.XKey(r)
				ver := versions[0]
				if r.IntN(2) == 0 {
					x = x.Public()
					ver = versions[1]
				}
				if r.IntN(3) == 0 {
					ver = gen.Pick(r, versions...)
				}
				p := payload(ver, x, keyData(x))
				s := seal(p)
				imports(m, r, s, x)
				imports(m, r, r.Case(s), x)
				// one character
				for k := 0; k < 12; k++ {
					at := r.IntN(len(s))
					c := ref.Alphabet[r.IntN(32)]
					if c != s[at] {
						rejects(m, "one character", s[:at]+string(rune(c))+s[at+1:])
					}
				}
				at := r.IntN(len(s) - 1)
				if s[at] != s[at+1] {
					rejects(m, "transposition", s[:at]+s[at+1:at+2]+s[at:at+1]+s[at+2:])
				}
				// wrong lengths under a right checksum
				for _, d := range []int{-76, -75, -40, -33, -10, -6, -5, -2, -1, 1, 2, 4, 5, 10, 80} {
					q := append([]byte{}, p...)
					if d < 0 {
						q = q[:len(q)+d]
					} else {
						q = append(q, r.Bytes(d)...)
					}
					rejects(m, "wrong length", seal(q))
				}
				rejects(m, "truncated", s[:r.IntN(len(s)/8)*8])
				rejects(m, "doubled", s+s)
				// wrong checksum
				b, _ := ref.B32Decode(s)
				b[76+r.IntN(4)] ^= 1 << r.IntN(8)
				rejects(m, "wrong checksum", ref.B32(b))
				h := sha256.Sum256(p)
				rejects(m, "single hash", ref.B32(append(append([]byte{}, p...), h[:4]...)))
				h = sha256.Sum256(h[:])
				rejects(m, "wrong checksum", ref.B32(append(append([]byte{}, p...), h[28:]...)))
				rejects(m, "wrong checksum", ref.B32(append(append([]byte{}, p...), 0, 0, 0, 0)))
				// bad keys under a right checksum
				for k := 0; k < 8; k++ {
					d := append([]byte{}, keyData(x)...)
					switch k {
					case 0:
						d = make([]byte, 33)
					case 1:
						n := new(big.Int).Add(ref.N, big.NewInt(int64(r.IntN(3))))
						d = append([]byte{0}, ref.Ser32(n)...)
					case 2:
						d = append([]byte{0}, bytes.Repeat([]byte{0xff}, 32)...)
					case 3:
						d[0] = byte(4 + r.IntN(252))
					case 4:
						d[0] = 1
					case 5: // off the curve, or on it by chance
						d = append([]byte{byte(2 + r.IntN(2))}, r.Bytes(32)...)
					case 6: // x not below p
						n := new(big.Int).Add(ref.P, big.NewInt(int64(r.IntN(200))))
						d = append([]byte{byte(2 + r.IntN(2))}, ref.Ser32(n)...)
					case 7:
						d = append([]byte{byte(r.IntN(6))}, r.Bytes(32)...)
					}
					if goodKey(d) || free(d) {
						hostile(m, seal(payload(ver, x, d)))
					} else {
						rejects(m, "bad key", seal(payload(ver, x, d)))
					}
				}
				// characters which are none of base 32's, around and within the text
				for _, c := range []string{" ", "\t", "\x00", "-", "0", "1", "l", "o", "\u00a0", "\v", "\ufeff", "  ", "\""} {
					i := 1 + r.IntN(len(s)-1)
					for _, t := range []string{c + s, s + c, c + s + c, s[:i] + c + s[i:]} {
						rejects(m, "other characters", t)
					}
				}
				hostile(m, r.Mutate(s, ref.Alphabet))
				hostile(m, r.Mutate(r.Mutate(s, ref.Alphabet+"=\n"), ref.Alphabet))
				hostile(m, r.Text(ref.Alphabet, 160))
				hostile(m, seal(r.Bytes(76)))
				rejects(m, "new format", x.Text()[4:])
				m.Do("new format", func() {
					k, err := key.FromOldSerialization(x.Text())
					m.Check(err != nil && k == nil, "not rejected", "%v", k)
				}, func() string { return x.Text() })
			}
		})
	})
}
