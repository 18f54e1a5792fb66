// C26: sources of randomness.
package main

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"io"

	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "seeds of every length and key pairs of both algorithms, and masters of wrong lengths up to 2^16, from sources with any bytes, delivered in full, byte by byte, in random pieces, with empty reads, with the error together with the last bytes; " +
	"sources which fail or end after each number of bytes; the default source; non-trivial when the source is not simply full; distinct by operation, length, bytes, delivery"

var errSource = errors.New("the source fails")

// source delivers its data in a given manner, then fails, and records what was taken.
type source struct {
	data   []byte
	at     int
	end    error // after the data
	mode   int   // 0 full, 1 byte by byte, 2 pieces, 3 pieces and empty reads
	joint  bool  // the error comes with the last bytes
	r      gen.R
	empty  int
	failed bool
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	left := len(s.data) - s.at
	if left == 0 {
		s.failed = true
		return 0, s.end
	}
	n := len(p)
	switch s.mode {
	case 1:
		n = 1
	case 2, 3:
		n = 1 + s.r.IntN(len(p))
		if s.mode == 3 && s.empty < 3 && s.r.IntN(3) == 0 {
			s.empty++
			return 0, nil
		}
		s.empty = 0
	}
	if n > left {
		n = left
	}
	copy(p, s.data[s.at:s.at+n])
	s.at += n
	if s.joint && s.at == len(s.data) {
		return n, s.end
	}
	return n, nil
}

type target struct {
	name string
	need int
	// generate returns what was made from the source, and its error
	generate func(rd io.Reader) (seed, pub, priv []byte, err error)
	want     func(data []byte) (seed, pub, priv []byte)
}

func pair(al signature.Algorithm) func(rd io.Reader) (seed, pub, priv []byte, err error) {
	return func(rd io.Reader) ([]byte, []byte, []byte, error) {
		p, s, err := signature.Generate(al, rd)
		if err != nil {
			// nothing usable
			if len(p.KeyBytes()) != 0 || len(s.KeyBytes()) != 0 || p.Algorithm() != signature.Algorithm(signature.Null) || s.Algorithm() != signature.Algorithm(signature.Null) {
				return nil, p.KeyBytes(), s.KeyBytes(), err
			}
			return nil, nil, nil, err
		}
		return nil, p.KeyBytes(), s.KeyBytes(), nil
	}
}

func targets() []target {
	var l []target
	for n := 16; n <= 64; n++ {
		l = append(l, target{fmt.Sprintf("seed of %d", n), n, func(rd io.Reader) ([]byte, []byte, []byte, error) {
			s, err := bip32.GenerateSeed(uint8(n), rd)
			if err != nil {
				s = nil // a partial seed may come with the error
			}
			return s, nil, nil, err
		}, func(d []byte) ([]byte, []byte, []byte) { return d, nil, nil }})
	}
	for i := 0; i < 6; i++ { // as often as a few lengths of seeds
		l = append(l, target{"secp256k1", 32, pair(signature.Secp256k1), func(d []byte) ([]byte, []byte, []byte) {
			x, err := ref.Master(d)
			if err != nil {
				panic(err)
			}
			return nil, x.Pub(), x.Key
		}}, target{"ed25519", 32, pair(signature.Ed25519), func(d []byte) ([]byte, []byte, []byte) {
			k := ed25519.NewKeyFromSeed(d)
			return nil, k.Public().(ed25519.PublicKey), k
		}})
	}
	return l
}

func good(m *mon.M, t target, s *source, data []byte) {
	m.Do("good", func() {
		if s.mode != 0 || s.joint {
			m.NonTrivial()
		}
		m.Event("generated")
		seed, pub, priv, err := t.generate(s)
		if !m.Check(err == nil, "error", "%v", err) {
			return
		}
		ws, wp, wk := t.want(data[:t.need])
		m.Check(bytes.Equal(seed, ws) && bytes.Equal(pub, wp) && bytes.Equal(priv, wk), "result", "got %x %x %x, want %x %x %x", seed, pub, priv, ws, wp, wk)
		m.Check(s.at == t.need, "bytes used", "%d of %d", s.at, t.need)
	}, t.name, data, s.mode, s.joint, len(s.data))
}

func bad(m *mon.M, t target, s *source) {
	m.Do("bad", func() {
		m.NonTrivial()
		m.Event("failed")
		seed, pub, priv, err := t.generate(s)
		m.Check(err != nil, "no error", "%x %x %x", seed, pub, priv)
		m.Check(seed == nil && pub == nil && priv == nil, "key with the error", "%x %x %x", seed, pub, priv)
	}, t.name, s.data, s.mode, s.joint, fmt.Sprint(s.end))
}

func main() {
	mon.Main("C26", rule, func(m *mon.M) {
		m.Require("generated", 5000)
		m.Require("failed", 20000)
		m.Require("default source", 1000)
		m.Require("wrong length", 50)
		m.Par("sources", 8, func(m *mon.M, shard int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(20, 60); j > 0; j-- {
				for _, t := range targets() {
					data := r.Bytes(t.need)
					for mode := 0; mode < 4; mode++ {
						more := append(append([]byte{}, data...), r.Bytes(r.IntN(40))...)
						good(m, t, &source{data: more, end: io.EOF, mode: mode, r: r}, more)
						good(m, t, &source{data: data, end: gen.Pick(r, errSource, io.EOF), mode: mode, joint: r.IntN(2) == 0, r: r}, data)
					}
					for n := 0; n < t.need; n++ {
						d := r.Bytes(n)
						bad(m, t, &source{data: d, end: gen.Pick(r, errSource, io.EOF, io.ErrUnexpectedEOF), mode: r.IntN(4), joint: r.IntN(2) == 0, r: r})
					}
				}
			}
		})
		m.Par("lengths", 1, func(m *mon.M, _ int) {
			r := gen.R{Rand: m.Rand}
			seen := map[string]bool{}
			fresh := func(b []byte) {
				m.Event("default source")
				m.Check(!seen[string(b)], "repeated", "%x", b)
				seen[string(b)] = true
				// not constant, not mostly unfilled
				distinct := map[byte]bool{}
				for _, c := range b {
					distinct[c] = true
				}
				m.Check(len(distinct) > len(b)/4, "not random", "%x", b)
				if len(b) >= 24 {
					m.Check(!bytes.Equal(b[len(b)-8:], make([]byte, 8)) && !bytes.Equal(b[:8], make([]byte, 8)), "not filled", "%x", b)
				}
			}
			for n := 0; n < 256; n++ {
				for k := 0; k < 10; k++ {
					m.Do("length", func() {
						m.NonTrivial()
						ok := n >= 16 && n <= 64
						s, err := key.GenerateSeed(uint8(n))
						m.Check((err == nil) == ok, "verdict", "key: %v", err)
						if ok && m.Check(len(s) == n, "length", "%d", len(s)) {
							fresh(s)
						}
						src := &source{data: r.Bytes(256), end: io.EOF, r: r}
						s, err = bip32.GenerateSeed(uint8(n), src)
						m.Check((err == nil) == ok && (!ok || len(s) == n), "verdict", "bip32: %x %v", s, err)
						s, err = bip32.GenerateSeed(uint8(n), nil)
						m.Check((err == nil) == ok, "verdict", "bip32 default: %v", err)
						if ok && m.Check(len(s) == n, "length", "%d", len(s)) {
							fresh(s)
						}
					}, n)
				}
			}
			for _, n := range append(gen.Longs(256, m.N(1<<18, 1<<22)), 0, 1, 8, 15, 65, 80, 128, 192, 255) {
				m.Do("master of a wrong length", func() {
					m.NonTrivial()
					m.Event("wrong length")
					b := r.Bytes(n)
					l, c, err := bip32.NewMaster(b)
					m.Check(err != nil && l == [32]byte{} && c == [32]byte{}, "verdict", "bip32: %x %x, %v", l, c, err)
					k, err := key.NewMaster(b)
					m.Check(err != nil && k == nil, "verdict", "key: %v, %v", k, err)
				}, n)
			}
			for k := m.N(600, 2000); k > 0; k-- {
				m.Do("default key pairs", func() {
					for _, al := range []signature.Algorithm{signature.Secp256k1, signature.Ed25519, &signature.Secp256k1, &signature.Ed25519} {
						p, s, err := signature.Generate(al, nil)
						if !m.Check(err == nil, "error", "%v", err) {
							return
						}
						fresh(s.KeyBytes())
						fresh(p.KeyBytes())
						m.Check(bytes.Equal(al.Public(s.KeyBytes()), p.KeyBytes()), "pair", "%x %x", p.KeyBytes(), s.KeyBytes())
						msg := r.Bytes(20)
						m.Check(p.Verify(msg, s.Sign(msg)), "pair does not verify", "")
					}
				}, k)
			}
			for _, rd := range []io.Reader{nil, bytes.NewReader(make([]byte, 100)), &source{end: errSource, r: r}} {
				m.Do("null", func() {
					m.NonTrivial()
					p, s, err := signature.Generate(signature.Null, rd)
					m.Check(err != nil, "null keys", "%v %v", p, s)
				}, fmt.Sprintf("%T", rd))
			}
		})
	})
}
