// C20: BIP32 conformance.
package main

import (
	"bytes"

	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "masters from seeds of every length from 0 to 100, chains of normal and hardened children of them and of keys with special scalars at every depth, in memory and decoded from text; " +
	"a corpus of seeds and indices whose key, chain code, left half, fingerprint or public key begins with up to four zero bytes; non-trivial when a key was compared with the reference in all fields; distinct by key and index"

func master(m *mon.M, r gen.R, seed []byte) (*key.ExtendedKey, *ref.XKey) {
	var k *key.ExtendedKey
	var x *ref.XKey
	m.Do("master", func() {
		keep := append([]byte{}, seed...)
		want, err := ref.Master(seed)
		got, gerr := key.NewMaster(m.Arg(seed))
		kb, cc, berr := bip32.NewMaster(m.Arg(seed))
		m.Check(bytes.Equal(keep, seed), "seed changed", "%x", seed)
		if err != nil {
			m.Event("seed refused")
			m.Check(gerr != nil && got == nil, "seed not refused", "%v", got)
			m.Check(berr != nil, "seed not refused", "by bip32")
			return
		}
		if !m.Check(gerr == nil && berr == nil, "seed refused", "%v, %v", gerr, berr) {
			return
		}
		m.NonTrivial()
		m.Check(bytes.Equal(kb[:], want.Key) && bytes.Equal(cc[:], want.Chain), "master", "got %x %x, want %x %x", kb, cc, want.Key, want.Chain)
		if hd.Same(m, "master", got, want) {
			k, x = got, want
		}
	}, seed)
	return k, x
}

func child(m *mon.M, r gen.R, k *key.ExtendedKey, x *ref.XKey, i uint32) (*key.ExtendedKey, *ref.XKey) {
	var ok *key.ExtendedKey
	var ox *ref.XKey
	m.Do("child", func() {
		want, err := x.Child(i)
		got, gerr := k.Child(i)
		if i >= 1<<31 {
			h, herr := k.HardenedChild(i - 1<<31)
			m.Check((herr == nil) == (gerr == nil), "HardenedChild", "%v, Child %v", herr, gerr)
			if err == nil && herr == nil {
				hd.Same(m, "HardenedChild", h, want)
			}
		}
		if err != nil {
			m.Event("child refused")
			m.Check(gerr != nil && got == nil, "not refused", "got %v", got)
			return
		}
		if !m.Check(gerr == nil, "refused", "%v", gerr) {
			return
		}
		m.NonTrivial()
		if x.Private {
			m.Event("private child")
		} else {
			m.Event("public child")
		}
		if want.Key[0] == 0 || want.Pub()[1] == 0 || want.Chain[0] == 0 {
			m.Event("leading zero")
		}
		if hd.Same(m, "child", got, want) {
			ok, ox = got, want
		}
		if r.IntN(3) == 0 {
			m.Event("parent")
			hd.Same(m, "parent after deriving a child", k, x)
		}
	}, func() string { return x.Text() }, i)
	return ok, ox
}

// reload takes the key through its text.
func reload(m *mon.M, k *key.ExtendedKey, x *ref.XKey) *key.ExtendedKey {
	out := k
	m.Do("reload", func() {
		t, err := k.MarshalText()
		n := new(key.ExtendedKey)
		if err == nil {
			err = n.UnmarshalText(m.Arg(t))
		}
		if m.Check(err == nil, "reload", "%v", err) && hd.Same(m, "reload", n, x) {
			out = n
		}
	}, func() string { return x.Text() })
	return out
}

func public(m *mon.M, k *key.ExtendedKey, x *ref.XKey) (*key.ExtendedKey, *ref.XKey) {
	var p *key.ExtendedKey
	px := x.Public()
	m.Do("public", func() {
		var err error
		p, err = k.Public()
		if m.Check(err == nil, "Public", "%v", err) {
			hd.Same(m, "Public", p, px)
		}
	}, func() string { return x.Text() })
	return p, px
}

func chain(m *mon.M, r gen.R, k *key.ExtendedKey, x *ref.XKey, n int) {
	for ; n > 0 && k != nil; n-- {
		switch r.IntN(8) {
		case 0:
			k = reload(m, k, x)
		case 1:
			if r.IntN(3) == 0 {
				k, x = public(m, k, x)
			}
		}
		if k == nil {
			return
		}
		k, x = child(m, r, k, x, hd.Index(r))
	}
}

func scalar(m *mon.M, r gen.R) {
	b := ref.Ser32(hd.Scalar(r))
	m.Do("PrivateToPublic", func() {
		m.NonTrivial()
		x := ref.XKey{Private: true, Key: b}
		got := bip32.PrivateToPublic(m.Arg(b))
		m.Check(bytes.Equal(got, x.Pub()), "PrivateToPublic", "got %x, want %x", got, x.Pub())
	}, b)
}

func main() {
	mon.Main("C20", rule, func(m *mon.M) {
		m.Require("private child", 2000)
		m.Require("public child", 500)
		m.Require("leading zero", 100)
		m.Require("seed refused", 100)
		m.Require("child refused", 20)
		m.Require("witness", 60)
		m.Require("parent", 500)
		w := hd.Witnesses()
		kinds := hd.Kinds(w)
		m.Par("witnesses", len(kinds), func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for _, v := range w[kinds[i]] {
				k, x := master(m, r, hd.Seed(v.Seed))
				if k == nil {
					continue
				}
				c, cx := child(m, r, k, x, v.Index)
				if c == nil {
					continue
				}
				m.Event("witness")
				chain(m, r, reload(m, c, cx), cx, 2)
				for j := 0; j < 2; j++ {
					child(m, r, c, cx, 7+uint32(j)<<31)
				}
				p, px := public(m, c, cx)
				child(m, r, p, px, 3)
				if v.Index < 1<<31 {
					p, px := public(m, k, x)
					child(m, r, p, px, v.Index)
				}
			}
		})
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for n := i; n <= 100; n += 16 {
				for j := 0; j < 3; j++ {
					k, x := master(m, r, r.Bytes(n))
					chain(m, r, k, x, 2)
				}
			}
			for j := m.N(1200, 12000); j > 0; j-- {
				n := 16 + r.IntN(49)
				if r.IntN(6) == 0 {
					n = r.Len(256)
				}
				k, x := master(m, r, r.Bytes(n))
				chain(m, r, k, x, 1+r.IntN(5))
				x = hd.XKey(r)
				if r.IntN(3) == 0 {
					x = x.Public()
				}
				chain(m, r, hd.Key(x), x, 1+r.IntN(3))
				scalar(m, r)
			}
		})
	})
}
