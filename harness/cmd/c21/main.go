// C21: public and private derivation commute.
package main

import (
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "private keys (masters, children, special scalars, any depth) and chains of up to eight normal indices, boundary indices among them; the public key is taken at every point of the chain, and the results compared with each other and, for some, with the reference; " +
	"through the binary, the text and the string API; non-trivial when all points of a chain were compared; distinct by key and chain"

func text(k *key.ExtendedKey) string {
	b, err := k.MarshalText()
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// observe is everything one can see of a public key.
func equal(m *mon.M, what string, a, b *key.ExtendedKey) {
	m.Check(text(a) == text(b), what, "text: %s and %s", text(a), text(b))
	m.Check(string(a.Bytes()) == string(b.Bytes()) && string(a.PubKeyBytes()) == string(b.PubKeyBytes()), what, "key: %x and %x", a.Bytes(), b.Bytes())
	m.Check(a.Depth() == b.Depth() && a.ParentFingerprint() == b.ParentFingerprint() && a.IsPrivate() == b.IsPrivate(), what, "%v %v %v and %v %v %v", a.Depth(), a.ParentFingerprint(), a.IsPrivate(), b.Depth(), b.ParentFingerprint(), b.IsPrivate())
}

func run(m *mon.M, r gen.R, x *ref.XKey, idx []uint32, useRef bool) {
	m.Do("chain", func() {
		privs := []*key.ExtendedKey{hd.Key(x)}
		for _, i := range idx {
			c, err := privs[len(privs)-1].Child(i)
			if err != nil {
				m.Check(int(x.Depth)+len(privs) > 255, "refused", "%v", err)
				m.Event("refused")
				idx = idx[:len(privs)-1]
				break
			}
			privs = append(privs, c)
		}
		last := privs[len(privs)-1]
		want, err := last.Public()
		if !m.Check(err == nil && want != nil && !want.IsPrivate(), "Public", "%v", err) {
			return
		}
		m.NonTrivial()
		for p := range privs {
			pub, err := privs[p].Public()
			if !m.Check(err == nil, "Public", "%v", err) {
				return
			}
			for _, i := range idx[p:] {
				if r.IntN(4) == 0 {
					n := new(key.ExtendedKey)
					err := n.UnmarshalText(m.Arg([]byte(text(pub))))
					if !m.Check(err == nil, "decode", "%v", err) {
						return
					}
					pub = n
				}
				c, err := pub.Child(i)
				if !m.Check(err == nil, "public child", "%v", err) {
					return
				}
				m.Check(!c.IsPrivate(), "private child of a public key", "index %d", i)
				pub = c
			}
			m.Event("commuted")
			equal(m, "does not commute", pub, want)
			again, err := pub.Public()
			m.Check(err == nil, "Public of public", "%v", err)
			equal(m, "Public of public", again, pub)
		}
		if useRef {
			y := x
			for _, i := range idx {
				y, err = y.Child(i)
				if err != nil {
					panic(err)
				}
			}
			hd.Same(m, "reference", want, y.Public())
			hd.Same(m, "reference", last, y)
		}
		// the pair signs and verifies
		priv, err := last.SPrivKey()
		if !m.Check(err == nil, "SPrivKey", "%v", err) {
			return
		}
		pub, err := want.SPubKey()
		if !m.Check(err == nil, "SPubKey", "%v", err) {
			return
		}
		pub2, err := last.SPubKey()
		m.Check(err == nil && pub2.FullString() == pub.FullString(), "SPubKey", "of the private key: %v", pub2)
		msg := r.Bytes(r.Len(60))
		sig := priv.Sign(msg)
		m.Check(pub.Verify(msg, sig), "does not verify", "message %x", msg)
		ec, err := want.ECPubKey()
		m.Check(err == nil && string(ec.SerializeCompressed()) == string(want.Bytes()), "ECPubKey", "%v", err)
		ep, err := last.ECPrivKey()
		m.Check(err == nil && string(ep.PubKey().SerializeCompressed()) == string(want.Bytes()), "ECPrivKey", "%v", err)
		// the same in the string API
		ka := &keyaddr.Key{Key: text(privs[0])}
		kb, err := ka.ToPublic()
		if !m.Check(err == nil, "keyaddr ToPublic", "%v", err) {
			return
		}
		for _, i := range idx {
			if ka, err = ka.Child(int32(i)); !m.Check(err == nil, "keyaddr child", "%v", err) {
				return
			}
			if kb, err = kb.Child(int32(i)); !m.Check(err == nil, "keyaddr child", "%v", err) {
				return
			}
		}
		kc, err := ka.ToPublic()
		m.Check(err == nil && kc.Key == kb.Key && kb.Key == text(want), "keyaddr does not commute", "%v, %v, %v", kb, kc, err)
		aa, err1 := ka.NdauAddress()
		ab, err2 := kb.NdauAddress()
		m.Check(err1 == nil && err2 == nil && *aa == *ab, "address", "%v, %v, %v, %v", aa, ab, err1, err2)
	}, func() string { return x.Text() }, idx)
}

func main() {
	mon.Main("C21", rule, func(m *mon.M) {
		m.Require("commuted", 3000)
		w := hd.Witnesses()
		kinds := hd.Kinds(w)
		m.Par("witnesses", len(kinds), func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for _, v := range w[kinds[i]] {
				x, err := ref.Master(hd.Seed(v.Seed))
				if err != nil {
					panic(err)
				}
				if v.Index >= 1<<31 {
					x, err = x.Child(v.Index)
					if err != nil {
						panic(err)
					}
					run(m, r, x, []uint32{1, 2}, true)
				} else {
					run(m, r, x, []uint32{v.Index, 5}, true)
				}
			}
		})
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(1200, 9000); j > 0; j-- {
				x := hd.XKey(r)
				idx := make([]uint32, r.IntN(6))
				for k := range idx {
					idx[k] = hd.Normal(r)
				}
				if int(x.Depth)+len(idx) > 255 && r.IntN(4) != 0 {
					x.Depth = byte(r.IntN(240))
				}
				run(m, r, x, idx, j%4 == 0)
			}
		})
	})
}
