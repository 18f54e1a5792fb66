// C22: public keys yield no private material, and the limits of derivation.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "every operation of the extended key and string APIs on public keys obtained in every way from private ones, with boundary indices; chains to depth 255 and beyond; hardened indices around 2^31; " +
	"the bytes of the private keys are searched for in everything a public key gives; non-trivial when a request was refused or the search was made; distinct by key and index"

// publics are the public keys one can obtain from a private one.
func publics(m *mon.M, k *key.ExtendedKey) map[string]*key.ExtendedKey {
	out := map[string]*key.ExtendedKey{}
	p, err := k.Public()
	if !m.Check(err == nil, "Public", "%v", err) {
		return out
	}
	out["Public"] = p
	if pp, err := p.Public(); err == nil {
		out["Public of public"] = pp
	}
	if t, err := p.MarshalText(); err == nil {
		d := new(key.ExtendedKey)
		if d.UnmarshalText(m.Arg(t)) == nil {
			out["text"] = d
		}
		// into a receiver which held a private key
		d, _ = key.NewMaster(bytes.Repeat([]byte{3}, 32))
		d.PubKeyBytes()
		if d.UnmarshalText(m.Arg(t)) == nil {
			out["text into a used receiver"] = d
		}
	}
	if s, err := k.SPubKey(); err == nil {
		if d, err := key.FromSignatureKey(s); err == nil {
			out["signature key"] = d
		}
		d, _ := key.NewMaster(bytes.Repeat([]byte{4}, 32))
		if d.FromSignatureKey(s) == nil {
			out["signature key into a used receiver"] = d
		}
		b, _ := s.Marshal()
		var s2 signature.PublicKey
		if s2.Unmarshal(m.Arg(b)) == nil {
			if d, err := key.FromSignatureKey(&s2); err == nil {
				out["binary"] = d
			}
		}
	}
	if c, err := p.Child(9); err == nil {
		out["child"] = c
	}
	m.Check(len(out) >= 7, "obtaining public keys", "only %d ways", len(out))
	return out
}

func text(k *key.ExtendedKey) string {
	b, err := k.MarshalText()
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func probe(m *mon.M, r gen.R, how string, p *key.ExtendedKey, x *ref.XKey) {
	i := hd.Index(r)
	m.Do("public key "+how, func() {
		m.NonTrivial()
		m.Check(!p.IsPrivate(), "private", "IsPrivate")
		c, err := p.Child(i)
		if i >= 1<<31 {
			m.Check(err != nil && c == nil, "hardened child of a public key", "got %v", c)
			m.Event("hardened child refused")
		} else if err == nil {
			m.Check(!c.IsPrivate() && strings.HasPrefix(text(c), "npub"), "private child of a public key", "%v", text(c))
		}
		for _, n := range []uint32{i, i &^ (1 << 31), i | 1<<31, 0, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			c, err = p.HardenedChild(n)
			m.Check(err != nil && c == nil, "hardened child of a public key", "%d: got %v", n, c)
		}
		s, err := p.SPrivKey()
		m.Check(err != nil && s == nil, "SPrivKey of a public key", "%v", s)
		e, err := p.ECPrivKey()
		m.Check(err != nil && e == nil, "ECPrivKey of a public key", "%v", e)
		for _, path := range []string{"/0'", "/1/2'", fmt.Sprintf("/%d'", i&^(1<<31)), "/3'/4"} {
			c, err = p.DeriveFrom("/", path)
			m.Check(err != nil && c == nil, "hardened path of a public key", "%s: got %v", path, c)
		}
		sk, err := p.AsSignatureKey()
		if m.Check(err == nil, "AsSignatureKey", "%v", err) {
			m.Check(signature.IsPublic(sk) && !signature.IsPrivate(sk), "AsSignatureKey", "%T", sk)
		}
		t := text(p)
		m.Check(signature.MaybePublic(t) && !signature.MaybePrivate(t), "text", "%s", t)
		var priv signature.PrivateKey
		m.Check(priv.UnmarshalText(m.Arg([]byte(t))) != nil, "text of a public key decodes as a private key", "%s", t)
		ka := keyaddr.Key{Key: t}
		is, err := ka.IsPrivate()
		m.Check(err == nil && !is, "IsPrivate", "%v", err)
		for _, n := range []int32{0, 1, int32(i), int32(i &^ (1 << 31)), 1<<31 - 1, -1, -1 << 31} {
			kc, err := ka.HardenedChild(n)
			m.Check(err != nil && kc == nil, "keyaddr hardened child of a public key", "%d: got %v", n, kc)
			if n < 0 {
				kc, err = ka.Child(n)
				m.Check(err != nil && kc == nil, "keyaddr negative child", "%d: got %v", n, kc)
			}
		}
		sg, err := ka.Sign("aGVsbG8=")
		m.Check(err != nil && sg == nil, "public key signs", "%v", sg)
		_, err = ka.ToPrivateKey()
		m.Check(err != nil, "ToPrivateKey of a public key", "")
		kc, err := keyaddr.DeriveFrom(t, "/", "/0'")
		m.Check(err != nil && kc == nil, "keyaddr hardened path of a public key", "%v", kc)
		// nothing it gives contains the private key
		b, ok := ref.B32Decode(t[4:])
		m.Check(ok, "text", "%s", t)
		var skb []byte
		if sk != nil {
			skb, _ = sk.MarshalMsg(nil)
			skb = append(append(skb, sk.KeyBytes()...), sk.ExtraBytes()...)
		}
		hex := fmt.Sprintf("%x", *p)
		want := x.Public()
		allowed := append(append(append([]byte{}, want.Key...), want.Extra()...), want.Chain...)
		if special(x.Key) {
			return
		}
		m.Event("searched")
		for o := 0; o+8 <= 32; o++ {
			f := x.Key[o : o+8]
			if bytes.Contains(allowed, f) || !telling(f) { // by chance, as of special keys
				continue
			}
			if bytes.Contains(b, f) || bytes.Contains(skb, f) || bytes.Contains(p.Bytes(), f) || bytes.Contains(p.PubKeyBytes(), f) || strings.Contains(hex, fmt.Sprintf("%x", f)) {
				m.Failf("private bytes in a public key", "bytes %d to %d of the private key %x", o, o+8, x.Key)
				break
			}
		}
	}, func() string { return x.Text() }, i)
}

// telling bytes are of many values, and found nowhere by chance.
func telling(b []byte) bool {
	seen := map[byte]bool{}
	for _, c := range b {
		seen[c] = true
	}
	return len(seen) > len(b)-3
}

// special keys have runs which occur elsewhere by chance.
func special(b []byte) bool {
	for o := 0; o+8 <= len(b); o++ {
		if bytes.Equal(b[o:o+7], b[o+1:o+8]) {
			return true
		}
	}
	return bytes.HasPrefix(b, ref.Ser32(ref.N)[:8])
}

// private: the limits of derivation of private keys.
func private(m *mon.M, r gen.R, x *ref.XKey) {
	k := hd.Key(x)
	n := hd.Index(r)
	m.Do("hardened index", func() {
		m.NonTrivial()
		c, err := k.HardenedChild(n)
		if n >= 1<<31 || x.Depth == 255 {
			m.Event("index or depth refused")
			m.Check(err != nil && c == nil, "not refused", "got %v", c)
		} else {
			w, werr := x.Child(n + 1<<31)
			if werr == nil && m.Check(err == nil, "refused", "%v", err) {
				hd.Same(m, "hardened child", c, w)
			}
		}
		ka := keyaddr.Key{Key: x.Text()}
		kc, err := ka.HardenedChild(int32(n))
		if int32(n) < 0 || x.Depth == 255 {
			m.Check(err != nil && kc == nil, "not refused", "keyaddr: got %v", kc)
		} else {
			m.Check(err == nil && kc.Key == text(c), "keyaddr hardened child", "%v, %v", kc, err)
		}
	}, func() string { return x.Text() }, n)
}

// deep derives to depth 255 and beyond.
func deep(m *mon.M, r gen.R, pub bool) {
	k, err := key.NewMaster(r.Bytes(32))
	if err != nil {
		return
	}
	if pub {
		if k, err = k.Public(); err != nil {
			return
		}
	}
	m.Do("depth", func() {
		m.NonTrivial()
		var path strings.Builder
		root := k
		for d := 0; d < 255; d++ {
			i := hd.Normal(r) % 100
			fmt.Fprintf(&path, "/%d", i)
			c, err := k.Child(i)
			if !m.Check(err == nil && int(c.Depth()) == d+1, "depth", "at %d: %v, %v", d, c, err) {
				return
			}
			k = c
		}
		for _, i := range []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, hd.Index(r)} {
			c, err := k.Child(i)
			m.Check(err != nil && c == nil, "beyond depth 255", "index %d: got %v", i, c)
			m.Event("index or depth refused")
		}
		c, err := k.HardenedChild(1)
		m.Check(err != nil && c == nil, "beyond depth 255", "hardened: got %v", c)
		ka := keyaddr.Key{Key: text(k)}
		kc, err := ka.Child(1)
		m.Check(err != nil && kc == nil, "beyond depth 255", "keyaddr: got %v", kc)
		kc, err = ka.HardenedChild(1)
		m.Check(err != nil && kc == nil, "beyond depth 255", "keyaddr: got %v", kc)
		c, err = root.DeriveFrom("/", path.String())
		m.Check(err == nil && text(c) == text(k), "path of 255 steps", "%v", err)
		c, err = root.DeriveFrom("/", path.String()+"/1")
		m.Check(err != nil && c == nil, "beyond depth 255", "path: got %v", c)
		again := new(key.ExtendedKey)
		m.Check(again.UnmarshalText(m.Arg([]byte(text(k)))) == nil && again.Depth() == 255, "text at depth 255", "depth %d", again.Depth())
		c, err = again.Child(0)
		m.Check(err != nil && c == nil, "beyond depth 255", "decoded: got %v", c)
	}, text(k))
}

// paths derives along one path from a private key and its public keys, in any order.
func paths(m *mon.M, r gen.R, k *key.ExtendedKey, ps map[string]*key.ExtendedKey) {
	var b strings.Builder
	n := 1 + r.IntN(6)
	if int(k.Depth())+n > 255 {
		return
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "/%d", hd.Normal(r))
	}
	path := b.String()
	var private, public string
	derive := func() {
		c, err := k.DeriveFrom("/", path)
		if m.Check(err == nil && c.IsPrivate(), "path of a private key", "%s: %v", path, err) {
			private = text(c)
			if p, err := c.Public(); m.Check(err == nil, "Public", "%v", err) {
				public = text(p)
			}
		}
		kc, err := keyaddr.DeriveFrom(text(k), "/", path)
		m.Check(err == nil && kc.Key == private, "keyaddr path of a private key", "%s: %v", path, err)
	}
	before := r.IntN(3)
	if before > 0 {
		derive()
	}
	var got []string
	for _, how := range []string{"Public", "text", "signature key"} {
		p := ps[how]
		if p == nil {
			continue
		}
		c, err := p.DeriveFrom("/", path)
		if m.Check(err == nil && c != nil && !c.IsPrivate(), "path of a public key", "%s: %v, %v", path, c, err) {
			got = append(got, text(c))
		}
		kc, err := keyaddr.DeriveFrom(text(p), "/", path)
		if m.Check(err == nil, "keyaddr path of a public key", "%s: %v", path, err) {
			got = append(got, kc.Key)
		}
	}
	if before < 2 {
		derive()
	}
	for _, g := range got {
		m.Check(g == public && strings.HasPrefix(g, "npub"), "path of a public key", "%s: %s, want %s", path, g, public)
	}
	m.Event("paths from both")
}

func main() {
	mon.Main("C22", rule, func(m *mon.M) {
		m.Require("hardened child refused", 1000)
		m.Require("index or depth refused", 500)
		m.Require("searched", 2000)
		m.Require("paths from both", 5000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			deep(m, r, i%2 == 0)
			for j := m.N(1000, 6000); j > 0; j-- {
				x := hd.XKey(r)
				if r.IntN(2) == 0 {
					x.Depth = byte(r.IntN(4))
				}
				k := hd.Key(x)
				m.Do("obtain", func() {
					ps := publics(m, k)
					paths(m, r, k, ps)
					for _, how := range []string{"Public", "Public of public", "text", "text into a used receiver", "signature key", "signature key into a used receiver", "binary", "child"} {
						if p := ps[how]; p != nil {
							probe(m, r, how, p, x)
						}
					}
				}, func() string { return x.Text() })
				private(m, r, x)
			}
		})
	})
}
