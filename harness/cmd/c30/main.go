// C30: keys and signatures survive every round trip.
package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sk"
)

const rule = "public keys, private keys and signatures of the null algorithm, Ed25519 and secp256k1, with none to 70000 bytes of extra data, through text, JSON, binary and MessagePack, after other data and followed by other data, into fresh receivers and ones which hold another value; " +
	"extended keys of every kind through keys and text; non-trivial for every value with a key; distinct by value"

type keyObj interface {
	signature.Key
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
	MarshalString() (string, error)
	FullString() string
	Size() int
	IsZero() bool
}

// value is what a key should be.
type value struct {
	id         byte
	private    bool
	key, extra []byte
}

func (v value) prefix() string {
	if v.private {
		return "npvt"
	}
	return "npub"
}

func (v value) text() string { return v.prefix() + ref.KeyText(v.id, v.key, v.extra) }

func fresh(private bool) keyObj {
	if private {
		return new(signature.PrivateKey)
	}
	return new(signature.PublicKey)
}

// used is a receiver which holds another value.
func used(r gen.R, private bool) keyObj {
	p := sk.New(r)
	if private {
		k, _ := signature.RawPrivateKey(p.Al, p.Priv, sk.Extra(r))
		return k
	}
	k, _ := signature.RawPublicKey(p.Al, p.Pub, sk.Extra(r))
	return k
}

func same(m *mon.M, what string, k keyObj, v value) bool {
	ok := m.Check(sk.ID(k.Algorithm()) == int(v.id), what, "algorithm %T", k.Algorithm())
	ok = m.Check(bytes.Equal(k.KeyBytes(), v.key), what, "key %x", k.KeyBytes()) && ok
	ok = m.Check(bytes.Equal(k.ExtraBytes(), v.extra), what, "extra %x", k.ExtraBytes()) && ok
	ok = m.Check(k.Size() == len(v.key), what, "size %d", k.Size()) && ok
	ok = m.Check(k.IsZero() == (v.id == 0 && len(v.extra) == 0), what, "zero %v", k.IsZero()) && ok
	ok = m.Check(signature.IsPrivate(k) == v.private && signature.IsPublic(k) == !v.private, what, "private %v public %v", signature.IsPrivate(k), signature.IsPublic(k)) && ok
	t, err := k.MarshalText()
	ok = m.Check(err == nil && string(t) == v.text(), what, "text %s, %v", t, err) && ok
	s, err := k.MarshalString()
	ok = m.Check(err == nil && s == v.text(), what, "MarshalString %s, %v", s, err) && ok
	ok = m.Check(k.FullString() == v.text(), what, "FullString %s", k.FullString()) && ok
	short := v.text()[:8] + "..." + v.text()[len(v.text())-4:]
	ok = m.Check(fmt.Sprint(k) == short, what, "String %s", k.String()) && ok
	b, err := k.Marshal()
	ok = m.Check(err == nil && bytes.Equal(b, ref.KeyBinary(v.id, v.key, v.extra)), what, "binary %x, %v", b, err) && ok
	m.Check(k.Msgsize() >= len(b), what, "size bound %d < %d", k.Msgsize(), len(b))
	// what it hands out is not followed by its own memory
	grow(k.KeyBytes(), k.ExtraBytes(), t, b)
	ok = m.Check(bytes.Equal(k.KeyBytes(), v.key) && bytes.Equal(k.ExtraBytes(), v.extra), what, "after appending to what it handed out: %x %x", k.KeyBytes(), k.ExtraBytes()) && ok
	return ok
}

// around is the length of what stands before or after a value.
func around(r gen.R) int {
	return gen.Pick(r, r.IntN(30), r.IntN(30), r.IntN(30), r.IntN(300), gen.Pick(r, 0, 1, 127, 128, 255, 256, 257, 4095, 4096, 65535, 65536, 70000))
}

// grow appends to what was handed out.
func grow(l ...[]byte) {
	for _, b := range l {
		_ = append(b, "appended to what was handed out, which is longer than any other part"...)
		if cap(b) > len(b) {
			for i, c := len(b), b[:cap(b)]; i < len(c); i++ {
				c[i] = 0xab
			}
		}
	}
}

// keepers are copies of what receivers held.
type keepers []func(m *mon.M)

func (l *keepers) add(c encoding.TextMarshaler) {
	want, err := c.MarshalText()
	*l = append(*l, func(m *mon.M) {
		t, err2 := c.MarshalText()
		m.Check(err == nil && err2 == nil && bytes.Equal(t, want), "copy of what the receiver held", "%s, then %s", want, t)
	})
}

func (l keepers) check(m *mon.M) {
	for _, f := range l {
		m.Event("copies of receivers")
		f(m)
	}
}

func keys(m *mon.M, r gen.R, k keyObj, v value) {
	m.Event("keys")
	if v.id != 0 {
		m.NonTrivial()
	}
	if !same(m, "made", k, v) {
		return
	}
	var kept keepers
	receiver := func() keyObj {
		if r.IntN(2) == 0 {
			m.Event("used receiver")
			u := used(r, v.private)
			if r.IntN(2) == 0 { // which was decoded itself
				t, _ := u.MarshalText()
				m.Check(u.UnmarshalText(m.Arg(t)) == nil, "UnmarshalText", "error")
			}
			switch u := u.(type) {
			case *signature.PublicKey:
				kept.add(*u)
			case *signature.PrivateKey:
				kept.add(*u)
			}
			return u
		}
		return fresh(v.private)
	}
	defer func() { kept.check(m) }()
	b, _ := k.Marshal()
	o := receiver()
	m.Check(o.Unmarshal(m.Arg(b)) == nil, "Unmarshal", "error")
	m.Reclaim()
	same(m, "Unmarshal", o, v)

	before, after := r.Bytes(around(r)), r.Bytes(around(r))
	buf := make([]byte, len(before), len(before)+r.IntN(2)*4096)
	copy(buf, before)
	b, err := k.MarshalMsg(buf)
	if m.Check(err == nil && bytes.HasPrefix(b, before) && bytes.Equal(b[len(before):], ref.KeyBinary(v.id, v.key, v.extra)), "MarshalMsg", "%x after %x, %v", b, before, err) {
		b = append(append([]byte{}, b[len(before):]...), after...)
		o = receiver()
		left, err := o.UnmarshalMsg(m.Arg(b))
		m.Check(err == nil && bytes.Equal(left, after), "UnmarshalMsg", "%v, %x left of %x", err, left, after)
		m.Reclaim()
		same(m, "UnmarshalMsg", o, v)
	}

	t, _ := k.MarshalText()
	o = receiver()
	m.Check(o.UnmarshalText(m.Arg([]byte(string(t[:4])+r.Case(string(t[4:]))))) == nil, "UnmarshalText", "error")
	m.Reclaim()
	same(m, "UnmarshalText", o, v)

	text := v.text()
	pk, err := signature.ParseKey(text)
	if m.Check(err == nil, "ParseKey", "%v", err) {
		same(m, "ParseKey", pk.(keyObj), v)
	}
	pub, puberr := signature.ParsePublicKey(text)
	priv, priverr := signature.ParsePrivateKey(text)
	m.Check((puberr == nil) == !v.private && (priverr == nil) == v.private, "parse", "public: %v, private: %v", puberr, priverr)
	if puberr == nil {
		same(m, "ParsePublicKey", pub, v)
	}
	if priverr == nil {
		same(m, "ParsePrivateKey", priv, v)
	}
	m.Check(signature.MaybePrivate(text) == v.private && signature.MaybePublic(text) == !v.private, "prefix", "")
	j, err := json.Marshal(map[string]any{"k": k})
	m.Check(err == nil && string(j) == `{"k":"`+text+`"}`, "json", "%s, %v", j, err)
	var js any = &struct{ K signature.PublicKey }{}
	if v.private {
		js = &struct{ K signature.PrivateKey }{}
	}
	if m.Check(json.Unmarshal(j, js) == nil, "json", "error") {
		switch d := js.(type) {
		case *struct{ K signature.PublicKey }:
			same(m, "json", &d.K, v)
		case *struct{ K signature.PrivateKey }:
			same(m, "json", &d.K, v)
		}
	}
	same(m, "still", k, v)

	o = receiver()
	o.UnmarshalText(m.Arg([]byte(text)))
	var c keyObj // a copy keeps what truncating drops
	switch o := o.(type) {
	case *signature.PublicKey:
		c = &signature.PublicKey{}
		*c.(*signature.PublicKey) = *o
	case *signature.PrivateKey:
		c = &signature.PrivateKey{}
		*c.(*signature.PrivateKey) = *o
	}
	o.Truncate()
	w := v
	w.extra = nil
	same(m, "truncated", o, w)
	same(m, "copy of truncated", c, v)
	c.Zeroize()
	same(m, "wiped with extra data", c, value{private: v.private})
	o.Truncate()
	same(m, "truncated twice", o, w)
	o.Zeroize()
	same(m, "wiped", o, value{private: v.private})
	same(m, "still", k, v)
}

func sigs(m *mon.M, r gen.R, s *signature.Signature, id byte, data []byte) {
	m.Event("signatures")
	if id != 0 {
		m.NonTrivial()
	}
	bin, text := ref.Container(id, data), ref.SigText(id, data)
	same := func(what string, s *signature.Signature) {
		m.Check(sk.ID(s.Algorithm()) == int(id) && bytes.Equal(s.Bytes(), data), what, "%T %x", s.Algorithm(), s.Bytes())
		t, err := s.MarshalText()
		m.Check(err == nil && string(t) == text, what, "text %s, %v", t, err)
		ts, err := s.MarshalString()
		m.Check(err == nil && ts == text, what, "MarshalString %s, %v", ts, err)
		b, err := s.Marshal()
		m.Check(err == nil && bytes.Equal(b, bin), what, "binary %x, %v", b, err)
		m.Check(s.Msgsize() >= len(b), what, "size bound %d < %d", s.Msgsize(), len(b))
		grow(s.Bytes(), t, b)
		m.Check(bytes.Equal(s.Bytes(), data), what, "after appending to what it handed out: %x", s.Bytes())
	}
	var kept keepers
	receiver := func() *signature.Signature {
		s := new(signature.Signature)
		if r.IntN(2) == 0 {
			p := sk.New(r)
			m.Check(s.Unmarshal(m.Arg(ref.Container(p.ID, p.Sign(r.Bytes(5))))) == nil, "Unmarshal", "error")
			kept.add(*s)
		}
		return s
	}
	defer func() { kept.check(m) }()
	same("made", s)
	b, _ := s.Marshal()
	o := receiver()
	m.Check(o.Unmarshal(m.Arg(b)) == nil, "Unmarshal", "error")
	m.Reclaim()
	same("Unmarshal", o)
	before, after := r.Bytes(around(r)), r.Bytes(around(r))
	b, err := s.MarshalMsg(append([]byte{}, before...))
	if m.Check(err == nil && bytes.HasPrefix(b, before) && bytes.Equal(b[len(before):], bin), "MarshalMsg", "%x after %x, %v", b, before, err) {
		b = append(append([]byte{}, b[len(before):]...), after...)
		o = receiver()
		left, err := o.UnmarshalMsg(m.Arg(b))
		m.Check(err == nil && bytes.Equal(left, after), "UnmarshalMsg", "%v, %x left of %x", err, left, after)
		m.Reclaim()
		same("UnmarshalMsg", o)
	}
	t, _ := s.MarshalText()
	o = receiver()
	m.Check(o.UnmarshalText(m.Arg([]byte(r.Case(string(t))))) == nil, "UnmarshalText", "error")
	m.Reclaim()
	same("UnmarshalText", o)
	o, err = signature.ParseSignature(text)
	if m.Check(err == nil, "ParseSignature", "%v", err) {
		same("ParseSignature", o)
	}
	j, err := json.Marshal(s)
	m.Check(err == nil && string(j) == `"`+text+`"`, "json", "%s, %v", j, err)
	o = receiver()
	m.Check(json.Unmarshal(j, o) == nil, "json", "error")
	same("json", o)
	same("still", s)
}

// behave: what was decoded signs and verifies.
func behave(m *mon.M, r gen.R, p sk.Pair) {
	m.Do("behaviour", func() {
		m.NonTrivial()
		m.Event("behaviour")
		msg := sk.Message(r)
		pub, err1 := signature.ParsePublicKey("npub" + ref.KeyText(p.ID, p.Pub, sk.Extra(r)))
		priv, err2 := signature.ParsePrivateKey("npvt" + ref.KeyText(p.ID, p.Priv, sk.Extra(r)))
		if !m.Check(err1 == nil && err2 == nil, "parse", "%v, %v", err1, err2) {
			return
		}
		s := priv.Sign(m.Arg(msg))
		sigs(m, r, &s, p.ID, p.Sign(msg))
		d, err := signature.ParseSignature(ref.SigText(p.ID, p.Sign(msg)))
		if m.Check(err == nil, "parse", "%v", err) {
			m.Check(pub.Verify(m.Arg(msg), *d) && d.Verify(m.Arg(msg), *pub), "verify", "a decoded signature does not verify")
			m.Check(!pub.Verify(append(append([]byte{}, msg...), 0), *d), "verify", "another message verifies")
		}
		m.Check(signature.Match(*pub, *priv), "match", "")
		m.Check(bytes.Equal(priv.Algorithm().Public(priv.KeyBytes()), pub.KeyBytes()), "Public", "")
	}, p.ID, p.Priv)
}

func extended(m *mon.M, r gen.R) {
	x := hd.XKey(r)
	if r.IntN(2) == 0 {
		x = x.Public()
	}
	m.Do("extended", func() {
		m.NonTrivial()
		m.Event("extended")
		k := hd.Key(x)
		other := func() *key.ExtendedKey {
			if r.IntN(2) == 0 {
				o := hd.XKey(r)
				if r.IntN(2) == 0 {
					o = o.Public()
				}
				e := hd.Key(o)
				if r.IntN(2) == 0 {
					e.PubKeyBytes()
				}
				return e
			}
			return new(key.ExtendedKey)
		}
		if r.IntN(2) == 0 {
			k.PubKeyBytes()
		}
		if !hd.Same(m, "made", k, x) {
			return
		}
		e := other()
		m.Check(e.UnmarshalText(m.Arg([]byte(x.Text()[:4]+r.Case(x.Text()[4:])))) == nil, "UnmarshalText", "error")
		hd.Same(m, "UnmarshalText", e, x)
		s, err := k.AsSignatureKey()
		if m.Check(err == nil, "AsSignatureKey", "%v", err) {
			same(m, "AsSignatureKey", s.(keyObj), value{2, x.Private, x.Key, x.Extra()})
			e = other()
			m.Check(e.FromSignatureKey(s) == nil, "FromSignatureKey", "error")
			hd.Same(m, "FromSignatureKey", e, x)
			e, err = key.FromSignatureKey(s)
			if m.Check(err == nil, "FromSignatureKey", "%v", err) {
				hd.Same(m, "FromSignatureKey", e, x)
			}
		}
		sp, err := k.SPubKey()
		if m.Check(err == nil, "SPubKey", "%v", err) {
			same(m, "SPubKey", sp, value{2, false, x.Pub(), x.Extra()})
			if e, err = key.FromSignatureKey(sp); m.Check(err == nil, "FromSignatureKey", "%v", err) {
				hd.Same(m, "FromSignatureKey", e, x.Public())
			}
		}
		sv, err := k.SPrivKey()
		m.Check((err == nil) == x.Private, "SPrivKey", "%v", err)
		if err == nil {
			same(m, "SPrivKey", sv, value{2, true, x.Key, x.Extra()})
			msg := sk.Message(r)
			g := sv.Sign(m.Arg(msg))
			m.Check(sp.Verify(m.Arg(msg), g), "verify", "")
		}
		j, err := json.Marshal(k)
		m.Check(err == nil && string(j) == `"`+x.Text()+`"`, "json", "%s, %v", j, err)
		e = other()
		m.Check(json.Unmarshal(j, e) == nil, "json", "error")
		hd.Same(m, "json", e, x)
		i := hd.Normal(r)
		want, werr := x.Child(i)
		got, gerr := e.Child(i)
		m.Check((werr == nil) == (gerr == nil), "child", "%v", gerr)
		if werr == nil && gerr == nil {
			hd.Same(m, "child of a decoded key", got, want)
		}
	}, func() string { return x.Text() })
}

var _ encoding.TextMarshaler = signature.PublicKey{}

func main() {
	mon.Main("C30", rule, func(m *mon.M) {
		m.Require("keys", 8000)
		m.Require("signatures", 3000)
		m.Require("behaviour", 500)
		m.Require("extended", 800)
		m.Require("used receiver", 10000)
		m.Require("copies of receivers", 10000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(500, 7000); j > 0; j-- {
				p := sk.New(r)
				extra := sk.Extra(r)
				m.Do("public", func() {
					k, err := signature.RawPublicKey(p.Al, p.Pub, extra)
					if m.Check(err == nil, "RawPublicKey", "%v", err) {
						keys(m, r, k, value{p.ID, false, p.Pub, extra})
					}
				}, p.ID, p.Pub, extra)
				m.Do("private", func() {
					k, err := signature.RawPrivateKey(p.Al, p.Priv, extra)
					if m.Check(err == nil, "RawPrivateKey", "%v", err) {
						keys(m, r, k, value{p.ID, true, p.Priv, extra})
					}
				}, p.ID, p.Priv, extra)
				// any bytes of the right size
				b := r.Bytes(len(p.Pub))
				m.Do("public", func() {
					k, err := signature.RawPublicKey(p.Al, b, extra)
					if m.Check(err == nil, "RawPublicKey", "%v", err) {
						keys(m, r, k, value{p.ID, false, b, extra})
					}
				}, p.ID, b, extra)
				if r.IntN(4) == 0 {
					e := sk.Extra(r)
					m.Do("null", func() {
						al := sk.Al(r, 0)
						pub, err := signature.RawPublicKey(al, gen.Pick(r, nil, []byte{}), e)
						if m.Check(err == nil, "RawPublicKey", "%v", err) {
							keys(m, r, pub, value{0, false, nil, e})
						}
						priv, err := signature.RawPrivateKey(al, gen.Pick(r, nil, []byte{}), e)
						if m.Check(err == nil, "RawPrivateKey", "%v", err) {
							keys(m, r, priv, value{0, true, nil, e})
						}
						s, err := signature.RawSignature(al, gen.Pick(r, nil, []byte{}))
						if m.Check(err == nil, "RawSignature", "%v", err) {
							sigs(m, r, s, 0, nil)
						}
						sigs(m, r, new(signature.Signature), 0, nil)
						keys(m, r, new(signature.PublicKey), value{0, false, nil, nil})
						keys(m, r, new(signature.PrivateKey), value{0, true, nil, nil})
					}, e)
				}
				n := 64
				if p.ID == sk.SecpID {
					n = gen.Pick(r, 0, 8, 64, 70, 71, 72, 200, 255, 256, r.IntN(80))
				}
				d := r.Bytes(n)
				m.Do("signature", func() {
					s, err := signature.RawSignature(p.Al, d)
					if m.Check(err == nil, "RawSignature", "%v", err) {
						sigs(m, r, s, p.ID, d)
					}
				}, p.ID, d)
				// wrong sizes are refused
				m.Do("wrong size", func() {
					m.NonTrivial()
					wp, ws := r.Bytes(len(p.Pub)+gen.Pick(r, -1, 1, -len(p.Pub), 32, 33)), r.Bytes(len(p.Priv)+gen.Pick(r, -1, 1, -len(p.Priv), 64))
					k, err := signature.RawPublicKey(p.Al, wp, extra)
					m.Check(err != nil && k == nil, "RawPublicKey", "%v", k)
					s, err := signature.RawPrivateKey(p.Al, ws, extra)
					m.Check(err != nil && s == nil, "RawPrivateKey", "%v", s)
					if p.ID == sk.EdID {
						g, err := signature.RawSignature(p.Al, r.Bytes(gen.Pick(r, 0, 1, 63, 65, 128)))
						m.Check(err != nil && g == nil, "RawSignature", "%v", g)
					}
				}, p.ID, j, i)
				if r.IntN(3) == 0 {
					behave(m, r, p)
				}
				if r.IntN(3) == 0 {
					extended(m, r)
				}
				m.Do("prefix", func() {
					s := r.Text("npubvt \x00NPVTé", 8)
					m.Check(signature.MaybePrivate(s) == strings.HasPrefix(s, "npvt") && signature.MaybePublic(s) == strings.HasPrefix(s, "npub"), "prefix", "")
					k, err := signature.ParseKey(s)
					m.Check(err != nil, "ParseKey", "%v", k)
				}, j, i)
			}
		})
	})
}
