// C41: the null algorithm and missing values never authenticate and never crash.
package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/tinylib/msgp/msgp"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sk"
)

const rule = "every pair of a public key and a signature among those which are zero, null as a value, a pointer and decoded, made without an algorithm, wiped, left behind by failed decodes, and real ones of both algorithms, with messages of every kind: none verifies but a real key and its own signature; " +
	"every method of every missing value, in sequences; random nesting of wiping, decoding and copying; non-trivial when the key or the signature is missing; distinct by the two histories and the message"

type pubKey struct {
	how  string
	k    *signature.PublicKey
	real int // index of the pair, or -1
}

type privKey struct {
	how  string
	k    *signature.PrivateKey
	real int
}

type sigVal struct {
	how  string
	s    signature.Signature
	real int
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// pointer to a Null, which is how a decoded value holds its algorithm
func nullPtr() signature.Algorithm { n := signature.Null; return &n }

func pubs(m *mon.M, r gen.R, pairs []sk.Pair) (l []pubKey) {
	add := func(how string, real int, f func() *signature.PublicKey) {
		m.Try(how, func() {
			if k := f(); k != nil {
				l = append(l, pubKey{how, k, real})
			}
		})
	}
	zero := ref.KeyBinary(0, nil, nil)
	add("zero", -1, func() *signature.PublicKey { return new(signature.PublicKey) })
	add("raw nil algorithm", -1, func() *signature.PublicKey { k, _ := signature.RawPublicKey(nil, nil, nil); return k })
	add("raw null", -1, func() *signature.PublicKey { k, _ := signature.RawPublicKey(signature.Null, []byte{}, nil); return k })
	add("raw null pointer", -1, func() *signature.PublicKey { k, _ := signature.RawPublicKey(nullPtr(), nil, []byte{}); return k })
	add("raw null with extra", -1, func() *signature.PublicKey { k, _ := signature.RawPublicKey(signature.Null, nil, r.Bytes(5)); return k })
	add("decoded binary", -1, func() *signature.PublicKey { k := new(signature.PublicKey); k.Unmarshal(zero); return k })
	add("decoded without data", -1, func() *signature.PublicKey {
		k := new(signature.PublicKey)
		k.UnmarshalMsg(ref.Container(0, nil))
		return k
	})
	add("decoded text", -1, func() *signature.PublicKey {
		k, _ := signature.ParsePublicKey("npub" + ref.KeyText(0, nil, nil))
		return k
	})
	add("decoded null with a key", -1, func() *signature.PublicKey {
		k := new(signature.PublicKey)
		k.Unmarshal(ref.KeyBinary(0, r.Bytes(32), nil))
		return k
	})
	for i, p := range pairs {
		mk := func() *signature.PublicKey {
			return must(signature.RawPublicKey(p.Al, append([]byte{}, p.Pub...), sk.Extra(r)))
		}
		add("real", i, mk)
		add("real decoded", i, func() *signature.PublicKey {
			return must(signature.ParsePublicKey(must(mk().MarshalString())))
		})
		add("wiped", -1, func() *signature.PublicKey { k := mk(); k.Zeroize(); return k })
		add("wiped and truncated", -1, func() *signature.PublicKey { k := mk(); k.Truncate(); k.Zeroize(); k.Truncate(); return k })
		add("overwritten by null", -1, func() *signature.PublicKey { k := mk(); k.Unmarshal(zero); return k })
		add("overwritten by null data", -1, func() *signature.PublicKey { k := mk(); k.Unmarshal(ref.Container(0, nil)); return k })
		add("real data without algorithm", -1, func() *signature.PublicKey {
			k := new(signature.PublicKey)
			k.Unmarshal(ref.KeyBinary(0, p.Pub, nil))
			return k
		})
		add("real algorithm without data", -1, func() *signature.PublicKey {
			k := new(signature.PublicKey)
			k.Unmarshal(ref.Container(p.ID, nil))
			return k
		})
		add("real algorithm with empty key", -1, func() *signature.PublicKey {
			k := new(signature.PublicKey)
			k.UnmarshalMsg(ref.KeyBinary(p.ID, nil, nil))
			return k
		})
		add("copy of wiped", -1, func() *signature.PublicKey { k := mk(); k.Zeroize(); c := *k; return &c })
		add("wiped twice", -1, func() *signature.PublicKey { k := mk(); k.Zeroize(); k.Zeroize(); return k })
	}
	return
}

func privs(m *mon.M, r gen.R, pairs []sk.Pair) (l []privKey) {
	add := func(how string, real int, f func() *signature.PrivateKey) {
		m.Try(how, func() {
			if k := f(); k != nil {
				l = append(l, privKey{how, k, real})
			}
		})
	}
	zero := ref.KeyBinary(0, nil, nil)
	add("zero", -1, func() *signature.PrivateKey { return new(signature.PrivateKey) })
	add("raw nil algorithm", -1, func() *signature.PrivateKey { k, _ := signature.RawPrivateKey(nil, nil, nil); return k })
	add("raw null", -1, func() *signature.PrivateKey { k, _ := signature.RawPrivateKey(signature.Null, []byte{}, nil); return k })
	add("raw null pointer", -1, func() *signature.PrivateKey { k, _ := signature.RawPrivateKey(nullPtr(), nil, []byte{}); return k })
	add("raw null with extra", -1, func() *signature.PrivateKey {
		k, _ := signature.RawPrivateKey(signature.Null, nil, r.Bytes(5))
		return k
	})
	add("decoded binary", -1, func() *signature.PrivateKey { k := new(signature.PrivateKey); k.Unmarshal(zero); return k })
	add("decoded without data", -1, func() *signature.PrivateKey {
		k := new(signature.PrivateKey)
		k.UnmarshalMsg(ref.Container(0, nil))
		return k
	})
	add("decoded text", -1, func() *signature.PrivateKey {
		k, _ := signature.ParsePrivateKey("npvt" + ref.KeyText(0, nil, nil))
		return k
	})
	for i, p := range pairs {
		mk := func() *signature.PrivateKey {
			return must(signature.RawPrivateKey(p.Al, append([]byte{}, p.Priv...), sk.Extra(r)))
		}
		add("real", i, mk)
		add("wiped", -1, func() *signature.PrivateKey { k := mk(); k.Zeroize(); return k })
		add("overwritten by null", -1, func() *signature.PrivateKey { k := mk(); k.Unmarshal(zero); return k })
		add("copy of wiped", -1, func() *signature.PrivateKey { k := mk(); k.Zeroize(); c := *k; return &c })
	}
	return
}

func sigs(m *mon.M, r gen.R, pairs []sk.Pair, msgs [][]byte, pv []privKey) (l []sigVal) {
	add := func(how string, real int, f func() *signature.Signature) {
		m.Try(how, func() {
			if s := f(); s != nil {
				l = append(l, sigVal{how, *s, real})
			}
		})
	}
	add("zero", -1, func() *signature.Signature { return new(signature.Signature) })
	add("raw nil algorithm", -1, func() *signature.Signature { s, _ := signature.RawSignature(nil, nil); return s })
	add("raw null", -1, func() *signature.Signature { s, _ := signature.RawSignature(signature.Null, []byte{}); return s })
	add("raw null pointer", -1, func() *signature.Signature { s, _ := signature.RawSignature(nullPtr(), nil); return s })
	add("decoded binary", -1, func() *signature.Signature {
		s := new(signature.Signature)
		s.Unmarshal(ref.Container(0, nil))
		return s
	})
	add("decoded text", -1, func() *signature.Signature { s, _ := signature.ParseSignature(ref.SigText(0, nil)); return s })
	for _, k := range pv {
		if k.real < 0 && k.k.Size() == len(k.k.KeyBytes()) {
			for _, msg := range msgs {
				add("signed by "+k.how, -1, func() *signature.Signature { s := k.k.Sign(msg); return &s })
			}
		}
	}
	// data which are the message or a key
	data := [][]byte{}
	for _, msg := range msgs {
		data = append(data, msg)
	}
	for _, p := range pairs {
		data = append(data, p.Pub, p.Priv)
	}
	for _, id := range []byte{0, 1, 2} {
		for _, b := range data {
			if len(b) > 0 {
				add("message or key as data", -1, func() *signature.Signature {
					s := new(signature.Signature)
					s.UnmarshalMsg(ref.Container(id, b))
					return s
				})
			}
		}
	}
	for i, p := range pairs {
		for j, msg := range msgs {
			b := p.Sign(msg)
			add("real", i*len(msgs)+j, func() *signature.Signature { return must(signature.RawSignature(p.Al, b)) })
			add("real data without algorithm", -1, func() *signature.Signature {
				s := new(signature.Signature)
				s.UnmarshalMsg(ref.Container(0, b))
				return s
			})
			add("overwritten by null", -1, func() *signature.Signature {
				s := must(signature.RawSignature(p.Al, b))
				s.Unmarshal(ref.Container(0, nil))
				return s
			})
		}
		add("real algorithm without data", -1, func() *signature.Signature {
			s := new(signature.Signature)
			s.UnmarshalMsg(ref.Container(p.ID, nil))
			return s
		})
	}
	return
}

// methods calls everything on a missing value.
func keyMethods(m *mon.M, how string, k signature.Key, private bool) {
	prefix := "npub"
	if private {
		prefix = "npvt"
	}
	type rest interface {
		IsZero() bool
		Size() int
		Marshal() ([]byte, error)
		Unmarshal([]byte) error
		MarshalString() (string, error)
		FullString() string
		Verify([]byte, signature.Signature) bool
	}
	m.Try(how, func() {
		m.Event("methods")
		if strings.Contains(how, "wiped") || strings.Contains(how, "null") && !strings.Contains(how, "with") || how == "zero" {
			m.Event("methods of null")
			m.Check(sk.ID(k.Algorithm()) == sk.NullID && len(k.KeyBytes())+len(k.ExtraBytes()) == 0 && k.(interface{ IsZero() bool }).IsZero(), how, "holds %T %x %x", k.Algorithm(), k.KeyBytes(), k.ExtraBytes())
			m.Check(signature.NameOf(k.Algorithm()) == "null", how, "name %s", signature.NameOf(k.Algorithm()))
		}
		empty := len(k.KeyBytes()) == 0 && len(k.ExtraBytes()) == 0
		isNull := sk.ID(k.Algorithm()) == sk.NullID
		m.Check(k.Algorithm() != nil, how, "nil algorithm")
		m.Check(k.KeyBytes() != nil && k.ExtraBytes() != nil, how, "nil bytes")
		s := fmt.Sprint(k) + k.String() + fmt.Sprintf("%v %s %+v %q", k, k, k, k)
		m.Check(strings.HasPrefix(s, prefix), how, "printed %s", s)
		z := k.(interface{ IsZero() bool })
		m.Check(z.IsZero() == (empty && isNull), how, "IsZero is %v", z.IsZero())
		if isNull {
			m.Check(k.(interface{ Size() int }).Size() == 0, how, "size")
		}
		b, err := k.MarshalMsg(nil)
		t, terr := k.MarshalText()
		m.Check((err == nil) == (terr == nil), how, "%v and %v", err, terr)
		j, jerr := json.Marshal(k)
		m.Check((err == nil) == (jerr == nil), how, "%v and %v", err, jerr)
		m.Check(k.Msgsize() >= len(b), how, "size bound %d < %d", k.Msgsize(), len(b))
		if isNull && empty {
			m.Check(err == nil && bytes.Equal(b, ref.KeyBinary(0, nil, nil)), how, "binary %x, %v", b, err)
			m.Check(terr == nil && string(t) == prefix+ref.KeyText(0, nil, nil), how, "text %s, %v", t, terr)
			m.Check(k.(interface{ FullString() string }).FullString() == string(t), how, "FullString")
			// and back
			for what, f := range map[string]func(signature.Key) error{
				"binary": func(k signature.Key) error { return k.(interface{ Unmarshal([]byte) error }).Unmarshal(b) },
				"msgp":   func(k signature.Key) error { _, err := k.UnmarshalMsg(b); return err },
				"text":   func(k signature.Key) error { return k.UnmarshalText(t) },
				"json":   func(k signature.Key) error { return json.Unmarshal(j, k) },
			} {
				var c signature.Key = new(signature.PublicKey)
				if private {
					c = new(signature.PrivateKey)
				}
				err := f(c)
				m.Check(err == nil && c.(interface{ IsZero() bool }).IsZero(), how, "decoded from %s: %v, %v", what, c, err)
			}
			p, err := signature.ParseKey(string(t))
			m.Check(err == nil && p.(interface{ IsZero() bool }).IsZero(), how, "ParseKey %v, %v", p, err)
		}
		m.Check(signature.SameAlgorithm(k.Algorithm(), k.Algorithm()), how, "algorithm is not itself")
		m.Check(isNull == signature.SameAlgorithm(nil, k.Algorithm()), how, "no algorithm and %T", k.Algorithm())
		if isNull {
			m.Check(signature.NameOf(k.Algorithm()) == "null", how, "name %s", signature.NameOf(k.Algorithm()))
		}
		k.Truncate()
		m.Check(len(k.ExtraBytes()) == 0, how, "truncated")
		k.Zeroize()
		m.Check(z.IsZero() && len(k.KeyBytes()) == 0 && sk.ID(k.Algorithm()) == sk.NullID, how, "wiped: %v", k)
		k.Zeroize()
		k.Truncate()
		_ = k.String()
	})
}

func sigMethods(m *mon.M, how string, s signature.Signature) {
	m.Try(how, func() {
		m.Event("methods")
		m.Check(s.Algorithm() != nil, how, "nil algorithm")
		isNull := sk.ID(s.Algorithm()) == sk.NullID
		if isNull {
			m.Check(s.Size() == 0, how, "size %d", s.Size())
		}
		_ = fmt.Sprint(s) + fmt.Sprintf("%v %+v", &s, s)
		b, err := s.Marshal()
		m.Check(err == nil && len(b) <= s.Msgsize(), how, "%x, %v", b, err)
		b2, err := s.MarshalMsg([]byte{1})
		m.Check(err == nil && bytes.Equal(b2[1:], b), how, "%x, %v", b2, err)
		t, err := s.MarshalText()
		m.Check(err == nil, how, "%v", err)
		if isNull && len(s.Bytes()) == 0 {
			m.Check(bytes.Equal(b, ref.Container(0, nil)), how, "binary %x", b)
			m.Check(string(t) == ref.SigText(0, nil), how, "text %s", t)
			p, err := signature.ParseSignature(string(t))
			m.Check(err == nil && len(p.Bytes()) == 0 && sk.ID(p.Algorithm()) == sk.NullID, how, "parsed %v, %v", p, err)
			q := new(signature.Signature)
			left, err := q.UnmarshalMsg(append(b, 7))
			m.Check(err == nil && len(left) == 1, how, "%v", err)
			j, err := json.Marshal(&s)
			m.Check(err == nil && json.Unmarshal(j, q) == nil, how, "%s, %v", j, err)
		}
	})
}

var _ encoding.TextMarshaler = signature.PublicKey{}
var _ msgp.Sizer = (*signature.Signature)(nil)

func all(m *mon.M, r gen.R) {
	pairs := []sk.Pair{sk.Ed(r), sk.Secp(r), sk.New(r)}
	if bytes.Equal(pairs[0].Pub, pairs[2].Pub) || bytes.Equal(pairs[1].Pub, pairs[2].Pub) {
		pairs = pairs[:2]
	}
	msgs := [][]byte{gen.Pick(r, nil, []byte{}), sk.Message(r), pairs[0].Pub}
	if len(msgs[1]) == 0 || bytes.Equal(msgs[1], msgs[2]) {
		msgs = [][]byte{gen.Pick(r, nil, []byte{}), pairs[0].Pub}
	}
	ps, vs := pubs(m, r, pairs), privs(m, r, pairs)
	ss := sigs(m, r, pairs, msgs, vs)
	for _, p := range ps {
		for _, s := range ss {
			for j, msg := range msgs {
				m.Do("pair", func() {
					want := p.real >= 0 && s.real == p.real*len(msgs)+j
					if p.real < 0 || s.real < 0 {
						m.NonTrivial()
					}
					m.Event(fmt.Sprintf("verifies %v", want))
					got := p.k.Verify(msg, s.s)
					m.Check(got == want, "verify", "%v", got)
					got = s.s.Verify(msg, *p.k)
					m.Check(got == want, "verify", "by the signature: %v", got)
				}, p.how, s.how, p.k.KeyBytes(), s.s.Bytes(), msg)
			}
		}
		for _, v := range vs {
			if v.k.Size() != len(v.k.KeyBytes()) {
				continue
			}
			m.Do("match", func() {
				if p.real < 0 || v.real < 0 {
					m.NonTrivial()
				}
				want := p.real >= 0 && p.real == v.real
				m.Check(signature.Match(*p.k, *v.k) == want, "match", "%v", !want)
			}, p.how, v.how, p.k.KeyBytes(), v.k.KeyBytes())
		}
	}
	// the null algorithm itself
	m.Do("null", func() {
		m.NonTrivial()
		for _, n := range []signature.Algorithm{signature.Null, nullPtr()} {
			for _, msg := range append(msgs, nil, []byte{}, r.Bytes(10)) {
				for _, k := range [][]byte{nil, {}, pairs[0].Pub, r.Bytes(7)} {
					for _, s := range [][]byte{nil, {}, pairs[0].Sign(msg), r.Bytes(7), n.Sign(nil, msg), n.Sign(k, msg), k, msg} {
						m.Check(!n.Verify(k, msg, s), "null verifies", "%x %x %x", k, msg, s)
					}
				}
				m.Check(len(n.Sign(nil, msg)) == 0 && len(n.Public(msg)) == 0, "null makes data", "")
			}
			m.Check(n.PublicKeySize() == 0 && n.PrivateKeySize() == 0 && n.SignatureSize() == 0, "sizes of null", "")
			for _, rd := range []*bytes.Reader{nil, bytes.NewReader(r.Bytes(100))} {
				var a, b []byte
				var err error
				var pub signature.PublicKey
				var priv signature.PrivateKey
				var err2 error
				if rd == nil {
					a, b, err = n.Generate(nil)
					pub, priv, err2 = signature.Generate(n, nil)
				} else {
					a, b, err = n.Generate(rd)
					pub, priv, err2 = signature.Generate(n, rd)
				}
				m.Check(err != nil && len(a)+len(b) == 0, "null key generated", "%x %x", a, b)
				m.Check(err2 != nil && pub.IsZero() && priv.IsZero(), "null key generated", "%v %v", pub, priv)
			}
			_, err := signature.RawPublicKey(n, []byte{1}, nil)
			m.Check(err != nil, "null key with data", "")
			_, err = signature.RawPrivateKey(n, []byte{1}, nil)
			m.Check(err != nil, "null key with data", "")
			_, err = signature.RawSignature(n, []byte{1})
			m.Check(err != nil, "null signature with data", "")
		}
		_, err := signature.RawPublicKey(nil, []byte{1}, nil)
		m.Check(err != nil, "null key with data", "")
		_, err = signature.RawSignature(nil, []byte{1})
		m.Check(err != nil, "null signature with data", "")
		als := []signature.Algorithm{nil, signature.Null, signature.Ed25519, signature.Secp256k1, nullPtr(), &signature.Ed25519, &signature.Secp256k1}
		for i, a := range als {
			for j, b := range als {
				same := class(i) == class(j)
				m.Check(signature.SameAlgorithm(a, b) == same, "SameAlgorithm", "%d %d", i, j)
			}
		}
	}, pairs[0].Pub)
	// the methods last: they wipe
	for _, p := range ps {
		m.Do("key", func() { m.NonTrivial(); keyMethods(m, p.how, p.k, false) }, p.how, p.k.KeyBytes())
		m.Do("after", func() {
			for _, s := range ss {
				m.Check(!p.k.Verify(msgs[0], s.s), "wiped key verifies", "")
			}
		}, p.how)
	}
	for _, v := range vs {
		m.Do("private key", func() { m.NonTrivial(); keyMethods(m, v.how, v.k, true) }, v.how, v.k.KeyBytes())
		m.Do("after", func() {
			s := v.k.Sign(msgs[0])
			m.Check(len(s.Bytes()) == 0 && sk.ID(s.Algorithm()) == sk.NullID, "wiped key signs", "%v", s)
		}, v.how)
	}
	for _, s := range ss {
		m.Do("signature", func() { m.NonTrivial(); sigMethods(m, s.how, s.s) }, s.how, s.s.Bytes())
	}
	m.Do("pointers", func() {
		m.NonTrivial()
		var pub *signature.PublicKey
		var priv *signature.PrivateKey
		pub.Zeroize()
		priv.Zeroize()
		m.Check(!signature.IsPublic(nil) && !signature.IsPrivate(nil), "nil key", "")
		m.Check(signature.IsPublic(pub) && signature.IsPrivate(priv) && !signature.IsPrivate(pub) && !signature.IsPublic(priv), "nil pointers", "")
	}, 0)
	m.Do("string keys", func() {
		m.NonTrivial()
		for _, t := range []string{"", "npub" + ref.KeyText(0, nil, nil), "npvt" + ref.KeyText(0, nil, nil)} {
			k := &keyaddr.Key{Key: t}
			k.ToPublic()
			s, err := k.Sign("YWJj")
			m.Check(err != nil || s != nil, "null string key", "")
			k.NdauAddress()
			k.Child(0)
			k.HardenedChild(0)
		}
	}, 0)
}

func class(i int) int {
	return []int{0, 0, 1, 2, 0, 1, 2}[i]
}

func main() {
	mon.Main("C41", rule, func(m *mon.M) {
		m.Require("verifies false", 100000)
		m.Require("verifies true", 100)
		m.Require("methods", 1000)
		m.Require("methods of null", 1000)
		m.Par("all", 48, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < m.N(10, 30); j++ {
				all(m, r)
			}
		})
	})
}
