// C40: signatures verify exactly under the right key, message and algorithm.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"sync"

	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sk"
)

const rule = "keys of both algorithms (special scalars among them), messages of 0 to 5000 bytes, keys and signatures as made and after each codec; every signature checked with a big-number implementation of ECDSA and Ed25519; " +
	"then every bit of signature and message, truncations, extensions, other keys (the negated one too), the other algorithm, swapped, zero, out-of-range and negated values, and any sizes of key and signature; " +
	"non-trivial for a signature which must verify; distinct by key and message"

// seen are the commitments of all signatures, to see a nonce used twice.
var seen sync.Map

type pair struct {
	sk.Pair
	pub  *signature.PublicKey
	priv *signature.PrivateKey
}

func make1(m *mon.M, r gen.R, p sk.Pair) (pair, bool) {
	pub, err := signature.RawPublicKey(p.Al, append([]byte{}, p.Pub...), sk.Extra(r))
	if !m.Check(err == nil, "RawPublicKey", "%v", err) {
		return pair{}, false
	}
	priv, err := signature.RawPrivateKey(p.Al, append([]byte{}, p.Priv...), sk.Extra(r))
	if !m.Check(err == nil, "RawPrivateKey", "%v", err) {
		return pair{}, false
	}
	// half of the keys come out of a codec
	switch r.IntN(6) {
	case 0:
		t, _ := pub.MarshalText()
		pub = new(signature.PublicKey)
		err = pub.UnmarshalText(m.Arg(t))
	case 1:
		b, _ := pub.MarshalMsg(nil)
		pub = new(signature.PublicKey)
		_, err = pub.UnmarshalMsg(m.Arg(b))
	}
	m.Check(err == nil, "decode", "%v", err)
	switch r.IntN(6) {
	case 0:
		t, _ := priv.MarshalString()
		priv, err = signature.ParsePrivateKey(t)
	case 1:
		b, _ := priv.Marshal()
		priv = new(signature.PrivateKey)
		err = priv.Unmarshal(m.Arg(b))
	}
	m.Check(err == nil, "decode", "%v", err)
	return pair{p, pub, priv}, true
}

func raw(al signature.Algorithm, b []byte) (signature.Signature, bool) {
	s, err := signature.RawSignature(al, b)
	if err != nil {
		return signature.Signature{}, false
	}
	return *s, true
}

// verdict asks every way of verification; they agree.
func verdict(m *mon.M, what string, pub *signature.PublicKey, msg []byte, sig signature.Signature) (v bool, ok bool) {
	ok = m.Try(what, func() {
		mc, sc := append([]byte{}, msg...), append([]byte{}, sig.Bytes()...)
		v = pub.Verify(m.Arg(msg), sig)
		w := sig.Verify(msg, *pub)
		m.Check(v == w, what, "key says %v, signature %v", v, w)
		m.Check(pub.Verify(msg, sig) == v, what, "not the same twice")
		m.Check(bytes.Equal(mc, msg) && bytes.Equal(sc, sig.Bytes()), what, "verification changes its operands")
	})
	return
}

func must(m *mon.M, what string, pub *signature.PublicKey, msg []byte, sig signature.Signature, want bool) bool {
	got, ok := verdict(m, what, pub, msg, sig)
	if want {
		m.Event("verified")
	} else {
		m.Event("refused")
	}
	return ok && m.Check(got == want, what, "verify is %v; key %x message %x signature %x (%s)", got, pub.KeyBytes(), msg, sig.Bytes(), signature.NameOf(sig.Algorithm()))
}

// judged verifies bytes as a signature, against the reference.
func judged(m *mon.M, what string, p pair, msg, b []byte) {
	want := false
	if p.ID == sk.EdID {
		want = ref.EdVerify(p.Pub, msg, b)
	} else if r, s, ok := ref.ParseDER(b); ok {
		want = ref.VerifyECDSA(p.Pub, msg, r, s)
	} else if r, s, ok := ref.ParseBER(b); ok && ref.VerifyECDSA(p.Pub, msg, r, s) {
		// the same numbers, not in the canonical encoding: either is right
		m.Event("lenient encoding")
		if sig, ok := raw(p.Al, b); ok {
			verdict(m, what, p.pub, msg, sig)
		}
		return
	}
	m.Check(p.Al.Verify(m.Arg(p.Pub), m.Arg(msg), m.Arg(b)) == want, what, "Algorithm.Verify is %v for %x", !want, b)
	if sig, ok := raw(p.Al, b); ok {
		must(m, what, p.pub, msg, sig, want)
	}
}

func signed(m *mon.M, r gen.R, p pair, other pair, msg []byte, deep bool) {
	m.NonTrivial()
	mc := append([]byte{}, msg...)
	sig := p.priv.Sign(m.Arg(msg))
	if !m.Check(bytes.Equal(mc, msg), "message changed", "%x", msg) {
		return
	}
	b := append([]byte{}, sig.Bytes()...)
	again := p.priv.Sign(append([]byte{}, msg...))
	m.Check(bytes.Equal(again.Bytes(), b), "not deterministic", "%x and %x", b, again.Bytes())
	m.Check(bytes.Equal(p.Al.Sign(m.Arg(p.Priv), m.Arg(msg)), b), "not deterministic", "Algorithm.Sign")
	m.Check(bytes.Equal(p.Al.Public(m.Arg(p.Priv)), p.Pub), "Public", "%x", p.Al.Public(p.Priv))
	m.Check(signature.SameAlgorithm(sig.Algorithm(), p.Al), "algorithm", "%T", sig.Algorithm())
	must(m, "own signature", p.pub, msg, sig, true)

	// an independent implementation verifies it, and the nonce is fresh
	var commit []byte
	switch p.ID {
	case sk.EdID:
		m.Check(ref.EdVerify(p.Pub, msg, b), "independent", "%x", b)
		pub, want := ref.EdSign(p.Priv[:32], msg)
		m.Check(bytes.Equal(pub, p.Pub), "public key", "%x", pub)
		m.Check(bytes.Equal(want, b), "independent", "signature %x, want %x", b, want)
		commit = b[:min(32, len(b))]
	case sk.SecpID:
		R, S, ok := ref.ParseDER(b)
		if m.Check(ok, "independent", "not DER: %x", b) {
			m.Check(ref.VerifyECDSA(p.Pub, msg, R, S), "independent", "%x", b)
			m.Check(new(big.Int).Lsh(S, 1).Cmp(ref.N) < 0, "independent", "high s")
			m.Check(bytes.Equal(p.Sign(msg), b), "independent", "signature %x, want %x", b, p.Sign(msg))
			commit = R.Bytes()
		}
	}
	id := hex.EncodeToString(commit)
	whose := string(p.Pub) + string(msg)
	if old, had := seen.LoadOrStore(id, whose); had && old != whose {
		m.Failf("nonce used twice", "%s", id)
	}
	m.Check(signature.Match(*p.pub, *p.priv), "Match", "pair does not match")

	// through the codecs
	t, err := sig.MarshalText()
	if m.Check(err == nil, "MarshalText", "%v", err) {
		s2, err := signature.ParseSignature(string(t))
		if m.Check(err == nil, "ParseSignature", "%v", err) {
			must(m, "decoded signature", p.pub, msg, *s2, true)
		}
	}
	mb, err := sig.MarshalMsg(nil)
	if m.Check(err == nil, "MarshalMsg", "%v", err) {
		s2 := new(signature.Signature)
		_, err := s2.UnmarshalMsg(m.Arg(mb))
		if m.Check(err == nil, "UnmarshalMsg", "%v", err) {
			must(m, "decoded signature", p.pub, msg, *s2, true)
		}
	}

	// other messages
	if len(msg) > 0 {
		c := append([]byte{}, msg...)
		c[r.IntN(len(c))] ^= 1 << r.IntN(8)
		must(m, "another message", p.pub, c, sig, false)
		must(m, "another message", p.pub, msg[:len(msg)-1], sig, false)
		must(m, "another message", p.pub, msg[1:], sig, false)
		must(m, "another message", p.pub, nil, sig, false)
		for _, i := range []int{0, len(msg) - 1} {
			c := append([]byte{}, msg...)
			c[i] ^= 1 << r.IntN(8)
			must(m, "another message", p.pub, c, sig, false)
		}
	} else {
		must(m, "own signature", p.pub, []byte{}, sig, true)
		must(m, "own signature", p.pub, nil, sig, true)
	}
	must(m, "another message", p.pub, append(append([]byte{}, msg...), 0), sig, false)
	must(m, "another message", p.pub, append([]byte{0}, msg...), sig, false)
	must(m, "another message", p.pub, append(append([]byte{}, msg...), msg...), sig, len(msg) == 0)
	if h := ref.Sum224(msg); true {
		must(m, "another message", p.pub, h, sig, false)
	}

	// other keys and algorithms
	must(m, "another key", other.pub, msg, sig, false)
	m.Check(!signature.Match(*other.pub, *p.priv), "Match", "another key matches")
	if forged, ok := raw(other.Al, b); ok {
		must(m, "another key and algorithm", other.pub, msg, forged, false)
	}
	for _, al := range []signature.Algorithm{signature.Ed25519, signature.Secp256k1, signature.Null} {
		if forged, ok := raw(al, b); ok && !signature.SameAlgorithm(al, p.Al) {
			must(m, "another algorithm", p.pub, msg, forged, false)
		}
	}
	if p.ID == sk.SecpID {
		q := append([]byte{}, p.Pub...)
		q[0] ^= 1
		if neg, err := signature.RawPublicKey(p.Al, q, nil); err == nil {
			must(m, "negated key", neg, msg, sig, false)
			m.Check(!signature.Match(*neg, *p.priv), "Match", "negated key matches")
		}
	} else {
		q := append([]byte{}, p.Pub...)
		q[31] ^= 0x80
		if neg, err := signature.RawPublicKey(p.Al, q, nil); err == nil {
			must(m, "negated key", neg, msg, sig, false)
		}
		// a private key put together from two matches what its signatures verify with
		o := sk.Ed(r)
		if !bytes.Equal(o.Pub, p.Pub) {
			both := append(append([]byte{}, p.Priv[:32]...), o.Pub...)
			if k, err := signature.RawPrivateKey(p.Al, both, nil); err == nil {
				m.Event("mixed private keys")
				a, erra := signature.RawPublicKey(p.Al, p.Pub, nil)
				b, errb := signature.RawPublicKey(p.Al, o.Pub, nil)
				if m.Check(erra == nil && errb == nil, "RawPublicKey", "%v %v", erra, errb) {
					g := k.Sign(msg)
					must(m, "signature of a mixed key", b, msg, g, false)
					m.Check(signature.Match(*a, *k) == a.Verify(msg, g) && !signature.Match(*b, *k), "Match", "a key matches a private key whose signatures it does not verify")
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		q := append([]byte{}, p.Pub...)
		q[r.IntN(len(q))] ^= 1 << r.IntN(8)
		if k, err := signature.RawPublicKey(p.Al, q, nil); err == nil {
			must(m, "changed key", k, msg, sig, false)
		}
	}

	// changed signatures
	if deep {
		for i := 0; i < 8*len(b); i++ {
			c := append([]byte{}, b...)
			c[i/8] ^= 1 << (i % 8)
			judged(m, "changed bit", p, msg, c)
		}
		for i := 0; i < len(b); i++ {
			judged(m, "truncated", p, msg, b[:i])
		}
	}
	for i := 0; i < 3; i++ {
		c := append([]byte{}, b...)
		c[r.IntN(len(c))] ^= 1 << r.IntN(8)
		judged(m, "changed bit", p, msg, c)
	}
	judged(m, "truncated", p, msg, b[:r.IntN(len(b))])
	judged(m, "truncated", p, msg, b[1:])
	judged(m, "extended", p, msg, append(append([]byte{}, b...), r.Bytes(1+r.IntN(70))...))
	judged(m, "extended", p, msg, append(append([]byte{}, b...), b...))
	judged(m, "any signature", p, msg, r.Bytes(r.Len(80)))
	judged(m, "zeros", p, msg, make([]byte, len(b)))
	var values [][2]*big.Int
	if p.ID == sk.SecpID {
		R, S, _ := ref.ParseDER(b)
		if R != nil {
			n := ref.N
			add := func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
			neg := func(x *big.Int) *big.Int { return new(big.Int).Sub(n, x) }
			zero, one := new(big.Int), big.NewInt(1)
			values = [][2]*big.Int{{S, R}, {zero, S}, {R, zero}, {zero, zero}, {n, S}, {R, n}, {add(R, n), S}, {R, add(S, n)}, {R, neg(S)}, {neg(R), S}, {one, one}, {R, one}, {one, S},
				{R, add(S, one)}, {add(R, one), S}, {R, R}, {S, S}, {new(big.Int).Sub(n, one), S}, {ref.P, S}}
			for _, v := range values {
				judged(m, "other values", p, msg, ref.DER(v[0], v[1]))
			}
			if deep {
				// the same numbers and others, not canonically encoded
				for _, v := range [][2]*big.Int{{R, S}, {S, R}, {R, zero}} {
					for _, e := range lenient(v[0], v[1]) {
						judged(m, "not canonical", p, msg, e)
					}
				}
			}
		}
	} else if len(b) == 64 {
		S := ref.EdInt(b[32:])
		L := ref.EdL()
		for k := int64(1); k < 15; k++ {
			s := new(big.Int).Add(S, new(big.Int).Mul(L, big.NewInt(k)))
			if s.BitLen() > 256 {
				break
			}
			judged(m, "other values", p, msg, append(append([]byte{}, b[:32]...), ref.EdLE(s)...))
		}
		judged(m, "other values", p, msg, append(append([]byte{}, b[:32]...), ref.EdLE(new(big.Int).Sub(L, S))...))
		judged(m, "other values", p, msg, append(append([]byte{}, b[32:]...), b[:32]...))
		judged(m, "other values", p, msg, append(make([]byte, 32), b[32:]...))
		judged(m, "other values", p, msg, append(append([]byte{}, b[:32]...), make([]byte, 32)...))
		judged(m, "other values", p, msg, append(append([]byte{}, p.Pub...), make([]byte, 32)...))
	}
}

// lenient encodes numbers in ways which are not canonical.
func lenient(r, s *big.Int) [][]byte {
	enc := func(n *big.Int, pad int) []byte {
		b := append(make([]byte, pad), n.Bytes()...)
		return append([]byte{2, byte(len(b))}, b...)
	}
	seq := func(a, b []byte) []byte {
		c := append(append([]byte{}, a...), b...)
		return append([]byte{0x30, byte(len(c))}, c...)
	}
	d := ref.DER(r, s)
	return [][]byte{
		seq(enc(r, 0), enc(s, 0)), seq(enc(r, 2), enc(s, 2)), seq(enc(r, 33), enc(s, 1)),
		append(append([]byte{}, d...), 0), append(append([]byte{0x30, 0x81}, d[1]), d[2:]...),
	}
}

// edges are signatures nobody stumbles upon: the numbers are chosen, and the
// public key is computed so that they are the signature of the message.
func edges(m *mon.M, r gen.R) {
	one := big.NewInt(1)
	lift := func(x *big.Int) (ref.Point, bool) {
		if x.Sign() <= 0 || x.Cmp(ref.P) >= 0 {
			return ref.Point{}, false
		}
		return ref.ParseP(append([]byte{byte(2 + r.IntN(2))}, ref.Ser32(x)...))
	}
	wide := func() *big.Int {
		n := new(big.Int).SetBytes(r.Bytes(1 + r.IntN(32)))
		return n.Mod(n, ref.N).Add(n, one)
	}
	half := new(big.Int).Rsh(ref.N, 1)
	// where the point of the signature lies: at the least x, at any of few
	// bytes, just below the order, and between the order and the prime
	starts := []struct {
		name string
		x    *big.Int
	}{
		{"least", one}, {"short", wide()}, {"below the order", new(big.Int).Sub(ref.N, big.NewInt(int64(1+r.IntN(50))))},
		{"above the order", new(big.Int).Add(ref.N, big.NewInt(int64(1+r.IntN(1<<20))))}, {"half of the order", new(big.Int).Add(half, big.NewInt(int64(r.IntN(9))))},
		{"x of half of G", ref.MulG(new(big.Int).ModInverse(big.NewInt(2), ref.N)).X},
	}
	for _, st := range starts {
		R, ok := lift(st.x)
		for x := new(big.Int).Set(st.x); !ok; {
			x.Add(x, one)
			R, ok = lift(x)
		}
		rr := new(big.Int).Mod(R.X, ref.N)
		if rr.Sign() == 0 {
			continue
		}
		for _, ss := range []*big.Int{one, big.NewInt(int64(2 + r.IntN(1<<16))), wide(), half, new(big.Int).Add(half, one), new(big.Int).Sub(ref.N, one)} {
			msg := sk.Message(r)
			h := sha256.Sum256(msg)
			z := new(big.Int).SetBytes(h[:])
			z.Mod(z, ref.N)
			// Q = (s R - z G) / r
			q := ref.AddP(ref.Mul(ss, R), ref.MulG(new(big.Int).Sub(ref.N, z)))
			if q.Inf() {
				continue
			}
			q = ref.Mul(new(big.Int).ModInverse(rr, ref.N), q)
			pub, err := signature.RawPublicKey(signature.Secp256k1, ref.SerP(q), sk.Extra(r))
			if !m.Check(err == nil, "RawPublicKey", "%v", err) {
				continue
			}
			m.NonTrivial()
			m.Event("edge " + st.name)
			what := "signature with chosen numbers (" + st.name + ")"
			b := ref.DER(rr, ss)
			sig, ok := raw(signature.Secp256k1, append([]byte{}, b...))
			if !m.Check(ok, what, "%x is refused", b) || !must(m, what, pub, msg, sig, ref.VerifyECDSA(pub.KeyBytes(), msg, rr, ss)) {
				continue
			}
			t, err := sig.MarshalText()
			if m.Check(err == nil, "MarshalText", "%v", err) {
				s2, err := signature.ParseSignature(string(t))
				if m.Check(err == nil && bytes.Equal(s2.Bytes(), b), "ParseSignature", "%s: %v", t, err) {
					must(m, what, pub, msg, *s2, true)
				}
			}
			mb, err := sig.MarshalMsg(nil)
			if m.Check(err == nil, "MarshalMsg", "%v", err) {
				s2 := new(signature.Signature)
				_, err := s2.UnmarshalMsg(m.Arg(mb))
				if m.Check(err == nil && bytes.Equal(s2.Bytes(), b), "UnmarshalMsg", "%x: %v", mb, err) {
					must(m, what, pub, msg, *s2, true)
				}
			}
			must(m, "another message", pub, append([]byte{1}, msg...), sig, false)
			x := pair{sk.Pair{ID: sk.SecpID, Al: signature.Secp256k1, Pub: ref.SerP(q)}, pub, nil}
			for _, v := range [][2]*big.Int{{R.X, ss}, {new(big.Int).Add(rr, ref.N), ss}, {rr, new(big.Int).Add(ss, ref.N)}, {rr, new(big.Int).Sub(ref.N, ss)}, {ss, rr}, {new(big.Int).Sub(ref.N, rr), ss}, {new(big.Int).Add(rr, one), ss}, {rr, new(big.Int).Add(ss, one)}} {
				judged(m, "other values", x, msg, ref.DER(v[0], v[1]))
			}
		}
	}
}

// long: every part of a long message counts.
func long(m *mon.M, r gen.R, p sk.Pair, n int) {
	m.NonTrivial()
	m.Event("long")
	msg := make([]byte, n)
	for i := range msg {
		msg[i] = byte(r.Rand.Uint32())
	}
	k, ok := make1(m, r, p)
	if !ok {
		return
	}
	sig := k.priv.Sign(msg)
	m.Check(bytes.Equal(sig.Bytes(), p.Sign(msg)), "independent", "signature of %d bytes", n)
	must(m, "long message", k.pub, msg, sig, true)
	for _, i := range []int{0, n / 2, n - 1, r.IntN(n)} {
		msg[i] ^= 1
		must(m, "another long message", k.pub, msg, sig, false)
		msg[i] ^= 1
	}
	must(m, "another long message", k.pub, msg[:n-1], sig, false)
	must(m, "another long message", k.pub, msg[1:], sig, false)
}

// sizes: no sizes of anything make verification panic, and none verifies.
func sizes(m *mon.M, r gen.R) {
	p, q := sk.Ed(r), sk.Secp(r)
	msg := sk.Message(r)
	for _, k := range []sk.Pair{p, q} {
		sig := k.Sign(msg)
		for _, al := range []signature.Algorithm{signature.Ed25519, signature.Secp256k1, signature.Null} {
			pubs := [][]byte{nil, {}, k.Pub[:len(k.Pub)-1], append(append([]byte{}, k.Pub...), 0), r.Bytes(r.Len(200)), r.Bytes(32), r.Bytes(33), make([]byte, 32), make([]byte, 33), k.Priv, sig,
				append([]byte{2}, bytes.Repeat([]byte{0xff}, 32)...), append([]byte{4}, r.Bytes(64)...), append([]byte{6}, r.Bytes(64)...)}
			sigs := [][]byte{nil, {}, sig, sig[:len(sig)-1], append(append([]byte{}, sig...), 0), r.Bytes(r.Len(200)), r.Bytes(64), make([]byte, 64), {0x30}, {0x30, 0}, {0x30, 6, 2, 1, 1, 2, 1, 1},
				{0x30, 0xff}, append([]byte{0x30, 0xff}, r.Bytes(300)...), {0x30, 6, 2, 0x7f, 1, 2, 1, 1}, {0x30, 6, 2, 2, 1, 2, 1, 1}, {0x30, 0xfe, 2, 1, 1, 2, 1, 1}}
			for _, pub := range pubs {
				for _, s := range sigs {
					m.Event("sizes")
					m.Try("Verify", func() {
						v := al.Verify(pub, msg, s)
						// points of small order have such signatures
						want := signature.SameAlgorithm(al, signature.Ed25519) && ref.EdVerify(pub, msg, s)
						m.Check(v == want, "any sizes", "%s: %v for key %x signature %x", signature.NameOf(al), v, pub, s)
					})
				}
			}
			for _, s := range sigs {
				m.Try("Verify", func() {
					v := al.Verify(k.Pub, msg, s)
					if v && !(signature.SameAlgorithm(al, k.Al) && bytes.HasPrefix(s, sig)) {
						m.Failf("any sizes", "%s verifies: key %x signature %x", signature.NameOf(al), k.Pub, s)
					}
				})
			}
		}
		// keys of the wrong size, left behind by a failed decode
		for _, n := range []int{0, 1, 16, 31, 32, 33, 34, 64, 65, 200} {
			pub := new(signature.PublicKey)
			err := pub.Unmarshal(ref.KeyBinary(k.ID, r.Bytes(n), nil))
			m.Check((err == nil) == (n == len(k.Pub)), "size of a key", "%d: %v", n, err)
			s, _ := raw(k.Al, sig)
			v, ok := verdict(m, "left behind", pub, msg, s)
			m.Check(ok && !v, "left behind", "%d bytes verify", n)
			priv := new(signature.PrivateKey)
			err = priv.Unmarshal(ref.KeyBinary(k.ID, r.Bytes(n), nil))
			m.Check((err == nil) == (n == len(k.Priv)), "size of a key", "private %d: %v", n, err)
			_, err = signature.RawPublicKey(k.Al, r.Bytes(n), nil)
			m.Check((err == nil) == (n == len(k.Pub)), "size of a key", "raw %d: %v", n, err)
			_, err = signature.RawPrivateKey(k.Al, r.Bytes(n), nil)
			m.Check((err == nil) == (n == len(k.Priv)), "size of a key", "raw private %d: %v", n, err)
			_, err = signature.RawSignature(k.Al, r.Bytes(n))
			m.Check((err == nil) == (k.ID == sk.SecpID || n == 64), "size of a signature", "raw %d: %v", n, err)
		}
	}
}

// generated: pairs made by the library sign for each other.
func generated(m *mon.M, r gen.R, al signature.Algorithm) {
	m.NonTrivial()
	pub, priv, err := signature.Generate(al, bytes.NewReader(r.Bytes(100)))
	if err != nil {
		m.Failf("Generate", "%v", err)
		return
	}
	msg := sk.Message(r)
	sig := priv.Sign(msg)
	must(m, "generated", &pub, msg, sig, true)
	m.Check(signature.Match(pub, priv), "Match", "generated pair")
	m.Check(bytes.Equal(al.Public(priv.KeyBytes()), pub.KeyBytes()), "Public", "of a generated pair")
	pub2, priv2, err := signature.Generate(al, nil)
	if m.Check(err == nil, "Generate", "%v", err) {
		must(m, "generated", &pub2, msg, priv2.Sign(msg), true)
		must(m, "another key", &pub, msg, priv2.Sign(msg), false)
		m.Check(!bytes.Equal(priv.KeyBytes(), priv2.KeyBytes()), "Generate", "the same key twice")
	}
}

// extended: extended keys sign as the signature keys they turn into.
func extended(m *mon.M, r gen.R) {
	m.NonTrivial()
	x := hd.XKey(r)
	k := hd.Key(x)
	priv, err := k.SPrivKey()
	if !m.Check(err == nil, "SPrivKey", "%v", err) {
		return
	}
	pub, err := k.SPubKey()
	if !m.Check(err == nil, "SPubKey", "%v", err) {
		return
	}
	msg := sk.Message(r)
	must(m, "extended", pub, msg, priv.Sign(msg), true)
	p, err := k.Public()
	if !m.Check(err == nil, "Public", "%v", err) {
		return
	}
	n := hd.Normal(r)
	pc, err1 := p.Child(n)
	kc, err2 := k.Child(n)
	if m.Check((err1 == nil) == (err2 == nil), "child", "%v and %v", err1, err2) && err1 == nil {
		pub2, err := pc.SPubKey()
		if m.Check(err == nil, "SPubKey", "%v", err) {
			priv2, err := kc.SPrivKey()
			if m.Check(err == nil, "SPrivKey", "%v", err) {
				must(m, "public derivation", pub2, msg, priv2.Sign(msg), true)
				must(m, "another key", pub, msg, priv2.Sign(msg), false)
				must(m, "another key", pub2, msg, priv.Sign(msg), false)
			}
		}
	}
}

func main() {
	mon.Main("C40", rule, func(m *mon.M) {
		var wit []hd.Witness
		w := hd.Witnesses()
		for _, k := range hd.Kinds(w) {
			if len(k) > 3 && k[:3] == "sig" {
				wit = append(wit, w[k]...)
			}
		}
		m.Require("witness", int64(len(wit)))
		m.Require("verified", 1000)
		m.Require("refused", 10000)
		m.Require("sizes", 1000)
		m.Require("edge least", 100)
		m.Require("edge above the order", 100)
		m.Par("witness", len(wit), func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			k, err := ref.Master(hd.Seed(wit[i].Seed))
			if err != nil {
				panic(err)
			}
			m.Do("short values", func() {
				p, ok := make1(m, r, sk.SecpFrom(r, new(big.Int).SetBytes(k.Key)))
				o, ok2 := make1(m, r, sk.Secp(r))
				if ok && ok2 {
					m.Event("witness")
					signed(m, r, p, o, hd.Message(wit[i].Message), m.Thorough || i%3 == 0)
				}
			}, hd.Message(wit[i].Message))
		})
		m.Par("signed", 64, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < m.N(6, 60); j++ {
				p, o, msg := sk.New(r), sk.New(r), sk.Message(r)
				if r.IntN(2) == 0 {
					o = sk.Ed(r)
					if p.ID == sk.SecpID {
						o = sk.Secp(r)
					}
				}
				m.Do("signed", func() {
					if bytes.Equal(p.Pub, o.Pub) {
						return
					}
					a, ok := make1(m, r, p)
					b, ok2 := make1(m, r, o)
					if ok && ok2 {
						signed(m, r, a, b, msg, m.Thorough && j%20 == 0 || j == 0 && i%8 == 0)
					}
				}, p.Priv, msg)
			}
		})
		m.Par("rest", 32, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < m.N(2, 20); j++ {
				m.Do("sizes", func() { sizes(m, r) })
				m.Do("edges", func() { edges(m, r) }, i, j)
				m.Do("generated ed25519", func() { generated(m, r, sk.Al(r, sk.EdID)) }, i, j)
				m.Do("generated secp256k1", func() { generated(m, r, sk.Al(r, sk.SecpID)) }, i, j)
				m.Do("extended", func() { extended(m, r) }, i, j)
			}
		})
		// long messages, every byte of which counts
		longs := gen.Longs(300, m.N(1<<21, 1<<24))
		m.Require("long", int64(len(longs)))
		m.Par("long", len(longs), func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for _, p := range []sk.Pair{sk.Ed(r), sk.Secp(r)} {
				m.Do("long", func() { long(m, r, p, longs[i]) }, p.Priv, longs[i])
			}
		})
		// one message after another with one key, many: nonces stay apart
		m.Par("many", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			p := sk.New(r)
			for j := 0; j < m.N(100, 600); j++ {
				msg := hd.Message(uint32(i*100000 + j))
				m.Do("many", func() {
					m.NonTrivial()
					b := p.Al.Sign(m.Arg(p.Priv), m.Arg(msg))
					m.Check(bytes.Equal(b, p.Sign(msg)), "independent", "%x", b)
					m.Check(p.Al.Verify(p.Pub, msg, b), "own signature", "%x", b)
				}, p.Priv, msg)
			}
		})
	})
}
