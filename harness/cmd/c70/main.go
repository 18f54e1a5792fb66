// C70: the string API gives exactly what the key packages give.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sk"
)

const rule = "histories of operations on string keys from master, native and old-format texts (private and public, any depth, case changed), every result compared with the reference; base 64 in other spellings; the same child from other parents' paths; invalid key texts, numbers, paths, base64, words and languages through every operation; " +
	"non-trivial for a valid key or phrase; distinct by key and operation"

var b64 = base64.StdEncoding

// valid tells whether the contents of a key are a key.
func valid(x *ref.XKey) bool {
	if x.Private {
		n := new(big.Int).SetBytes(x.Key)
		return n.Sign() > 0 && n.Cmp(ref.N) < 0
	}
	_, ok := ref.ParseP(x.Key)
	return ok
}

// oldText is the text of a key in the format before 2018.
func oldText(x *ref.XKey, ver []byte) string {
	b := append([]byte{}, ver...)
	b = append(b, x.Depth)
	b = append(b, x.FP...)
	b = binary.BigEndian.AppendUint32(b, x.Num)
	b = append(b, x.Chain...)
	if x.Private {
		b = append(b, 0)
	}
	b = append(b, x.Key...)
	return ref.OldText(b)
}

// fromOld reads a text in the old format.
func fromOld(s string) (x *ref.XKey, v ref.Verdict) {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 || s[i] == '=' {
			return nil, ref.Free
		}
	}
	b, ok := ref.B32Decode(strings.NewReplacer("\n", "", "\r", "").Replace(s))
	if !ok || len(b) != 80 {
		return nil, ref.Reject
	}
	h := sha256.Sum256(b[:76])
	h = sha256.Sum256(h[:])
	if !bytes.Equal(h[:4], b[76:]) {
		return nil, ref.Reject
	}
	d := b[43:76]
	x = &ref.XKey{Private: d[0] == 0, Key: d, Depth: b[3], FP: b[4:7], Num: binary.BigEndian.Uint32(b[7:]), Chain: b[11:43]}
	if x.Private {
		x.Key = d[1:]
	} else if new(big.Int).SetBytes(d[1:]).Cmp(ref.P) >= 0 {
		return nil, ref.Free
	}
	if !valid(x) {
		return nil, ref.Reject
	}
	return x, ref.Accept
}

// keyIs compares a string key with the reference.
func keyIs(m *mon.M, what string, k *keyaddr.Key, err error, want *ref.XKey, werr error) bool {
	if werr != nil {
		m.Event("error")
		return m.Check(err != nil && k == nil, what, "no error: %v", k)
	}
	m.Event("key")
	if !m.Check(err == nil && k != nil, what, "error %v", err) {
		return false
	}
	return m.Check(k.Key == want.Text(), what, "got %s, want %s", k.Key, want.Text())
}

// otherB64 writes a base 64 text in another way which decodes the same: with
// line breaks, or with other spare bits in the last character.
func otherB64(r gen.R, s string) string {
	const digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	t := []byte(s)
	if n := strings.IndexByte(s, '='); n > 0 && r.IntN(2) == 0 {
		spare := 4
		if len(s)-n == 1 {
			spare = 2
		}
		d := strings.IndexByte(digits, t[n-1])
		t[n-1] = digits[d|r.IntN(1<<spare)]
	}
	if r.IntN(3) == 0 {
		i := r.IntN(len(t) + 1)
		t = append(append(append([]byte{}, t[:i]...), gen.Pick(r, "\n", "\r\n")...), t[i:]...)
	}
	return string(t)
}

// observe calls everything which asks something of a valid key.
func observe(m *mon.M, r gen.R, s string, x *ref.XKey) {
	k := &keyaddr.Key{Key: s}
	a, err := k.NdauAddress()
	want, _ := ref.Address('a', x.Pub())
	if m.Check(err == nil && a != nil, "NdauAddress", "%v", err) {
		m.Check(a.Address == want, "NdauAddress", "got %s, want %s", a.Address, want)
	}
	p, err := k.IsPrivate()
	m.Check(err == nil && p == x.Private, "IsPrivate", "%v, %v", p, err)
	pub, err := k.ToPublic()
	keyIs(m, "ToPublic", pub, err, x.Public(), nil)
	ext, err := k.ToExtended()
	if m.Check(err == nil, "ToExtended", "%v", err) {
		hd.Same(m, "ToExtended", ext, x)
		e, err := keyaddr.KeyFromExtended(ext)
		keyIs(m, "KeyFromExtended", e, err, x, nil)
	}
	pk, err := k.ToPublicKey()
	if m.Check(err == nil, "ToPublicKey", "%v", err) {
		m.Check(pk.FullString() == x.Public().Text(), "ToPublicKey", "%s", pk.FullString())
		e, err := keyaddr.KeyFromPublic(pk)
		keyIs(m, "KeyFromPublic", e, err, x.Public(), nil)
	}
	vk, err := k.ToPrivateKey()
	if !x.Private {
		m.Event("error")
		m.Check(err != nil && len(vk.KeyBytes()) == 0, "ToPrivateKey", "of a public key: %v", vk.FullString())
	} else if m.Check(err == nil, "ToPrivateKey", "%v", err) {
		m.Check(vk.FullString() == x.Text(), "ToPrivateKey", "%s", vk.FullString())
		e, err := keyaddr.KeyFromPrivate(vk)
		keyIs(m, "KeyFromPrivate", e, err, x, nil)
	}
	msg := sk.Message(r)
	text := b64.EncodeToString(msg)
	if r.IntN(3) == 0 {
		if o := otherB64(r, text); o != text {
			text = o
			m.Event("other base 64")
		}
	}
	sig, err := k.Sign(text)
	if !x.Private {
		m.Event("error")
		m.Check(err != nil && sig == nil, "Sign", "a public key signs: %v", sig)
	} else if m.Check(err == nil && sig != nil, "Sign", "%v", err) {
		m.Event("signature")
		d, v := ref.ReadSignatureText(sig.Signature)
		if m.Check(v == ref.Accept && d.ID == 2, "Sign", "%v", sig) {
			a, b, ok := ref.ParseDER(d.Key)
			m.Check(ok && ref.VerifyECDSA(x.Pub(), msg, a, b), "Sign", "does not verify: %s", sig.Signature)
			p := sk.Pair{ID: sk.SecpID, Priv: x.Key}
			m.Check(bytes.Equal(p.Sign(msg), d.Key), "Sign", "got %x, want %x", d.Key, p.Sign(msg))
		}
		ss, err := sig.ToSignature()
		if m.Check(err == nil && bytes.Equal(ss.Bytes(), d.Key), "ToSignature", "%v", err) {
			m.Check(pk.Verify(msg, ss), "ToSignature", "does not verify")
			back, err := keyaddr.SignatureFrom(ss)
			m.Check(err == nil && *back == *sig, "SignatureFrom", "%v", err)
		}
	}
	for _, bad := range []string{"a", "====", text + "=", text + "A", "!" + text, "AB-_", "AAA", "A\x00AA", "é"} {
		if _, err := b64.DecodeString(bad); err != nil {
			sig, err := k.Sign(bad)
			m.Check(err != nil && sig == nil, "Sign", "message %q is signed", bad)
		}
	}
	m.Check(k.Key == s, "key changed", "%s", k.Key)
}

func index(r gen.R) int32 {
	if r.IntN(5) == 0 {
		return int32(gen.Pick[int64](r, -1, -2, -1<<31, -1<<31+1, -7))
	}
	return int32(hd.Normal(r))
}

// refused calls all operations with a text which is no key.
func refused(m *mon.M, r gen.R, s string) {
	k := &keyaddr.Key{Key: s}
	m.Event("invalid key")
	a, err := k.NdauAddress()
	m.Check(err != nil && a == nil, "NdauAddress", "%v", a)
	p, err := k.IsPrivate()
	m.Check(err != nil && !p, "IsPrivate", "%v", p)
	c, err := k.ToPublic()
	m.Check(err != nil && c == nil, "ToPublic", "%v", c)
	c, err = k.Child(0)
	m.Check(err != nil && c == nil, "Child", "%v", c)
	c, err = k.HardenedChild(int32(hd.Normal(r)))
	m.Check(err != nil && c == nil, "HardenedChild", "%v", c)
	sig, err := k.Sign("")
	m.Check(err != nil && sig == nil, "Sign", "%v", sig)
	_, err = k.ToExtended()
	m.Check(err != nil, "ToExtended", "no error")
	pk, err := k.ToPublicKey()
	m.Check(err != nil, "ToPublicKey", "%v", pk)
	vk, err := k.ToPrivateKey()
	m.Check(err != nil, "ToPrivateKey", "%v", vk)
}

// parse gives a text to everything which reads one, and compares with the
// reference.
func parse(m *mon.M, r gen.R, kind, s string) {
	m.Do(kind, func() {
		x, v := ref.ReadExtended(s)
		o, ov := fromOld(s)
		if v == ref.Accept && !valid(x) {
			v = ref.Free
		}
		switch v {
		case ref.Accept:
			m.NonTrivial()
			observe(m, r, s, x)
		case ref.Reject:
			refused(m, r, s)
		default:
			// no panic, and nothing else than the operations on what it reads
			k := &keyaddr.Key{Key: s}
			k.NdauAddress()
			k.IsPrivate()
			k.ToPublic()
			k.Child(1)
			k.HardenedChild(1)
			k.Sign("")
			k.ToPublicKey()
			k.ToPrivateKey()
		}
		k, err := keyaddr.FromOldString(s)
		if ov != ref.Free {
			var werr error
			if ov == ref.Reject {
				werr = ref.ErrPath
			} else {
				m.NonTrivial()
			}
			keyIs(m, "FromOldString", k, err, o, werr)
		}
		k, err = keyaddr.FromString(s)
		d, derr := keyaddr.DeriveFrom(s, "/", "/0/1'")
		switch {
		case v == ref.Accept:
			keyIs(m, "FromString", k, err, x, nil)
		case v == ref.Reject && ov == ref.Accept:
			x = o
			keyIs(m, "FromString", k, err, o, nil)
		case v == ref.Reject && ov == ref.Reject:
			x = nil
			m.Check(err != nil && k == nil, "FromString", "%v", k)
			m.Check(derr != nil && d == nil, "DeriveFrom", "%v", d)
			return
		default:
			return
		}
		y, _, werr := ref.Derive(x, "/", "/0/1'")
		keyIs(m, "DeriveFrom", d, derr, y, werr)
	}, s)
}

func number(r gen.R) string {
	n := hd.Index(r)
	if r.IntN(3) > 0 {
		n = uint32(r.IntN(50))
	}
	return fmt.Sprint(n) + gen.Pick(r, "", "", "'")
}

func path(r gen.R, n int) string {
	if n == 0 {
		return "/"
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("/" + number(r))
	}
	return b.String()
}

// history is a chain of operations on string keys.
func history(m *mon.M, r gen.R, s string, x *ref.XKey, n int, trace *[]string) {
	m.NonTrivial()
	k, err := keyaddr.FromString(s)
	*trace = append(*trace, "FromString "+s)
	if !keyIs(m, "FromString", k, err, x, nil) {
		return
	}
	addr := map[string]string{}
	for i := 0; i < n; i++ {
		if r.IntN(3) == 0 {
			k = &keyaddr.Key{Key: k.Key[:4] + r.Case(k.Key[4:])}
		}
		var nk *keyaddr.Key
		var y *ref.XKey
		var err, werr error
		op := r.IntN(9)
		var what string
		switch op {
		case 0, 1, 2:
			n := index(r)
			what = fmt.Sprint("Child ", n)
			*trace = append(*trace, what)
			nk, err = k.Child(n)
			if n < 0 {
				werr = ref.ErrPath
			} else {
				y, werr = x.Child(uint32(n))
			}
		case 3:
			n := index(r)
			what = fmt.Sprint("HardenedChild ", n)
			*trace = append(*trace, what)
			nk, err = k.HardenedChild(n)
			if n < 0 {
				werr = ref.ErrPath
			} else {
				y, werr = x.Child(uint32(n) + 1<<31)
			}
		case 4:
			what = "ToPublic"
			if r.IntN(3) > 0 {
				continue
			}
			*trace = append(*trace, what)
			nk, err = k.ToPublic()
			y = x.Public()
		case 5:
			p := path(r, r.IntN(3))
			c := strings.TrimSuffix(p, "/") + path(r, 1+r.IntN(3))
			if r.IntN(4) == 0 {
				c = r.Mutate(c, "0123456789/' ")
			}
			what = "DeriveFrom " + p + " " + c
			*trace = append(*trace, what)
			nk, err = keyaddr.DeriveFrom(k.Key, p, c)
			var free bool
			y, free, werr = ref.Derive(x, p, c)
			if r.IntN(2) == 0 {
				// the same key and child, known under another path
				for _, q := range []string{"/", strings.TrimSuffix(p, "/") + "/1", c, p} {
					y2, free2, werr2 := ref.Derive(x, q, c)
					k2, err2 := keyaddr.DeriveFrom(k.Key, q, c)
					if !(free2 && werr2 == nil && err2 != nil) {
						keyIs(m, "DeriveFrom", k2, err2, y2, werr2)
					}
				}
			}
			if free && werr == nil && err != nil {
				continue
			}
		case 6:
			what = "old format"
			*trace = append(*trace, what)
			ver := []byte{99, 103, 31}
			nk, err = keyaddr.FromString(oldText(x, ver))
			y = x
		case 7:
			observe(m, r, k.Key, x)
			continue
		case 8:
			what = "FromString"
			nk, err = keyaddr.FromString(k.Key)
			y = x
		}
		if !keyIs(m, what, nk, err, y, werr) {
			return
		}
		if werr == nil {
			k, x = nk, y
		}
		// the address is that of the public key, however it was reached
		a, err := k.NdauAddress()
		if m.Check(err == nil, "NdauAddress", "%v", err) {
			id := string(x.Pub())
			if old, ok := addr[id]; ok {
				m.Check(old == a.Address, "NdauAddress", "%s and %s", old, a.Address)
			}
			addr[id] = a.Address
		}
	}
}

func wordCalls(m *mon.M, r gen.R) {
	b := r.Bytes(r.Len(70))
	enc := b64.EncodeToString(b)
	m.Do("words", func() {
		m.NonTrivial()
		want := strings.Join(ref.PhraseWords(b), " ")
		w, err := keyaddr.WordsFromBytes("en", enc)
		m.Check(err == nil && w == want, "WordsFromBytes", "got %q, %v, want %q", w, err, want)
		back, err := keyaddr.WordsToBytes("en", want)
		short, _ := ref.FromWords(strings.Split(want, " "))
		m.Check(err == nil && (back == enc || back == b64.EncodeToString(short)), "WordsToBytes", "%q, %v", back, err)
		for _, lang := range []string{"", "EN", "fr", "en ", "eng"} {
			w, err := keyaddr.WordsFromBytes(lang, enc)
			m.Check(err != nil && w == "", "language", "%q", w)
			w, err = keyaddr.WordsToBytes(lang, want)
			m.Check(err != nil && w == "", "language", "%q", w)
			m.Check(keyaddr.WordsFromPrefix(lang, "a", 0) == "", "language", "")
		}
	}, b)
	t := r.Mutate(enc, "ABCabc012+/=-_ \n\r\t\x00")
	if r.IntN(3) == 0 {
		t = otherB64(r, enc)
	}
	m.Do("base64", func() {
		d, derr := b64.DecodeString(t)
		w, err := keyaddr.WordsFromBytes("en", t)
		if derr != nil {
			m.Event("error")
			m.Check(err != nil && w == "", "base64", "%q", w)
			k, err := keyaddr.NewKey(t)
			m.Check(err != nil && k == nil, "base64", "%v", k)
		} else {
			m.Check(err == nil && w == strings.Join(ref.PhraseWords(d), " "), "base64", "%q, %v", w, err)
		}
	}, t)
	w := ref.PhraseWords(b)
	i := r.IntN(len(w))
	switch r.IntN(5) {
	case 0:
		w[i] = ref.English[r.IntN(2048)]
	case 1:
		w[i] = gen.Pick(r, "", " ", strings.ToUpper(w[i]), w[i]+"s", w[i][1:], "\t"+w[i])
	case 2:
		w = w[:i]
	case 3:
		w = append(w, "abandon")
	case 4:
		w[0], w[i] = w[i], w[0]
	}
	p := strings.Join(w, " ")
	if r.IntN(6) == 0 {
		p = gen.Pick(r, p+" ", " "+p, strings.ReplaceAll(p, " ", "  "), strings.ReplaceAll(p, " ", "\t"), strings.ReplaceAll(p, " ", ","), strings.ToUpper(p), p+"\n", "")
	}
	m.Do("phrase", func() {
		short, ok := ref.FromWords(strings.Split(p, " "))
		got, err := keyaddr.WordsToBytes("en", p)
		if !ok {
			m.Event("error")
			m.Check(err != nil && got == "", "WordsToBytes", "%q", got)
			return
		}
		m.NonTrivial()
		d, derr := b64.DecodeString(got)
		m.Check(err == nil && derr == nil && (bytes.Equal(d, short) || strings.Join(ref.PhraseWords(d), " ") == p), "WordsToBytes", "%q, %v", got, err)
	}, p)
	pre, max := gen.Pick(r, "", "a", "riv", w0(w), r.Text("abcdefghij", 3)), r.IntN(12)-3
	m.Do("prefix", func() {
		got := keyaddr.WordsFromPrefix("en", pre, max)
		m.Check(got == ref.Prefix(pre, max), "WordsFromPrefix", "%q", got)
	}, pre, max)
}

func w0(w []string) string {
	if len(w) == 0 {
		return "zoo"
	}
	return w[0]
}

func newKey(m *mon.M, seed []byte) {
	m.Do("NewKey", func() {
		x, werr := ref.Master(seed)
		k, err := keyaddr.NewKey(otherB64(gen.R{Rand: m.Rand}, b64.EncodeToString(seed)))
		if werr == nil {
			m.NonTrivial()
		}
		keyIs(m, "NewKey", k, err, x, werr)
	}, seed)
}

// conversions of signature keys which are no extended keys
func conversions(m *mon.M, r gen.R) {
	p := sk.New(r)
	m.Do("conversion", func() {
		m.NonTrivial()
		extra := sk.Extra(r)
		pub, err1 := signature.RawPublicKey(p.Al, p.Pub, extra)
		priv, err2 := signature.RawPrivateKey(p.Al, p.Priv, extra)
		if err1 != nil || err2 != nil {
			m.Failf("raw keys", "%v, %v", err1, err2)
			return
		}
		k, err := keyaddr.KeyFromPublic(*pub)
		c, cerr := keyaddr.KeyFromPrivate(*priv)
		if p.ID == sk.SecpID && len(extra) >= 40 {
			if len(extra) == 40 {
				x := &ref.XKey{Private: true, Key: p.Priv, Depth: extra[0], FP: extra[1:4], Num: binary.BigEndian.Uint32(extra[4:]), Chain: extra[8:]}
				keyIs(m, "KeyFromPrivate", c, cerr, x, nil)
				keyIs(m, "KeyFromPublic", k, err, x.Public(), nil)
			}
			return
		}
		m.Event("error")
		m.Check(err != nil && k == nil, "KeyFromPublic", "%v", k)
		m.Check(cerr != nil && c == nil, "KeyFromPrivate", "%v", c)
	}, p.Pub)
	m.Do("not writable", func() {
		// an algorithm which is not registered, keys without contents
		al := p.Al
		if al == nil {
			al = signature.Null
		}
		sig, err := signature.RawSignature(odd{al}, p.Sign([]byte("x")))
		if err == nil {
			s, err := keyaddr.SignatureFrom(*sig)
			m.Check(err != nil && s == nil, "SignatureFrom", "%v, %v", s, err)
		}
		wiped, err := key.NewMaster(r.Bytes(32))
		if err == nil {
			wiped.Zero()
		}
		for _, k := range []*key.ExtendedKey{new(key.ExtendedKey), wiped, key.NewExtendedKey(r.Bytes(r.IntN(32)), r.Bytes(32), r.Bytes(3), 0, 0, r.IntN(2) == 0)} {
			a, err := keyaddr.KeyFromExtended(k)
			m.Check(err != nil && a == nil, "KeyFromExtended", "%v, %v", a, err)
		}
		a, err := keyaddr.KeyFromPublic(signature.PublicKey{})
		m.Check(err != nil && a == nil, "KeyFromPublic", "%v, %v", a, err)
		a, err = keyaddr.KeyFromPrivate(signature.PrivateKey{})
		m.Check(err != nil && a == nil, "KeyFromPrivate", "%v, %v", a, err)
		if pk, err := signature.RawPublicKey(odd{al}, p.Pub, r.Bytes(40)); err == nil {
			a, err := keyaddr.KeyFromPublic(*pk)
			m.Check(err != nil && a == nil, "KeyFromPublic", "%v, %v", a, err)
		}
	}, p.ID)
	t := r.Mutate(ref.SigText(p.ID, p.Sign([]byte("x"))), ref.Alphabet)
	m.Do("signature text", func() {
		d, v := ref.ReadSignatureText(t)
		s, err := keyaddr.Signature{Signature: t}.ToSignature()
		if v == ref.Reject {
			m.Check(err != nil, "ToSignature", "%v", s)
		} else if v == ref.Accept {
			m.Check(err == nil && bytes.Equal(s.Bytes(), d.Key), "ToSignature", "%v, %v", s, err)
		}
	}, t)
}

// odd is an algorithm which was not registered
type odd struct{ signature.Algorithm }

func main() {
	mon.Main("C70", rule, func(m *mon.M) {
		m.Require("key", 2000)
		m.Require("error", 1000)
		m.Require("signature", 100)
		m.Require("invalid key", 1000)
		m.Par("history", 64, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < m.N(40, 250); j++ {
				x := hd.XKey(r)
				if r.IntN(2) == 0 {
					x, _ = ref.Master(r.Bytes(32))
				}
				if r.IntN(4) == 0 {
					x = x.Public()
				}
				var trace []string
				m.Do("history", func() { history(m, r, x.Text(), x, 4+r.IntN(12), &trace) }, func() string { return strings.Join(trace, "; ") })
			}
			for j := 0; j < m.N(20, 120); j++ {
				x := hd.XKey(r)
				if r.IntN(3) == 0 {
					x = x.Public()
				}
				s := x.Text()
				old := oldText(x, gen.Pick(r, []byte{99, 103, 31}, []byte{139, 100, 16}, r.Bytes(3)))
				parse(m, r, "text", s)
				parse(m, r, "text", s[:4]+r.Case(s[4:]))
				parse(m, r, "old text", old)
				parse(m, r, "old text", r.Case(old))
				parse(m, r, "mutated", r.Mutate(s, ref.Alphabet))
				parse(m, r, "mutated", r.Mutate(old, ref.Alphabet))
				parse(m, r, "mutated", s[:4]+r.Mutate(s[4:], ref.Alphabet+"=\n A"))
				for _, t := range []string{"", "npub", "npvt", s[4:], "npub" + s[4:], "npvt" + s[4:], strings.ToUpper(s), s[:len(s)-1], s + "a", s + s, " " + s, s + " ", s[:r.IntN(len(s))], old[:r.IntN(len(old))], old + "aaaaaaaa", "npvt" + old, r.Text(ref.Alphabet, 200), "undefined", "null", "\x00", "ÿ"} {
					parse(m, r, "invalid", t)
				}
				p := sk.Ed(r)
				parse(m, r, "other key", "npub"+ref.KeyText(1, p.Pub, nil))
				parse(m, r, "other key", "npvt"+ref.KeyText(1, p.Priv, x.Extra()))
				q := sk.Secp(r)
				parse(m, r, "other key", "npub"+ref.KeyText(2, q.Pub, nil))
				parse(m, r, "other key", "npvt"+ref.KeyText(2, q.Priv, r.Bytes(gen.Pick(r, 0, 1, 39, 41, 80))))
				parse(m, r, "other key", "npub"+ref.KeyText(0, nil, x.Extra()))
				// contents which are no key
				bad := *x
				bad.Key = gen.Pick(r, make([]byte, len(x.Key)), bytes.Repeat([]byte{0xff}, len(x.Key)))
				parse(m, r, "other key", bad.Text())
				newKey(m, r.Bytes(r.IntN(90)))
			}
			for j := 0; j < m.N(300, 2000); j++ {
				wordCalls(m, r)
			}
			for j := 0; j < m.N(30, 200); j++ {
				conversions(m, r)
			}
		})
		m.Par("seeds", 130, func(m *mon.M, n int) {
			r := gen.R{Rand: m.Rand}
			newKey(m, r.Bytes(n))
			newKey(m, make([]byte, n))
		})
		w := hd.Witnesses()
		m.Par("witnesses", len(w), func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for _, c := range w[hd.Kinds(w)[i]] {
				x, err := ref.Master(hd.Seed(c.Seed))
				if err != nil {
					panic(err)
				}
				newKey(m, hd.Seed(c.Seed))
				y, err := x.Child(c.Index)
				if err != nil {
					continue
				}
				m.Do("witness", func() {
					m.NonTrivial()
					k := &keyaddr.Key{Key: x.Text()}
					var got *keyaddr.Key
					var err error
					if c.Index >= 1<<31 {
						got, err = k.HardenedChild(int32(c.Index - 1<<31))
					} else {
						got, err = k.Child(int32(c.Index))
					}
					if keyIs(m, "child", got, err, y, nil) {
						observe(m, r, got.Key, y)
						observe(m, r, y.Public().Text(), y.Public())
					}
				}, c.Seed, c.Index)
			}
		})
	})
}
