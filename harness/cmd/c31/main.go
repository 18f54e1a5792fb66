// C31: the wire format, and corrupted texts.
package main

import (
	"bytes"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sk"
)

const rule = "texts and binaries of keys, signatures and extended keys written by an independent encoder, with every character in turn changed, removed, doubled, swapped with the next, case and line breaks changed; " +
	"and with wrong sizes, ids, key lengths, layouts, widths and checksums under a right checksum; judged by an independent decoder; non-trivial when the text differs from a valid one in a way the test knows; distinct by text"

const (
	public = iota
	private
	sig
	ext
)

var kinds = []string{"public key", "private key", "signature", "extended key"}

func judge(kind int, s string) (ref.Decoded, ref.Verdict) {
	switch kind {
	case sig:
		return ref.ReadSignatureText(s)
	case ext:
		x, v := ref.ReadExtended(s)
		if x == nil {
			return ref.Decoded{}, v
		}
		return ref.Decoded{ID: 2, Key: x.Key, Extra: x.Extra()}, v
	}
	return ref.ReadKeyText(s, kind == private)
}

// try decodes a text in every way and compares with the reference.
func try(m *mon.M, how string, kind int, s string) {
	if kind == public && strings.HasPrefix(s, "npvt") || kind == private && strings.HasPrefix(s, "npub") {
		kind = public + private - kind
	}
	d, v := judge(kind, s)
	m.Do(how, func() {
		m.NonTrivial()
		switch v {
		case ref.Accept:
			m.Event("accepted")
		case ref.Reject:
			m.Event("rejected")
		}
		norm := strings.ToLower(strings.NewReplacer("\r", "", "\n", "").Replace(s))
		verdict := func(what string, err error) bool {
			if v == ref.Accept {
				return m.Check(err == nil, what, "%s refused: %v", kinds[kind], err)
			}
			if v == ref.Reject {
				m.Check(err != nil, what, "%s accepted", kinds[kind])
				return false
			}
			return err == nil && d.Key != nil // a lenient reading has the same contents
		}
		switch kind {
		case public, private:
			var k signature.Key = new(signature.PublicKey)
			if kind == private {
				k = new(signature.PrivateKey)
			}
			if verdict("UnmarshalText", k.UnmarshalText(m.Arg([]byte(s)))) {
				t, err := k.MarshalText()
				m.Check(v == ref.Free || err == nil && string(t) == norm, "re-encoded", "%s, %v", t, err)
				m.Check(sk.ID(k.Algorithm()) == int(d.ID) && bytes.Equal(k.KeyBytes(), d.Key) && bytes.Equal(k.ExtraBytes(), d.Extra), "contents", "%T %x %x", k.Algorithm(), k.KeyBytes(), k.ExtraBytes())
			}
			k, err := signature.ParseKey(s)
			if verdict("ParseKey", err) && v == ref.Accept {
				t, _ := k.MarshalText()
				m.Check(string(t) == norm && signature.IsPrivate(k) == (kind == private), "re-encoded", "%s", t)
			}
			if kind == private {
				k, err := signature.ParsePrivateKey(s)
				if verdict("ParsePrivateKey", err) && v == ref.Accept {
					m.Check(k.FullString() == norm, "re-encoded", "%s", k.FullString())
				}
				_, err = signature.ParsePublicKey(s)
				m.Check(err != nil, "ParsePublicKey", "accepts a private key")
			} else {
				k, err := signature.ParsePublicKey(s)
				if verdict("ParsePublicKey", err) && v == ref.Accept {
					m.Check(k.FullString() == norm, "re-encoded", "%s", k.FullString())
				}
				_, err = signature.ParsePrivateKey(s)
				m.Check(err != nil, "ParsePrivateKey", "accepts a public key")
			}
		case sig:
			g := new(signature.Signature)
			if verdict("UnmarshalText", g.UnmarshalText(m.Arg([]byte(s)))) {
				t, err := g.MarshalText()
				m.Check(v == ref.Free || err == nil && string(t) == norm, "re-encoded", "%s, %v", t, err)
				m.Check(sk.ID(g.Algorithm()) == int(d.ID) && bytes.Equal(g.Bytes(), d.Key), "contents", "%T %x", g.Algorithm(), g.Bytes())
			}
			g, err := signature.ParseSignature(s)
			if verdict("ParseSignature", err) && v == ref.Accept {
				t, _ := g.MarshalString()
				m.Check(t == norm, "re-encoded", "%s", t)
			}
		case ext:
			k := new(key.ExtendedKey)
			if verdict("UnmarshalText", k.UnmarshalText(m.Arg([]byte(s)))) {
				t, err := k.MarshalText()
				m.Check(v == ref.Free || err == nil && string(t) == norm, "re-encoded", "%s, %v", t, err)
				m.Check(bytes.Equal(k.Bytes(), d.Key) && k.Depth() == d.Extra[0], "contents", "%x %d", k.Bytes(), k.Depth())
			}
		}
	}, kinds[kind], s)
}

// binary decodes a binary in every way.
func binary(m *mon.M, how string, kind int, b []byte) {
	var d ref.Decoded
	var rest []byte
	var v ref.Verdict
	if kind == sig {
		d, rest, v = ref.ReadSignature(b)
	} else {
		d, rest, v = ref.ReadKey(b, kind == private)
	}
	m.Do(how, func() {
		m.NonTrivial()
		in := append([]byte{}, b...)
		var k signature.Key
		var unmarshal func([]byte) error
		switch kind {
		case public:
			p := new(signature.PublicKey)
			k, unmarshal = p, p.Unmarshal
		case private:
			p := new(signature.PrivateKey)
			k, unmarshal = p, p.Unmarshal
		default:
			g, h := new(signature.Signature), new(signature.Signature)
			err := g.Unmarshal(m.Arg(in))
			m.Check(v == ref.Free || (err == nil) == (v == ref.Accept && len(rest) == 0), "Unmarshal", "signature: %v", err)
			if err == nil && v != ref.Reject {
				m.Check(sk.ID(g.Algorithm()) == int(d.ID) && bytes.Equal(g.Bytes(), d.Key), "contents", "%T %x", g.Algorithm(), g.Bytes())
			}
			left, err := h.UnmarshalMsg(m.Arg(in))
			m.Check(v != ref.Accept || err == nil && bytes.Equal(left, rest) && sk.ID(h.Algorithm()) == int(d.ID) && bytes.Equal(h.Bytes(), d.Key), "UnmarshalMsg", "%x, %v", left, err)
			m.Check(bytes.Equal(in, b), "input changed", "%x", in)
			return
		}
		same := func(what string) {
			m.Check(sk.ID(k.Algorithm()) == int(d.ID) && bytes.Equal(k.KeyBytes(), d.Key) && bytes.Equal(k.ExtraBytes(), d.Extra), what, "%T %x %x", k.Algorithm(), k.KeyBytes(), k.ExtraBytes())
		}
		err := unmarshal(in)
		m.Check(v == ref.Free || (err == nil) == (v == ref.Accept && len(rest) == 0), "Unmarshal", "%s: %v", kinds[kind], err)
		if err == nil && v != ref.Reject {
			same("Unmarshal")
		}
		left, err := k.UnmarshalMsg(m.Arg(in))
		m.Check(v == ref.Free || (err == nil) == (v == ref.Accept), "UnmarshalMsg", "%s: %v", kinds[kind], err)
		if err == nil && v != ref.Reject {
			m.Check(bytes.Equal(left, rest), "UnmarshalMsg", "%x left", left)
			same("UnmarshalMsg")
		}
		m.Check(bytes.Equal(in, b), "input changed", "%x", in)
	}, kinds[kind], b)
}

func prefix(kind int, x bool) string {
	switch {
	case kind == sig:
		return ""
	case kind == private || kind == ext && x:
		return "npvt"
	}
	return "npub"
}

func main() {
	mon.Main("C31", rule, func(m *mon.M) {
		m.Require("accepted", 2000)
		m.Require("rejected", 100000)
		m.Par("random", 16, func(m *mon.M, shard int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(100, 1500); j > 0; j-- {
				kind := j % 4
				p := sk.New(r)
				var id byte
				var k, extra []byte
				xp := false
				switch kind {
				case public:
					id, k, extra = p.ID, p.Pub, sk.Extra(r)
				case private:
					id, k, extra = p.ID, p.Priv, sk.Extra(r)
				case sig:
					id, k = p.ID, p.Sign(r.Bytes(r.IntN(50)))
				case ext:
					x := hd.XKey(r)
					if xp = r.IntN(2) == 0; !xp {
						x = x.Public()
					}
					id, k, extra = 2, x.Key, x.Extra()
				}
				if r.IntN(10) == 0 && kind != ext {
					id, k = 0, nil
				}
				if len(extra) > 400 {
					extra = extra[:400]
				}
				pre := prefix(kind, xp)
				seal := func(b []byte) string { return pre + ref.B32(ref.Checksummed(b)) }
				bin := func(id byte, k, extra []byte) []byte {
					if kind == sig {
						return ref.Container(id, k)
					}
					return ref.KeyBinary(id, k, extra)
				}
				b := bin(id, k, extra)
				s := seal(b)
				if _, v := judge(kind, s); v != ref.Accept {
					panic("the reference rejects its own text " + s)
				}
				try(m, "valid", kind, s)
				try(m, "case", kind, pre+r.Case(s[len(pre):]))
				try(m, "case", kind, strings.ToUpper(s))
				try(m, "case", kind, r.Case(s))
				at := len(pre) + r.IntN(len(s)-len(pre))
				try(m, "line break", kind, s[:at]+gen.Pick(r, "\n", "\r\n", "\r", "\n\n")+s[at:])
				try(m, "line break", kind, s+"\n")
				for _, junk := range []string{" ", "\t", "\x00", "-", "l", "0", "1", "o", "é", "K", "=", "_", "ſ", "\xff"} {
					at = r.IntN(len(s) + 1)
					try(m, "junk", kind, s[:at]+junk+s[at:])
					if at < len(s) {
						try(m, "junk", kind, s[:at]+junk+s[at+1:])
					}
				}
				for n := 1; n <= 9; n++ {
					try(m, "padding", kind, s+strings.Repeat("=", n))
				}
				// every position
				for i := range s {
					c := ref.Alphabet[r.IntN(32)]
					try(m, "substitution", kind, s[:i]+string(rune(c))+s[i+1:])
					try(m, "deletion", kind, s[:i]+s[i+1:])
					try(m, "insertion", kind, s[:i]+string(rune(ref.Alphabet[r.IntN(32)]))+s[i:])
					try(m, "truncation", kind, s[:i])
					if i+1 < len(s) {
						try(m, "transposition", kind, s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:])
					}
				}
				for i := 0; i < len(s); i += 1 + r.IntN(8) {
					e := i + 1 + r.IntN(8)
					if e > len(s) {
						e = len(s)
					}
					x := []byte(s)
					for k := i; k < e; k++ {
						x[k] = ref.Alphabet[r.IntN(32)]
					}
					try(m, "burst", kind, string(x))
				}
				try(m, "doubled", kind, s+s)
				try(m, "doubled", kind, s+s[len(pre):])
				for n := 8; n < len(s)-8; n += 8 {
					try(m, "block", kind, s[:len(pre)+n]+strings.Repeat(ref.Alphabet[:1], 8)+s[len(pre)+n:])
				}
				for _, q := range []string{"", "npub", "npvt", "np", "npubnpub", "npvtnpub", "ndau", "tpub", "NPUB", "nPvt", " npub"} {
					try(m, "prefix", kind, q+s[len(pre):])
					try(m, "prefix", kind, q)
				}
				// wrong contents under a right checksum
				wrong := func(b []byte) {
					try(m, "contents", kind, seal(b))
					if kind != ext {
						binary(m, "contents", kind, b)
					}
				}
				for id := 0; id < 256; id++ {
					if id < 5 || id > 126 && id < 131 || r.IntN(20) == 0 {
						wrong(bin(byte(id), k, extra))
					}
				}
				for _, n := range []int{0, 1, 31, 32, 33, 34, 63, 64, 65, 70, 128, 255} {
					wrong(bin(id, r.Bytes(n), extra))
					wrong(bin(1, r.Bytes(n), nil))
					wrong(bin(2, r.Bytes(n), hd.XKey(r).Extra()))
				}
				for _, n := range []int{0, 1, 31, 39, 40, 41, 80} {
					wrong(bin(id, k, r.Bytes(n)))
				}
				wrong(nil)
				wrong(ref.Container(id, nil))
				wrong(ref.Container(id, []byte{}))
				for n := range b {
					wrong(b[:n])
					c := append([]byte{}, b...)
					c[n] ^= 1 << r.IntN(8)
					wrong(c)
					if n < 12 {
						c[n] = byte(r.Rand.Uint64())
						wrong(c)
						c[n] = b[n] + 1
						wrong(c)
						c[n] = b[n] - 1
						wrong(c)
					}
				}
				wrong(append(append([]byte{}, b...), r.Bytes(1+r.IntN(9))...))
				wrong(append(append([]byte{}, b...), b...))
				// other layouts
				data := b[3:]
				if id > 127 || b[2] != 0xc4 && b[2] != 0xc5 {
					panic("layout")
				}
				data = data[1:]
				if b[2] == 0xc5 {
					data = data[1:]
				}
				n := len(data)
				for _, head := range [][]byte{
					{0x92, id, 0xc5, byte(n >> 8), byte(n)},
					{0x92, id, 0xc6, 0, 0, byte(n >> 8), byte(n)},
					{0x92, id, 0xd9, byte(n)},
					{0x92, id, 0xda, byte(n >> 8), byte(n)},
					{0x92, 0xcc, id, 0xc5, byte(n >> 8), byte(n)},
					{0x92, 0xcd, 0, id, 0xc5, byte(n >> 8), byte(n)},
					{0x92, 0xcd, 1, id, 0xc5, byte(n >> 8), byte(n)},
					{0x92, 0xd1, 0, id, 0xc5, byte(n >> 8), byte(n)},
					{0x92, 0xd1, 0xff, id, 0xc5, byte(n >> 8), byte(n)},
					{0x92, 0xe0 | id, 0xc5, byte(n >> 8), byte(n)},
					{0xdc, 0, 2, id, 0xc5, byte(n >> 8), byte(n)},
					{0xdd, 0, 0, 0, 2, id, 0xc5, byte(n >> 8), byte(n)},
					{0x93, id, 0xc5, byte(n >> 8), byte(n)},
					{0x91, id, 0xc5, byte(n >> 8), byte(n)},
					{0x82, id, 0xc5, byte(n >> 8), byte(n)},
					{0x92, id, 0xc0}, {0x92, 0xc0, 0xc4, byte(n)},
					{0x92, id, 0xc6, 0xff, 0xff, 0xff, 0xff}, {0x92, id, 0xc6, 0x7f, 0xff, 0xff, 0xff},
				} {
					wrong(append(append([]byte{}, head...), data...))
					wrong(head)
				}
				// wrong checksums of every width
				body := ref.Checksummed(b)
				w := int(body[0])
				for x := 0; x < 256; x++ {
					c := append([]byte{}, body...)
					c[0] = byte(x)
					try(m, "width", kind, pre+ref.B32(c))
				}
				for i := 1; i <= w; i++ {
					c := append([]byte{}, body...)
					c[len(c)-i] ^= 1 << r.IntN(8)
					try(m, "checksum", kind, pre+ref.B32(c))
				}
				c := append([]byte{}, body[:len(body)-w]...)
				try(m, "checksum", kind, pre+ref.B32(append(c, make([]byte, w)...)))
				for x := 0; x < 28 && x <= len(b); x++ {
					// right hash, other width
					c := append([]byte{byte(x)}, b...)
					full := ref.Sum224(b)
					try(m, "width", kind, pre+ref.B32(append(c, full[28-x:]...)))
				}
			}
		})
	})
}
