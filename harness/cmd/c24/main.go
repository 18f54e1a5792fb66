// C24: keys made from one another are independent.
package main

import (
	"bytes"
	"fmt"
	"strings"
	"unsafe"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "random histories of twenty to sixty operations (derive, publish, convert, encode, decode into fresh and used receivers, failed decodings, wipe, use) on a population of related keys, each followed by a comparison of every key with its model; " +
	"non-trivial when a history made at least one key from another and wiped or reused one of them; distinct by history"

// obj is a key with what it should be. A wiped one has no contents.
type obj struct {
	ek    *key.ExtendedKey
	x     *ref.XKey // nil: wiped
	sk    signature.Key
	extra bool // sk has its extra bytes
	made  string
}

func (o *obj) skText() string {
	if o.x == nil {
		id := byte(0)
		if o.sk != nil && signature.IsPrivate(o.sk) {
			return "npvt" + ref.KeyText(id, nil, nil)
		}
		return "npub" + ref.KeyText(id, nil, nil)
	}
	var e []byte
	if o.extra {
		e = o.x.Extra()
	}
	if o.x.Private {
		return "npvt" + ref.KeyText(2, o.x.Key, e)
	}
	return "npub" + ref.KeyText(2, o.x.Key, e)
}

func (o *obj) check(m *mon.M, after string) bool {
	what := fmt.Sprintf("after %s: %s", after, o.made)
	if o.ek != nil {
		if o.x != nil {
			return hd.Same(m, what, o.ek, o.x)
		}
		return wiped(m, what, o.ek)
	}
	t, err := o.sk.MarshalText()
	return m.Check(err == nil && string(t) == o.skText(), what, "signature key is %s, want %s", t, o.skText())
}

func wiped(m *mon.M, what string, k *key.ExtendedKey) bool {
	ok := m.Check(!k.IsPrivate(), what, "a wiped key is private")
	ok = m.Check(len(bytes.Trim(k.Bytes(), "\x00")) == 0, what, "a wiped key has bytes %x", k.Bytes()) && ok
	ok = m.Check(len(bytes.Trim(k.PubKeyBytes(), "\x00")) == 0, what, "a wiped key has public bytes %x", k.PubKeyBytes()) && ok
	if t, err := k.MarshalText(); err == nil {
		ok = false
		m.Failf(what, "a wiped key has the text %s", t)
	}
	if s, err := k.SPrivKey(); err == nil {
		ok = false
		m.Failf(what, "a wiped key has a private key %s", s)
	}
	return m.Check(k.Depth() == 0, what, "depth %d", k.Depth()) && ok
}

type world struct {
	m    *mon.M
	r    gen.R
	objs []*obj
	log  []string
}

func (w *world) pick(f func(o *obj) bool) *obj {
	var l []*obj
	for _, o := range w.objs {
		if f(o) {
			l = append(l, o)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[w.r.IntN(len(l))]
}

func (w *world) add(o *obj) { w.objs = append(w.objs, o) }

func live(o *obj) bool  { return o.ek != nil && o.x != nil }
func liveS(o *obj) bool { return o.sk != nil && o.x != nil }
func anyE(o *obj) bool  { return o.ek != nil }

func text(k interface{ MarshalText() ([]byte, error) }) string {
	b, err := k.MarshalText()
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// alias reports the memory behind the slice when the accessor does not copy.
func alias(f func() []byte) []byte {
	a, b := f(), f()
	if len(a) > 0 && unsafe.SliceData(a) == unsafe.SliceData(b) {
		return a
	}
	return nil
}

func (w *world) step() string {
	m, r := w.m, w.r
	op := r.IntN(20)
	if len(w.objs) < 2 {
		op = 0
	}
	switch op {
	case 0:
		seed := r.Bytes(16 + r.IntN(49))
		k, err := key.NewMaster(seed)
		x, rerr := ref.Master(seed)
		if rerr != nil {
			return "nothing"
		}
		m.Check(err == nil, "NewMaster", "%v", err)
		for i := range seed {
			seed[i] = 0xee
		}
		w.add(&obj{ek: k, x: x, made: "master"})
		return "master"
	case 1, 2, 3:
		o := w.pick(live)
		if o == nil {
			return "nothing"
		}
		i := hd.Index(r)
		if !o.x.Private {
			i &^= 1 << 31
		}
		x, err := o.x.Child(i)
		if err != nil {
			return "nothing"
		}
		c, err := o.ek.Child(i)
		if m.Check(err == nil, "Child", "%v", err) {
			w.add(&obj{ek: c, x: x, made: fmt.Sprintf("child %d of (%s)", i, o.made)})
		}
		return "child of (" + o.made + ")"
	case 4, 5:
		o := w.pick(live)
		if o == nil {
			return "nothing"
		}
		p, err := o.ek.Public()
		if !m.Check(err == nil, "Public", "%v", err) {
			return "nothing"
		}
		if o.x.Private {
			w.add(&obj{ek: p, x: o.x.Public(), made: "public of (" + o.made + ")"})
		} else if p != o.ek {
			w.add(&obj{ek: p, x: o.x, made: "public of (" + o.made + ")"})
		}
		return "public of (" + o.made + ")"
	case 6, 7:
		o := w.pick(live)
		if o == nil {
			return "nothing"
		}
		var s signature.Key
		var err error
		x := o.x
		switch r.IntN(3) {
		case 0:
			s, err = o.ek.AsSignatureKey()
		case 1:
			var p *signature.PublicKey
			p, err = o.ek.SPubKey()
			s, x = p, o.x.Public()
		default:
			if o.x.Private {
				var p *signature.PrivateKey
				p, err = o.ek.SPrivKey()
				s = p
			} else {
				s, err = o.ek.AsSignatureKey()
			}
		}
		if m.Check(err == nil, "signature key", "%v", err) {
			w.add(&obj{sk: s, x: x, extra: true, made: "signature key of (" + o.made + ")"})
		}
		return "signature key of (" + o.made + ")"
	case 8:
		o := w.pick(liveS)
		if o == nil || !o.extra {
			return "nothing"
		}
		k, err := key.FromSignatureKey(o.sk)
		if m.Check(err == nil, "FromSignatureKey", "%v", err) {
			w.add(&obj{ek: k, x: o.x, made: "extended of (" + o.made + ")"})
		}
		return "extended of (" + o.made + ")"
	case 9, 10:
		// into a used receiver
		o, t := w.pick(liveS), w.pick(anyE)
		if o == nil || t == nil || !o.extra {
			return "nothing"
		}
		what := fmt.Sprintf("reuse of (%s) for (%s)", t.made, o.made)
		err := t.ek.FromSignatureKey(o.sk)
		if m.Check(err == nil, "FromSignatureKey", "%s: %v", what, err) {
			t.x, t.made = o.x, what
		}
		m.Event("reused")
		return what
	case 11, 12:
		o, t := w.pick(func(o *obj) bool { return live(o) || liveS(o) && o.extra }), w.pick(anyE)
		if o == nil || t == nil {
			return "nothing"
		}
		what := fmt.Sprintf("decoding of (%s) into (%s)", o.made, t.made)
		b := []byte(o.x.Text())
		err := t.ek.UnmarshalText(b)
		for i := range b {
			b[i] = 'z'
		}
		if m.Check(err == nil, "UnmarshalText", "%s: %v", what, err) {
			t.x, t.made = o.x, what
		}
		m.Event("reused")
		return what
	case 13:
		// decoding of a signature key into a used one
		o, t := w.pick(func(o *obj) bool { return liveS(o) || live(o) }), w.pick(func(o *obj) bool { return o.sk != nil })
		if o == nil || t == nil || o.x.Private != signature.IsPrivate(t.sk) {
			return "nothing"
		}
		what := fmt.Sprintf("decoding of (%s) into (%s)", o.made, t.made)
		ex := o.x.Extra()
		if r.IntN(2) == 0 {
			ex = nil
		}
		var err error
		switch r.IntN(3) {
		case 0:
			p := "npub"
			if o.x.Private {
				p = "npvt"
			}
			err = t.sk.UnmarshalText([]byte(p + ref.KeyText(2, o.x.Key, ex)))
		default:
			b := ref.KeyBinary(2, o.x.Key, ex)
			_, err = t.sk.UnmarshalMsg(b)
			for i := range b {
				b[i] = 0xee
			}
		}
		if m.Check(err == nil, "decoding", "%s: %v", what, err) {
			t.x, t.extra, t.made = o.x, ex != nil, what
		}
		m.Event("reused")
		return what
	case 14, 15:
		o := w.pick(anyE)
		if o == nil {
			return "nothing"
		}
		what := "wiping of (" + o.made + ")"
		a, b := alias(o.ek.Bytes), alias(o.ek.PubKeyBytes)
		o.ek.Zero()
		m.Check(len(bytes.Trim(a, "\x00")) == 0 && len(bytes.Trim(b, "\x00")) == 0, what, "the memory still holds %x %x", a, b)
		if o.x != nil && o.x.Private {
			if s := fmt.Sprintf("%x", *o.ek); strings.Contains(s, fmt.Sprintf("%x", o.x.Key)) {
				m.Failf(what, "the key still holds its bytes")
			}
		}
		o.x = nil
		m.Event("wiped")
		return what
	case 16:
		o := w.pick(func(o *obj) bool { return o.sk != nil })
		if o == nil {
			return "nothing"
		}
		switch r.IntN(5) {
		case 0, 1:
			// its bytes are overwritten, and it is given up
			what := "overwriting of (" + o.made + ")"
			for _, b := range [][]byte{o.sk.KeyBytes(), o.sk.ExtraBytes()} {
				b = b[:cap(b)]
				for i := range b {
					b[i] = 0xbb
				}
			}
			for i := range w.objs {
				if w.objs[i] == o {
					w.objs = append(w.objs[:i], w.objs[i+1:]...)
					break
				}
			}
			m.Event("overwritten")
			return what
		case 2:
			o.sk.Truncate()
			o.extra = false
			return "truncating of (" + o.made + ")"
		}
		o.sk.Zeroize()
		o.x = nil
		m.Event("wiped")
		return "zeroizing of (" + o.made + ")"
	case 17:
		// use: sign and verify, address bytes, elliptic curve keys
		o := w.pick(live)
		if o == nil {
			return "nothing"
		}
		msg := r.Bytes(r.Len(40))
		p, err := o.ek.SPubKey()
		m.Check(err == nil, "SPubKey", "%v", err)
		if o.x.Private {
			s, err := o.ek.SPrivKey()
			if m.Check(err == nil, "SPrivKey", "%v", err) && p != nil {
				sig := s.Sign(msg)
				m.Check(p.Verify(msg, sig), "use", "the signature of (%s) does not verify", o.made)
				m.Check(bytes.Equal(sig.Bytes(), s2(s, msg)), "use", "signing twice differs")
			}
			e, err := o.ek.ECPrivKey()
			if m.Check(err == nil, "ECPrivKey", "%v", err) {
				m.Check(bytes.Equal(e.Serialize(), o.x.Key), "ECPrivKey", "%x", e.Serialize())
				// and change it
				e.D.SetInt64(5)
			}
		}
		e, err := o.ek.ECPubKey()
		if m.Check(err == nil, "ECPubKey", "%v", err) {
			e.X.SetInt64(7)
			e.Y.SetInt64(9)
		}
		return "use of (" + o.made + ")"
	case 18:
		// a failed decoding wipes or keeps, but does not mix
		o := w.pick(anyE)
		if o == nil {
			return "nothing"
		}
		bad := r.Mutate(gen.Pick(r, "npub", "npvt")+r.Text(ref.Alphabet, 150), ref.Alphabet)
		before := o.x
		if o.ek.UnmarshalText([]byte(bad)) == nil {
			o.x = nil
			return "nothing"
		}
		what := fmt.Sprintf("failed decoding into (%s)", o.made)
		if before != nil && text(o.ek) == before.Text() {
			return what
		}
		o.x = nil
		m.Event("failed decoding")
		return what
	case 19:
		// repeated use gives the same
		o := w.pick(live)
		if o == nil || o.x.Depth == 255 {
			return "nothing"
		}
		i := hd.Normal(r)
		a, err1 := o.ek.Child(i)
		o.ek.PubKeyBytes()
		b, err2 := o.ek.Child(i)
		m.Check(err1 == nil && err2 == nil && text(a) == text(b), "repeated use", "%v, %v", err1, err2)
		a.Zero()
		m.Check(!bytes.Equal(b.Bytes(), make([]byte, len(b.Bytes()))), "repeated use", "wiping one child wipes the other")
		return "repeated use of (" + o.made + ")"
	}
	return "nothing"
}

func s2(s *signature.PrivateKey, msg []byte) []byte {
	sig := s.Sign(msg)
	return sig.Bytes()
}

func history(m *mon.M, r gen.R) {
	w := &world{m: m, r: r}
	m.Do("history", func() {
		n := 20 + r.IntN(41)
		changed := false
		for i := 0; i < n; i++ {
			op := w.step()
			if op == "nothing" {
				continue
			}
			if len(op) > 300 {
				op = op[:300] + "..."
			}
			w.log = append(w.log, op)
			changed = changed || strings.HasPrefix(op, "wiping") || strings.HasPrefix(op, "decoding") || strings.HasPrefix(op, "reuse")
			m.Event("step")
			for _, o := range w.objs {
				if len(o.made) > 200 {
					o.made = o.made[:200] + "..."
				}
				if !o.check(m, op) {
					return
				}
			}
			if len(w.objs) > 9 {
				k := r.IntN(len(w.objs))
				w.objs = append(w.objs[:k], w.objs[k+1:]...)
			}
		}
		if changed {
			m.NonTrivial()
		}
	}, func() string { return strings.Join(w.log, "; ") })
}

func main() {
	mon.Main("C24", rule, func(m *mon.M) {
		m.Require("wiped", 500)
		m.Require("reused", 500)
		m.Require("overwritten", 300)
		m.Require("step", 10000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(400, 2500); j > 0; j-- {
				history(m, r)
			}
		})
	})
}
