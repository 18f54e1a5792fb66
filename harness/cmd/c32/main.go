// C32: hostile encodings.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"strings"
	"syscall"

	"github.com/tinylib/msgp/msgp"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sk"
)

const rule = "every decoder of keys, signatures, extended keys, addresses, containers, amounts, times, rates and rate tables, on valid encodings with changed, cut, repeated and spliced bytes, on MessagePack of the wrong shape, width, length and depth, on hostile contents under a right checksum, on extra data of every length as an extended key's, and on arbitrary bytes; " +
	"each into a fresh receiver and one which holds another value, whose results must agree; what is decoded is then used in every way, and the memory allocated is measured; non-trivial when the input is not empty; distinct by decoder and input"

// decoder is one way to decode bytes as a value.
type decoder struct {
	name string
	// decode returns what is left, and the decoded value; used tells to
	// decode into a receiver which holds another value
	decode func(r gen.R, b []byte, used bool) (left []byte, v any, err error)
	valid  func(r gen.R) []byte
	text   bool
	stream bool // allocations up to the announced length are the library's
}

type marshaler interface{ MarshalMsg([]byte) ([]byte, error) }

// use uses a decoded value in every way and returns what was observed.
func use(m *mon.M, r gen.R, v any) string {
	var sb strings.Builder
	show := func(x ...any) { fmt.Fprintln(&sb, x...) }
	fmt.Fprintf(io.Discard, "%v %+v %#v", v, v, v)
	if x, ok := v.(fmt.Stringer); ok {
		show(x.String())
	}
	if x, ok := v.(interface {
		MarshalMsg([]byte) ([]byte, error)
		Msgsize() int
	}); ok {
		b, err := x.MarshalMsg(nil)
		show(b, err)
		m.Check(err != nil || len(b) <= x.Msgsize(), "size bound", "%d > %d", len(b), x.Msgsize())
	}
	if x, ok := v.(msgp.Encodable); ok {
		var w bytes.Buffer
		err := msgp.Encode(&w, x)
		show(w.Bytes(), err)
	}
	if x, ok := v.(interface{ MarshalText() ([]byte, error) }); ok {
		show(x.MarshalText())
	}
	switch v.(type) {
	case *eai.RateTable, *eai.RateSlice, *signature.IdentifiedData: // nil and empty are the same value
	default:
		j, err := json.Marshal(v)
		show(string(j), err)
	}
	switch x := v.(type) {
	case *signature.PublicKey:
		show(x.FullString(), x.String(), x.Size(), x.IsZero(), x.KeyBytes(), x.ExtraBytes(), signature.NameOf(x.Algorithm()), signature.IsPublic(x))
		s := hostileSignature(r, x)
		x.Verify(sk.Message(r), s)
		s.Verify(sk.Message(r), *x)
		c := *x
		key.FromSignatureKey(&c)
		c.Truncate()
		show(c.FullString())
		c.Zeroize()
		m.Check(c.IsZero(), "wiped", "not zero")
		show(c.FullString())
	case *signature.PrivateKey:
		show(x.FullString(), x.String(), x.Size(), x.IsZero(), x.KeyBytes(), x.ExtraBytes(), signature.NameOf(x.Algorithm()), signature.IsPrivate(x))
		p := x.Algorithm().Public(x.KeyBytes())
		show(p)
		show(x.Sign([]byte("message")).Marshal())
		key.FromSignatureKey(x)
		c := *x
		c.Truncate()
		show(c.FullString())
		c.Zeroize()
		m.Check(c.IsZero(), "wiped", "not zero")
		show(c.FullString())
	case *signature.Signature:
		show(x.Size(), x.Bytes(), signature.NameOf(x.Algorithm()))
		show(x.MarshalString())
		for _, p := range []sk.Pair{sk.Ed(r), sk.Secp(r)} {
			k, _ := signature.RawPublicKey(p.Al, p.Pub, nil)
			m.Check(!k.Verify([]byte("another message"), *x), "verify", "a hostile signature verifies")
			x.Verify(nil, *k)
		}
		x.Verify(nil, signature.PublicKey{})
	case *key.ExtendedKey:
		show(x.IsPrivate(), x.Depth(), x.ParentFingerprint(), x.Bytes(), x.PubKeyBytes())
		for _, i := range []uint32{0, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			c, err := x.Child(i)
			show(c, err != nil)
			c, err = x.HardenedChild(i)
			show(c, err != nil)
		}
		p, err := x.Public()
		show(p, err != nil)
		sp, err := x.SPubKey()
		show(sp, err != nil)
		sv, err := x.SPrivKey()
		show(sv, err != nil)
		ep, err := x.ECPubKey()
		show(ep != nil, err != nil)
		ev, err := x.ECPrivKey()
		show(ev != nil, err != nil)
		x.Zero()
		show(x.Bytes(), x.PubKeyBytes())
		x.MarshalText()
		x.Child(0)
		x.Public()
	case *address.Address:
		show(x.String(), x.Revalidate() == nil)
	case *eai.RateTable:
		if len(*x) < 1000 {
			show(x.RateAt(dur(r)), x.RateAt(0))
		}
		show(len(*x))
	case *signature.IdentifiedData:
		show(x.Algorithm, fmt.Sprintf("%x", x.Data))
	}
	return sb.String()
}

func hostileSignature(r gen.R, k *signature.PublicKey) signature.Signature {
	var s signature.Signature
	id := byte(sk.ID(k.Algorithm()))
	switch r.IntN(3) {
	case 0:
		s.UnmarshalMsg(ref.Container(id, r.Bytes(r.IntN(80))))
	case 1:
		s.UnmarshalMsg(ref.Container(id, r.Bytes(64)))
	}
	return s
}

// msgpDecoders are the in-memory and streaming decoders of a type.
func msgpDecoders(name string, fresh func() any, used func(r gen.R) any, lengths bool) []decoder {
	pick := func(r gen.R, u bool) any {
		if u {
			return used(r)
		}
		return fresh()
	}
	valid := func(r gen.R) []byte {
		b, err := used(r).(marshaler).MarshalMsg(nil)
		if err != nil {
			panic(err)
		}
		return b
	}
	l := []decoder{{name: name + ".UnmarshalMsg", valid: valid, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		v := pick(r, u)
		left, err := v.(msgp.Unmarshaler).UnmarshalMsg(b)
		return left, v, err
	}}}
	if _, ok := fresh().(msgp.Decodable); ok {
		l = append(l, decoder{name: name + ".DecodeMsg", stream: lengths, valid: valid, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
			v := pick(r, u)
			rd := bytes.NewReader(b)
			d := msgp.NewReader(rd)
			err := v.(msgp.Decodable).DecodeMsg(d)
			n := rd.Len() + d.Buffered()
			return b[len(b)-n:], v, err
		}})
	}
	return l
}

func rateTable(r gen.R) eai.RateTable {
	t := eai.RateTable{}
	for n := r.IntN(12); n > 0; n-- {
		t = append(t, eai.RTRow{From: dur(r), Rate: eai.Rate(r.Int64())})
	}
	return t
}

func decoders() []decoder {
	var l []decoder
	add := func(d ...decoder) { l = append(l, d...) }
	ptr := func(f func(r gen.R) int64, set func(n int64) any) (func() any, func(r gen.R) any) {
		return func() any { return set(0) }, func(r gen.R) any { return set(f(r)) }
	}
	f, u := ptr(gen.R.Int64, func(n int64) any { x := types.Ndau(n); return &x })
	add(msgpDecoders("Ndau", f, u, false)...)
	f, u = ptr(gen.R.Int64, func(n int64) any { x := types.Duration(n); return &x })
	add(msgpDecoders("Duration", f, u, false)...)
	f, u = ptr(gen.R.Int64, func(n int64) any { x := types.Timestamp(n); return &x })
	add(msgpDecoders("Timestamp", f, u, false)...)
	f, u = ptr(gen.R.Int64, func(n int64) any { x := pricecurve.Nanocent(n); return &x })
	add(msgpDecoders("Nanocent", f, u, false)...)
	f, u = ptr(gen.R.Int64, func(n int64) any { x := eai.Rate(n); return &x })
	add(msgpDecoders("Rate", f, u, false)...)
	f, u = ptr(gen.R.Int64, func(n int64) any { x := signature.AlgorithmID(n); return &x })
	add(msgpDecoders("AlgorithmID", f, u, false)...)
	add(msgpDecoders("RTRow", func() any { return new(eai.RTRow) }, func(r gen.R) any { return &eai.RTRow{From: dur(r), Rate: eai.Rate(r.Int64())} }, false)...)
	add(msgpDecoders("RSRow", func() any { return new(eai.RSRow) }, func(r gen.R) any { return &eai.RSRow{Duration: dur(r), Rate: eai.Rate(r.Int64())} }, false)...)
	add(msgpDecoders("RateTable", func() any { return new(eai.RateTable) }, func(r gen.R) any { t := rateTable(r); return &t }, false)...)
	add(msgpDecoders("RateSlice", func() any { return new(eai.RateSlice) }, func(r gen.R) any {
		t := eai.RateSlice{}
		for n := r.IntN(12); n > 0; n-- {
			t = append(t, eai.RSRow{Duration: dur(r), Rate: eai.Rate(r.Int64())})
		}
		return &t
	}, false)...)
	add(msgpDecoders("Address", func() any { return new(address.Address) }, func(r gen.R) any {
		a, err := address.Generate('a', r.Bytes(30))
		if err != nil {
			panic(err)
		}
		return &a
	}, true)...)
	add(msgpDecoders("IdentifiedData", func() any { return new(signature.IdentifiedData) }, func(r gen.R) any {
		return &signature.IdentifiedData{Algorithm: signature.AlgorithmID(r.IntN(256)), Data: r.Bytes(r.IntN(300))}
	}, true)...)
	newPub := func() any { return new(signature.PublicKey) }
	usedPub := func(r gen.R) any {
		p := sk.New(r)
		k, err := signature.RawPublicKey(p.Al, p.Pub, sk.Extra(r))
		if err != nil {
			panic(err)
		}
		return k
	}
	newPriv := func() any { return new(signature.PrivateKey) }
	usedPriv := func(r gen.R) any {
		p := sk.New(r)
		k, err := signature.RawPrivateKey(p.Al, p.Priv, sk.Extra(r))
		if err != nil {
			panic(err)
		}
		return k
	}
	newSig := func() any { return new(signature.Signature) }
	usedSig := func(r gen.R) any {
		p := sk.New(r)
		s, err := signature.RawSignature(p.Al, p.Sign([]byte("another message than those which hostile signatures are tried on")))
		if err != nil {
			panic(err)
		}
		return s
	}
	type both interface {
		Unmarshal([]byte) error
		UnmarshalText([]byte) error
		MarshalText() ([]byte, error)
	}
	for _, t := range []struct {
		name  string
		fresh func() any
		used  func(r gen.R) any
		parse func(s string) (any, error)
	}{
		{"PublicKey", newPub, usedPub, func(s string) (any, error) { return signature.ParsePublicKey(s) }},
		{"PrivateKey", newPriv, usedPriv, func(s string) (any, error) { return signature.ParsePrivateKey(s) }},
		{"Signature", newSig, usedSig, func(s string) (any, error) { return signature.ParseSignature(s) }},
	} {
		pick := func(r gen.R, u bool) any {
			if u {
				return t.used(r)
			}
			return t.fresh()
		}
		add(msgpDecoders(t.name, t.fresh, t.used, false)...)
		binary := func(r gen.R) []byte {
			b, err := t.used(r).(marshaler).MarshalMsg(nil)
			if err != nil {
				panic(err)
			}
			return b
		}
		add(decoder{name: t.name + ".Unmarshal", valid: binary, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
			v := pick(r, u)
			return nil, v, v.(both).Unmarshal(b)
		}})
		text := func(r gen.R) []byte {
			b, err := t.used(r).(both).MarshalText()
			if err != nil {
				panic(err)
			}
			return b
		}
		add(decoder{name: t.name + ".UnmarshalText", text: true, valid: text, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
			v := pick(r, u)
			return nil, v, v.(both).UnmarshalText(b)
		}})
		add(decoder{name: "Parse" + t.name, text: true, valid: text, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
			v, err := t.parse(string(b))
			return nil, v, err
		}})
		add(decoder{name: t.name + " json", text: true, valid: text, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
			j, err := json.Marshal(string(b))
			if err != nil {
				panic(err)
			}
			v := pick(r, u)
			return nil, v, json.Unmarshal(j, v)
		}})
	}
	anyKey := func(r gen.R) []byte {
		v := gen.Pick(r, usedPub, usedPriv)(r)
		b, err := v.(both).MarshalText()
		if err != nil {
			panic(err)
		}
		return b
	}
	add(decoder{name: "ParseKey", text: true, valid: anyKey, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		v, err := signature.ParseKey(string(b))
		return nil, v, err
	}})
	extended := func(r gen.R) *ref.XKey {
		x := hd.XKey(r)
		if r.IntN(2) == 0 {
			x = x.Public()
		}
		return x
	}
	xtext := func(r gen.R) []byte { return []byte(extended(r).Text()) }
	pickX := func(r gen.R, u bool) *key.ExtendedKey {
		if u {
			k := hd.Key(extended(r))
			if r.IntN(2) == 0 {
				k.PubKeyBytes()
			}
			return k
		}
		return new(key.ExtendedKey)
	}
	add(decoder{name: "ExtendedKey.UnmarshalText", text: true, valid: xtext, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		v := pickX(r, u)
		return nil, v, v.UnmarshalText(b)
	}})
	add(decoder{name: "ExtendedKey.FromSignatureKey", text: true, valid: xtext, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		k, err := signature.ParseKey(string(b))
		if err != nil {
			return nil, nil, err
		}
		v := pickX(r, u)
		return nil, v, v.FromSignatureKey(k)
	}})
	add(decoder{name: "key.FromSignatureKey", text: true, valid: xtext, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		k, err := signature.ParseKey(string(b))
		if err != nil {
			return nil, nil, err
		}
		v, err := key.FromSignatureKey(k)
		return nil, v, err
	}})
	add(decoder{name: "FromOldSerialization", text: true, valid: func(r gen.R) []byte { return []byte(old(r, extended(r))) }, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		v, err := key.FromOldSerialization(string(b))
		return nil, v, err
	}})
	atext := func(r gen.R) []byte {
		s, _ := ref.Address('a', r.Bytes(20))
		return []byte(s)
	}
	add(decoder{name: "Address.UnmarshalText", text: true, valid: atext, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		v := new(address.Address)
		if u {
			*v, _ = address.Generate('x', r.Bytes(30))
		}
		err := v.UnmarshalText(b)
		if err == nil {
			v.Kind()
		}
		return nil, v, err
	}})
	add(decoder{name: "address.Validate", text: true, valid: atext, decode: func(r gen.R, b []byte, u bool) ([]byte, any, error) {
		v, err := address.Validate(string(b))
		if err == nil {
			v.Kind()
		}
		return nil, &v, err
	}})
	return l
}

func old(r gen.R, x *ref.XKey) string {
	ver, data := []byte{99, 103, 31}, append([]byte{0}, x.Key...)
	if !x.Private {
		ver, data = []byte{99, 100, 16}, x.Key
	}
	p := append(ver, x.Depth)
	p = append(p, x.FP...)
	p = binary.BigEndian.AppendUint32(p, x.Num)
	p = append(append(p, x.Chain...), data...)
	return ref.OldText(p)
}

// announcesMore returns whether somewhere more than 32 MB are announced: a
// streaming decoder has the library allocate them.
func announcesMore(b []byte) bool {
	for i := 0; i+5 <= len(b); i++ {
		if (b[i] == 0xc6 || b[i] == 0xdb || b[i] == 0xc9) && binary.BigEndian.Uint32(b[i+1:]) > 32<<20 {
			return true
		}
	}
	return false
}

func try(m *mon.M, r gen.R, d *decoder, b []byte) {
	if d.stream && announcesMore(b) {
		m.Event("stream not decoded: announces more than 32 MB")
		return
	}
	m.Do(d.name, func() {
		if len(b) > 0 {
			m.NonTrivial()
		}
		in := append(make([]byte, 0, len(b)+r.IntN(2)*64), b...)
		tail := in[len(b):cap(in)]
		for i := range tail {
			tail[i] = 0xc1
		}
		left, v, err := d.decode(r, in, false)
		left2, v2, err2 := d.decode(r, in, true)
		m.Check((err == nil) == (err2 == nil), "depends on the receiver", "fresh: %v, used: %v", err, err2)
		m.Check(bytes.Equal(in, b) && bytes.Count(tail, []byte{0xc1}) == len(tail), "input changed", "%x", in)
		if err != nil || err2 != nil {
			m.Event("rejected")
			return
		}
		m.Event("decoded")
		m.Event("decoded by " + d.name)
		m.Check(bytes.Equal(left, left2) && bytes.HasSuffix(b, left), "left", "%x, %x", left, left2)
		// the buffer is the caller's
		for i := range in {
			in[i] = 0xc1
		}
		seed := r.Rand.Uint64()
		o := use(m, gen.R{Rand: newRand(seed)}, v)
		o2 := use(m, gen.R{Rand: newRand(seed)}, v2)
		m.Check(o == o2, "depends on the receiver", "fresh: %s\nused: %s", o, o2)
	}, b)
}

// msgpack makes MessagePack of any shape.
func msgpack(r gen.R, depth int) []byte {
	n := func() uint64 { return r.Gen() >> r.IntN(64) }
	switch r.IntN(16) {
	case 0:
		return []byte{byte(r.IntN(128))}
	case 1:
		return []byte{byte(0xe0 | r.IntN(32))}
	case 2:
		return []byte{0xcc, byte(n())}
	case 3:
		return binary.BigEndian.AppendUint16([]byte{gen.Pick[byte](r, 0xcd, 0xd1)}, uint16(n()))
	case 4:
		return binary.BigEndian.AppendUint32([]byte{gen.Pick[byte](r, 0xce, 0xd2, 0xca)}, uint32(n()))
	case 5:
		return binary.BigEndian.AppendUint64([]byte{gen.Pick[byte](r, 0xcf, 0xd3, 0xcb)}, n())
	case 6:
		return []byte{0xd0, byte(n())}
	case 7:
		return []byte{gen.Pick[byte](r, 0xc0, 0xc1, 0xc2, 0xc3, 0xc7, 0xc8, 0xc9, 0xd4, 0xd8)}
	case 8:
		d := r.Bytes(r.IntN(70))
		return append([]byte{gen.Pick[byte](r, 0xc4, 0xd9), byte(len(d))}, d...)
	case 9:
		d := r.Bytes(r.IntN(300))
		return append(binary.BigEndian.AppendUint16([]byte{gen.Pick[byte](r, 0xc5, 0xda)}, uint16(len(d))), d...)
	case 10:
		d := r.Bytes(r.IntN(300))
		return append(binary.BigEndian.AppendUint32([]byte{gen.Pick[byte](r, 0xc6, 0xdb)}, uint32(len(d))), d...)
	case 11:
		d := r.Bytes(r.IntN(32))
		return append([]byte{byte(0xa0 | len(d))}, d...)
	}
	// arrays, sometimes of another length than announced
	k := r.IntN(5)
	var b []byte
	switch r.IntN(5) {
	case 0:
		b = []byte{0xdc, 0, byte(k)}
	case 1:
		b = []byte{0xdd, 0, 0, 0, byte(k)}
	default:
		b = []byte{byte(gen.Pick(r, 0x90, 0x90, 0x90, 0x80) | k)}
	}
	if depth > 4 {
		return b
	}
	for i := 0; i < k; i++ {
		b = append(b, msgpack(r, depth+1)...)
	}
	return b
}

// container makes hostile contents of a checksummed text.
func container(r gen.R) []byte {
	switch r.IntN(6) {
	case 0:
		return msgpack(r, 0)
	case 1:
		return r.Bytes(r.IntN(120))
	case 2:
		return ref.Container(byte(r.IntN(4)), r.Bytes(r.IntN(120)))
	case 3:
		d := r.Bytes(r.IntN(120))
		if len(d) > 0 {
			d[0] = gen.Pick[byte](r, 0, 31, 32, 33, 64, byte(len(d)-1), byte(len(d)), 255)
		}
		return ref.Container(byte(r.IntN(4)), d)
	case 4:
		return ref.KeyBinary(byte(1+r.IntN(2)), r.Bytes(gen.Pick(r, 32, 33, 64)), r.Bytes(gen.Pick(r, 0, 1, 39, 40, 41)))
	}
	return ref.Container(1, r.Bytes(64))
}

func huge(r gen.R) [][]byte {
	var l [][]byte
	for _, n := range []uint32{1 << 20, 1 << 22, 1 << 24, 1<<24 + 1, 1 << 25} {
		for _, head := range [][]byte{{0xdd}, {0xdf}, {0xc6}, {0xdb}, {0x92, 1, 0xc6}, {0x91, 0xdb}, {0x92, 0xdd}, {0x91, 0xdd}, {0xc9}} {
			b := binary.BigEndian.AppendUint32(append([]byte{}, head...), n)
			l = append(l, b, append(append([]byte{}, b...), r.Bytes(r.IntN(60))...), append(append([]byte{}, b...), 0x92, 1, 2, 0x92, 1, 2))
		}
	}
	for _, head := range [][]byte{{0xdc}, {0xde}, {0xc5}, {0xda}} {
		b := append(append([]byte{}, head...), 0xff, 0xff)
		l = append(l, b, append(append([]byte{}, b...), 0x92, 1, 2))
	}
	l = append(l, bytes.Repeat([]byte{0x91}, 100000), bytes.Repeat([]byte{0xdd, 0xff, 0xff, 0xff, 0xff}, 10000), bytes.Repeat([]byte("a"), 100000), bytes.Repeat([]byte("npub"), 20000))
	return l
}

func main() {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30})
	mon.Main("C32", rule, func(m *mon.M) {
		m.Require("decoded", 20000)
		m.Require("rejected", 100000)
		m.Require("memory measured", 3000)
		ds := decoders()
		for _, d := range ds {
			m.Require("decoded by "+d.name, 50)
		}
		// memory: alone, so that what is allocated is the decoder's
		r := gen.R{Rand: m.Rand}
		for i := range ds {
			d := &ds[i]
			if d.stream {
				continue
			}
			d.decode(r, d.valid(r), false) // once, for pools
			in := huge(r)
			for k := 0; k < 20; k++ {
				in = append(in, d.valid(r), container(r), bytes.Repeat(d.valid(r), 1+r.IntN(50)))
			}
			for _, b := range in {
				m.Do("memory of "+d.name, func() {
					m.NonTrivial()
					m.Event("memory measured")
					var a, z runtime.MemStats
					runtime.ReadMemStats(&a)
					d.decode(r, b, false)
					runtime.ReadMemStats(&z)
					n := z.TotalAlloc - a.TotalAlloc
					m.Check(n < 100000+100*uint64(len(b)), "memory", "%d bytes allocated for %d", n, len(b))
				}, func() string {
					if len(b) > 2000 {
						return fmt.Sprintf("%x and %d more", b[:100], len(b)-100)
					}
					return fmt.Sprintf("%x", b)
				})
			}
		}
		// the largest announcements
		for i := range ds {
			d := &ds[i]
			if d.stream {
				continue
			}
			for _, head := range [][]byte{{0xdd}, {0xdf}, {0xc6}, {0xdb}, {0x92, 1, 0xc6}, {0x91, 0xdb}, {0xc9}} {
				for _, n := range []uint32{1<<32 - 1, 1 << 31, 1<<31 - 1} {
					try(m, r, d, binary.BigEndian.AppendUint32(append([]byte{}, head...), n))
				}
			}
		}
		m.Par("random", 16, func(m *mon.M, shard int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(14, 180); j > 0; j-- {
				for i := range ds {
					d := &ds[i]
					v := d.valid(r)
					if len(v) > 1500 {
						v = v[:1500]
					}
					try(m, r, d, v)
					try(m, r, d, append(append([]byte{}, v...), r.Bytes(1+r.IntN(9))...))
					mutate := func(b []byte) []byte {
						b = append([]byte{}, b...)
						for n := 1 + r.IntN(3); n > 0; n-- {
							switch r.IntN(6) {
							case 0, 1:
								if len(b) > 0 {
									k := r.IntN(len(b))
									if r.IntN(2) == 0 && k > 6 {
										k = r.IntN(6)
									}
									b[k] = gen.Pick(r, byte(r.Rand.Uint64()), b[k]^1<<r.IntN(8), b[k]+1, b[k]-1, 0, 0xff)
								}
							case 2:
								b = b[:r.IntN(len(b)+1)]
							case 3:
								k := r.IntN(len(b) + 1)
								b = append(b[:k], append(r.Bytes(1+r.IntN(4)), b[k:]...)...)
							case 4:
								w := d.valid(r)
								k, l := r.IntN(len(b)+1), r.IntN(len(w)+1)
								b = append(b[:k], w[l:]...)
							case 5:
								if k := r.IntN(len(b) + 1); k < len(b) {
									b = append(b[:k], b[k+1:]...)
								}
							}
						}
						return b
					}
					for k := 0; k < 12; k++ {
						try(m, r, d, mutate(v))
						if d.text {
							// under a right checksum
							pre := gen.Pick(r, "npub", "npvt", "")
							try(m, r, d, []byte(pre+ref.B32(ref.Checksummed(container(r)))))
							if r.IntN(3) == 0 {
								x := hd.XKey(r)
								try(m, r, d, []byte("npub"+ref.KeyText(2, x.Pub(), r.Bytes(r.IntN(60)))))
								try(m, r, d, []byte("npvt"+ref.KeyText(2, r.Bytes(32), r.Bytes(40))))
								try(m, r, d, []byte("npub"+ref.KeyText(2, append([]byte{gen.Pick[byte](r, 2, 3, 4, 0)}, r.Bytes(32)...), r.Bytes(40))))
								try(m, r, d, []byte(ref.OldText(r.Bytes(76))))
							}
							s := r.Text(ref.Alphabet+"npubvt=\n \x00é", 300)
							try(m, r, d, []byte(s))
							try(m, r, d, []byte(pre+s))
						} else {
							try(m, r, d, msgpack(r, 0))
							try(m, r, d, container(r))
							try(m, r, d, r.Bytes(r.IntN(100)))
						}
					}
					if j%4 == 0 {
						for n := 0; n < len(v); n++ {
							try(m, r, d, v[:n])
						}
					}
				}
			}
		})
		extras(m, r)
		others(m, r)
		for i := range ds {
			d := &ds[i]
			try(m, r, d, nil)
			for c := 0; c < 256; c++ {
				try(m, r, d, []byte{byte(c)})
				try(m, r, d, []byte{byte(c), byte(c)})
				try(m, r, d, []byte("npub"+string(rune(c))))
				try(m, r, d, []byte("npvt"+string(rune(c))))
			}
		}
	})
}

// others are signature keys which cannot be extended keys, with the extra data of one.
func others(m *mon.M, r gen.R) {
	for i := 0; i < 60; i++ {
		p := sk.Ed(r)
		x := hd.XKey(r)
		extra := x.Extra()
		var k signature.Key
		var err error
		switch i % 6 {
		case 0, 1:
			k, err = signature.RawPublicKey(p.Al, p.Pub, extra)
		case 2, 3:
			k, err = signature.RawPrivateKey(p.Al, p.Priv, extra)
		case 4:
			k, err = signature.RawPublicKey(signature.Null, nil, extra)
		case 5:
			k, err = signature.RawPrivateKey(signature.Null, nil, extra)
		}
		m.Do("key of another algorithm", func() {
			m.NonTrivial()
			m.Event("another algorithm")
			if !m.Check(err == nil, "raw key", "%v", err) {
				return
			}
			verdict := func(how string, err error) {
				m.Check(err != nil, how, "a key of %s becomes an extended key", signature.NameOf(k.Algorithm()))
			}
			_, err := key.FromSignatureKey(k)
			verdict("FromSignatureKey", err)
			verdict("ExtendedKey.FromSignatureKey", hd.Key(x).FromSignatureKey(k))
			t, err := k.MarshalText()
			if m.Check(err == nil, "text", "%v", err) {
				verdict("UnmarshalText", new(key.ExtendedKey).UnmarshalText(t))
				verdict("UnmarshalText", hd.Key(x).UnmarshalText(t))
			}
		}, fmt.Sprint(i%6), p.Priv, extra)
	}
}

// extras makes extended keys of keys with extra data of every length: less than
// 40 bytes cannot be one, wherever the bytes lie.
func extras(m *mon.M, r gen.R) {
	for n := 0; n <= 120; n++ {
		for i := 0; i < 6; i++ {
			x := hd.XKey(r)
			pub := i%2 == 0
			data := x.Key
			if pub {
				data = x.Pub()
			}
			extra := r.Bytes(n)
			m.Do("extra data of an extended key", func() {
				m.NonTrivial()
				m.Event("extra data")
				var k signature.Key
				var err error
				roomy := append(make([]byte, 0, n+i*20), extra...)
				if pub {
					k, err = signature.RawPublicKey(signature.Secp256k1, data, roomy)
				} else {
					k, err = signature.RawPrivateKey(signature.Secp256k1, data, roomy)
				}
				if !m.Check(err == nil, "raw key", "%v", err) {
					return
				}
				t, err := k.MarshalText()
				m.Check(err == nil, "text", "%v", err)
				b, err := k.(interface{ Marshal() ([]byte, error) }).Marshal()
				m.Check(err == nil, "binary", "%v", err)
				verdict := func(how string, v *key.ExtendedKey, err error) {
					if !m.Check((err == nil) == (n >= 40), how, "%d bytes: %v", n, err) || err != nil {
						return
					}
					m.Check(v.Depth() == extra[0] && v.IsPrivate() == !pub, how, "depth %d, private %v", v.Depth(), v.IsPrivate())
					use(m, r, v)
				}
				v, err := key.FromSignatureKey(k)
				verdict("FromSignatureKey", v, err)
				v = hd.Key(hd.XKey(r))
				err = v.FromSignatureKey(k)
				verdict("ExtendedKey.FromSignatureKey", v, err)
				v = new(key.ExtendedKey)
				err = v.UnmarshalText(t)
				verdict("UnmarshalText", v, err)
				k, err = signature.ParseKey(string(t))
				if m.Check(err == nil, "ParseKey", "%v", err) {
					v, err = key.FromSignatureKey(k)
					verdict("ParseKey", v, err)
				}
				// from a buffer which is full, and one which is not
				for _, room := range []int{0, 50} {
					in := append(make([]byte, 0, len(b)+room), b...)
					if pub {
						p := new(signature.PublicKey)
						err = p.Unmarshal(in)
						k = p
					} else {
						p := new(signature.PrivateKey)
						err = p.Unmarshal(in)
						k = p
					}
					if m.Check(err == nil, "Unmarshal", "%v", err) {
						v, err = key.FromSignatureKey(k)
						verdict("Unmarshal", v, err)
					}
				}
			}, pub, data, extra)
		}
	}
}

func newRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 1)) }

func dur(r gen.R) types.Duration {
	if r.IntN(8) == 0 {
		return types.Duration(r.Int64())
	}
	return types.Duration(r.Nat())
}
