package main

import (
	"bytes"
	"crypto/sha256"
	"io"

	"github.com/ndau/ndaumath/pkg/signature"
)

// A toy algorithm with everything that a parameter can change.
type toy struct {
	salt           byte
	pub, priv, sig int
}

func (t toy) hash(n int, parts ...[]byte) []byte {
	h := sha256.New()
	h.Write([]byte{t.salt})
	for _, p := range parts {
		h.Write([]byte{byte(len(p))})
		h.Write(p)
	}
	s := h.Sum(nil)
	out := bytes.Repeat(s, n/len(s)+1)
	return out[:n]
}

func (t toy) sigLen() int {
	if t.sig < 0 {
		return 20
	}
	return t.sig
}

func (t toy) PublicKeySize() int  { return t.pub }
func (t toy) PrivateKeySize() int { return t.priv }
func (t toy) SignatureSize() int  { return t.sig }
func (t toy) Public(private []byte) []byte {
	return t.hash(t.pub, private)
}
func (t toy) Generate(rand io.Reader) (public, private []byte, err error) {
	private = make([]byte, t.priv)
	_, err = io.ReadFull(rand, private)
	return t.Public(private), private, err
}
func (t toy) Sign(private, message []byte) []byte {
	return t.hash(t.sigLen(), t.Public(private), message)
}
func (t toy) Verify(public, message, sig []byte) bool {
	return bytes.Equal(sig, t.hash(t.sigLen(), public, message))
}

// Types of every kind. What a value of them is depends on the parameter s.
type (
	empty          struct{}
	small          struct{ toy }
	smallX         struct{ toy }
	Small          struct{ toy }
	smal           struct{ toy }
	huge           struct{ toy }
	params         struct{ Salt byte }
	nested         struct{ in struct{ p *byte } }
	number         int
	byteNo         uint8
	float          float64
	text           string
	slice          []byte
	array          [3]byte
	table          map[int]byte
	function       func() byte
	boolean        bool
	channel        chan byte
	complexNo      complex128
	wrapper        struct{ signature.Algorithm }
	onPointer      struct{ s byte }
	onPointer2     struct{ s byte }
	generic[T any] struct {
		t T
		s byte
	}
	large struct {
		pad [300]byte
		s   byte
	}
	unicode_é struct{ s byte }
	noKeys    struct{ s byte }
	bigKeys   struct{ s byte }
)

func one(s byte, pub, priv, sig int) toy { return toy{s, pub, priv, sig} }

func (a empty) toy() toy      { return one(1, 20, 10, 16) }
func (a params) toy() toy     { return one(a.Salt, 5+int(a.Salt%4), 6, 7) }
func (a nested) toy() toy     { return one(*a.in.p, 21, 6, 9) }
func (a number) toy() toy     { return one(byte(a), 22, 6, -1) }
func (a byteNo) toy() toy     { return one(byte(a), 23, 6, 10) }
func (a float) toy() toy      { return one(byte(a), 23, 6, 10) }
func (a text) toy() toy       { return one(a[0], 24, 33, 10) }
func (a slice) toy() toy      { return one(a[0], 32, 64, 64) }
func (a array) toy() toy      { return one(a[2], 33, 32, -1) }
func (a table) toy() toy      { return one(a[7], 20, 6, 10) }
func (a function) toy() toy   { return one(a(), 20, 6, 10) }
func (a boolean) toy() toy    { return one(2, 20, 6, 10) }
func (a channel) toy() toy    { return one(byte(cap(a)), 20, 6, 10) }
func (a complexNo) toy() toy  { return one(byte(real(a)), 20, 6, 10) }
func (a *onPointer) toy() toy { return one(a.s, 20, 6, 10) }
func (a *onPointer2) toy() toy {
	return one(a.s, 20, 6, 10)
}
func (a generic[T]) toy() toy { return one(a.s, 20, 6, 10) }
func (a large) toy() toy      { return one(a.s, 20, 6, 10) }
func (a unicode_é) toy() toy  { return one(a.s, 20, 6, 10) }
func (a noKeys) toy() toy     { return one(a.s, 0, 0, 0) }
func (a bigKeys) toy() toy    { return one(a.s, 255, 255, 300) }

// The methods of all of them go through toy.
type toyer interface{ toy() toy }

func kind(name string, s byte, pointer bool) signature.Algorithm {
	pick := func(v, p signature.Algorithm) signature.Algorithm {
		if pointer {
			return p
		}
		return v
	}
	switch name {
	case "empty":
		v := empty{}
		return pick(v, &v)
	case "small":
		v := small{one(s, 20, 10, 16)}
		return pick(v, &v)
	case "smallX":
		v := smallX{one(s, 21, 10, 16)}
		return pick(v, &v)
	case "Small":
		v := Small{one(s, 22, 10, -1)}
		return pick(v, &v)
	case "smal":
		v := smal{one(s, 23, 10, 1)}
		return pick(v, &v)
	case "params":
		v := params{s}
		return pick(v, &v)
	case "nested":
		v := nested{}
		v.in.p = &s
		return pick(v, &v)
	case "number":
		v := number(s)
		return pick(v, &v)
	case "byteNo":
		v := byteNo(s)
		return pick(v, &v)
	case "float":
		v := float(s)
		return pick(v, &v)
	case "text":
		v := text([]byte{s})
		return pick(v, &v)
	case "slice":
		v := slice{s, 1}
		return pick(v, &v)
	case "array":
		v := array{1, 2, s}
		return pick(v, &v)
	case "table":
		v := table{7: s}
		return pick(v, &v)
	case "function":
		v := function(func() byte { return s })
		return pick(v, &v)
	case "boolean":
		v := boolean(true)
		return pick(v, &v)
	case "channel":
		v := channel(make(chan byte, s))
		return pick(v, &v)
	case "complexNo":
		v := complexNo(complex(float64(s), 1))
		return pick(v, &v)
	case "wrapper":
		v := wrapper{signature.Ed25519}
		if s%2 == 0 {
			v.Algorithm = one(s, 20, 6, 9)
		}
		return pick(v, &v)
	case "onPointer":
		return &onPointer{s}
	case "onPointer2":
		return &onPointer2{s}
	case "generic[int]":
		v := generic[int]{s: s}
		return pick(v, &v)
	case "generic[string]":
		v := generic[string]{s: s}
		return pick(v, &v)
	case "generic[slice]":
		v := generic[slice]{s: s}
		return pick(v, &v)
	case "large":
		v := large{s: s}
		return pick(v, &v)
	case "unicode":
		v := unicode_é{s}
		return pick(v, &v)
	case "noKeys":
		v := noKeys{s}
		return pick(v, &v)
	case "bigKeys":
		v := bigKeys{s}
		return pick(v, &v)
	}
	panic(name)
}

var names = []string{"empty", "small", "smallX", "Small", "smal", "params", "nested", "number", "byteNo", "float", "text", "slice", "array", "table", "function", "boolean", "channel", "complexNo",
	"wrapper", "onPointer", "onPointer2", "generic[int]", "generic[string]", "generic[slice]", "large", "unicode", "noKeys", "bigKeys"}
