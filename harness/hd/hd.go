// Package hd makes extended keys of every kind for the workloads, and compares
// those of the code under test with the reference.
package hd

import (
	"bytes"
	"crypto/sha256"
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"sort"

	"github.com/ndau/ndaumath/pkg/key"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

// Witness is a rare value found by cmd/search.
type Witness struct {
	Seed    uint32 `json:"seed"`
	Index   uint32 `json:"index,omitempty"`
	Message uint32 `json:"message,omitempty"`
}

//go:embed witness.json
var raw []byte

// Witnesses are the rare values found by cmd/search, by kind.
func Witnesses() map[string][]Witness {
	m := map[string][]Witness{}
	if err := json.Unmarshal(raw, &m); err != nil {
		panic(err)
	}
	return m
}

// Kinds are the kinds of witnesses in a fixed order.
func Kinds(w map[string][]Witness) []string {
	var l []string
	for k := range w {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Seed is the i-th seed of the search.
func Seed(i uint32) []byte {
	h := sha256.Sum256(binary.BigEndian.AppendUint32([]byte("seed"), i))
	return h[:]
}

// Message is the i-th message of the search.
func Message(i uint32) []byte {
	return binary.BigEndian.AppendUint32([]byte("message"), i)
}

// Same compares an extended key with the reference in every observable way.
func Same(m *mon.M, what string, k *key.ExtendedKey, want *ref.XKey) bool {
	if k == nil {
		m.Failf(what, "nil key")
		return false
	}
	ok := true
	check := func(field string, good bool, got, exp any) {
		if !good {
			ok = false
			m.Failf(what, "%s: got %v, want %v", field, got, exp)
		}
	}
	check("private", k.IsPrivate() == want.Private, k.IsPrivate(), want.Private)
	check("depth", k.Depth() == want.Depth, k.Depth(), want.Depth)
	fp := uint32(want.FP[0])<<16 | uint32(want.FP[1])<<8 | uint32(want.FP[2])
	check("fingerprint", k.ParentFingerprint() == fp, k.ParentFingerprint(), fp)
	check("key", bytes.Equal(k.Bytes(), want.Key), k.Bytes(), want.Key)
	check("public key", bytes.Equal(k.PubKeyBytes(), want.Pub()), k.PubKeyBytes(), want.Pub())
	t, err := k.MarshalText()
	check("text", err == nil && string(t) == want.Text(), string(t), want.Text())
	return ok
}

// Index is an index of a child: small, near the ends of the ranges, or any.
func Index(r gen.R) uint32 {
	switch r.IntN(6) {
	case 0:
		return uint32(r.IntN(5))
	case 1:
		return 1<<31 - 1 - uint32(r.IntN(3))
	case 2:
		return 1<<31 + uint32(r.IntN(3))
	case 3:
		return ^uint32(r.IntN(3))
	case 4:
		return uint32(r.Gen())
	}
	return uint32(r.Rand.Uint64())
}

// Normal is a normal index.
func Normal(r gen.R) uint32 { return Index(r) &^ (1 << 31) }

// Scalar is a private key in the valid range, special ones among them.
func Scalar(r gen.R) *big.Int {
	n := new(big.Int)
	switch r.IntN(8) {
	case 0:
		n.SetInt64(int64(1 + r.IntN(300)))
	case 1:
		n.Sub(ref.N, big.NewInt(int64(1+r.IntN(300))))
	case 2:
		n.Lsh(big.NewInt(1), uint(r.IntN(256)))
		n.Add(n, big.NewInt(int64(r.IntN(3))-1))
	case 3:
		n.SetBytes(r.Bytes(1 + r.IntN(31)))
	default:
		b := make([]byte, 32)
		for i := range b {
			b[i] = byte(r.Rand.Uint64())
		}
		n.SetBytes(b)
	}
	n.Mod(n, ref.N)
	if n.Sign() == 0 {
		n.SetInt64(1)
	}
	return n
}

// XKey is a private extended key with any contents.
func XKey(r gen.R) *ref.XKey {
	d := byte(r.IntN(256))
	if r.IntN(4) == 0 {
		d = gen.Pick(r, byte(0), 1, 254, 255, 127, 128)
	}
	return &ref.XKey{Private: true, Key: ref.Ser32(Scalar(r)), Chain: r.Bytes(32), Depth: d, FP: r.Bytes(3), Num: Index(r)}
}

// Key is the key of the code under test with the contents of x. Its parts are
// those of one buffer for some keys, as of one read from a file.
func Key(x *ref.XKey) *key.ExtendedKey {
	if (x.Num^x.Num>>8^x.Num>>16^x.Num>>24)&1 == 0 {
		buf := append(append(append(append([]byte{}, x.Key...), x.FP...), x.Chain...), make([]byte, 64)...)
		k, f := len(x.Key), len(x.FP)
		return key.NewExtendedKey(buf[:k], buf[k+f:k+f+len(x.Chain)], buf[k:k+f], x.Depth, x.Num, x.Private)
	}
	return key.NewExtendedKey(append([]byte{}, x.Key...), append([]byte{}, x.Chain...), append([]byte{}, x.FP...), x.Depth, x.Num, x.Private)
}
