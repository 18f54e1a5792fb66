// Package sk makes key pairs, extra data and messages of the signature package
// for the workloads, from independent implementations of the algorithms.
package sk

import (
	"crypto/ed25519"
	"math/big"

	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/ref"
)

// Ids of the algorithms.
const (
	NullID = 0
	EdID   = 1
	SecpID = 2
)

// Pair is a key pair.
type Pair struct {
	ID        byte
	Al        signature.Algorithm
	Pub, Priv []byte
}

// Al is an algorithm by id, as a value or a pointer.
func Al(r gen.R, id byte) signature.Algorithm {
	switch id {
	case EdID:
		return gen.Pick[signature.Algorithm](r, signature.Ed25519, &signature.Ed25519)
	case SecpID:
		return gen.Pick[signature.Algorithm](r, signature.Secp256k1, &signature.Secp256k1)
	}
	return gen.Pick[signature.Algorithm](r, signature.Null, &signature.Null, nil)
}

// New makes a pair.
func New(r gen.R) Pair {
	if r.IntN(2) == 0 {
		return Ed(r)
	}
	return Secp(r)
}

// Ed makes a pair for Ed25519.
func Ed(r gen.R) Pair {
	k := ed25519.NewKeyFromSeed(r.Bytes(32))
	return Pair{EdID, Al(r, EdID), k.Public().(ed25519.PublicKey), k}
}

// Secp makes a pair for secp256k1.
func Secp(r gen.R) Pair { return SecpFrom(r, hd.Scalar(r)) }

// SecpFrom makes the pair of a scalar.
func SecpFrom(r gen.R, n *big.Int) Pair {
	return Pair{SecpID, Al(r, SecpID), ref.SerP(ref.MulG(n)), ref.Ser32(n)}
}

// Sign is the signature by the reference.
func (p Pair) Sign(msg []byte) []byte {
	if p.ID == EdID {
		return ed25519.Sign(ed25519.PrivateKey(p.Priv), msg)
	}
	a, b := ref.SignECDSA(p.Priv, msg)
	return ref.DER(a, b)
}

// Verify is the verdict of the reference; it is not settled for signatures of
// secp256k1 which are not in strict DER.
func (p Pair) Verify(msg, sig []byte) (ok, settled bool) {
	if p.ID == EdID {
		return ed25519.Verify(ed25519.PublicKey(p.Pub), msg, sig), true
	}
	a, b, ok := ref.ParseDER(sig)
	if !ok {
		return false, false
	}
	return ref.VerifyECDSA(p.Pub, msg, a, b), true
}

// Message makes a message.
func Message(r gen.R) []byte {
	switch r.IntN(8) {
	case 0:
		return gen.Pick(r, nil, []byte{})
	case 1:
		return r.Bytes(gen.Pick(r, 1, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129))
	case 2:
		if r.IntN(30) == 0 {
			return r.Bytes(r.Long(1 << 17))
		}
		return r.Bytes(r.IntN(5000))
	}
	return r.Bytes(r.IntN(200))
}

// Extra makes extra data: none, that of an extended key, or any.
func Extra(r gen.R) []byte {
	switch r.IntN(8) {
	case 0, 1:
		return gen.Pick(r, nil, []byte{})
	case 2:
		return hd.XKey(r).Extra()
	case 3:
		return r.Bytes(gen.Pick(r, 1, 2, 3, 4, 5, 39, 40, 41, 127, 128, 129, 191, 221, 222, 223, 224, 254, 255, 256, 257))
	case 4:
		if r.IntN(40) == 0 {
			return r.Bytes(gen.Pick(r, 65470, 65501, 65502, 65503, 65535, 65536, 70000, r.Long(100000)))
		}
		return r.Bytes(r.IntN(3000))
	}
	return r.Bytes(r.IntN(80))
}

// ID of an algorithm.
func ID(a signature.Algorithm) int {
	switch a.(type) {
	case nil:
		return NullID
	}
	switch {
	case signature.SameAlgorithm(a, signature.Null):
		return NullID
	case signature.SameAlgorithm(a, signature.Ed25519):
		return EdID
	case signature.SameAlgorithm(a, signature.Secp256k1):
		return SecpID
	}
	return -1
}
