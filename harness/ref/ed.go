package ref

import (
	"crypto/sha512"
	"math/big"
)

// An Ed25519 after RFC 8032, on big numbers: slow, and independent of the
// implementation in the standard library.

var (
	edP = hexInt("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
	edL = hexInt("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	edD = hexInt("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3")
	edB = func() edPoint {
		y := new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), edP))
		y.Mod(y, edP)
		p, _ := edDecompress(edLE(y))
		return p
	}()
)

type edPoint struct{ x, y, z, t *big.Int }

func edMod(n *big.Int) *big.Int { return n.Mod(n, edP) }

func edLE(n *big.Int) []byte {
	b := n.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

func edInt(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

func edAdd(p, q edPoint) edPoint {
	mul := func(a, b *big.Int) *big.Int { return edMod(new(big.Int).Mul(a, b)) }
	sub := func(a, b *big.Int) *big.Int { return edMod(new(big.Int).Sub(a, b)) }
	add := func(a, b *big.Int) *big.Int { return edMod(new(big.Int).Add(a, b)) }
	a := mul(sub(p.y, p.x), sub(q.y, q.x))
	b := mul(add(p.y, p.x), add(q.y, q.x))
	c := mul(mul(add(p.t, p.t), q.t), edD)
	d := mul(add(p.z, p.z), q.z)
	e, f, g, h := sub(b, a), sub(d, c), add(d, c), add(b, a)
	return edPoint{mul(e, f), mul(g, h), mul(f, g), mul(e, h)}
}

func edMul(k *big.Int, p edPoint) edPoint {
	r := edPoint{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}

func edCompress(p edPoint) []byte {
	zi := new(big.Int).ModInverse(p.z, edP)
	x := edMod(new(big.Int).Mul(p.x, zi))
	y := edMod(new(big.Int).Mul(p.y, zi))
	b := edLE(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

func edDecompress(b []byte) (edPoint, bool) {
	c := append([]byte{}, b...)
	sign := c[31] >> 7
	c[31] &= 0x7f
	y := edInt(c)
	if y.Cmp(edP) >= 0 {
		return edPoint{}, false
	}
	y2 := edMod(new(big.Int).Mul(y, y))
	u := edMod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := edMod(new(big.Int).Add(new(big.Int).Mul(edD, y2), big.NewInt(1)))
	x2 := edMod(u.Mul(u, new(big.Int).ModInverse(v, edP)))
	x := new(big.Int).ModSqrt(x2, edP)
	if x == nil || x.Sign() == 0 && sign == 1 {
		return edPoint{}, false
	}
	if byte(x.Bit(0)) != sign {
		x = edMod(x.Neg(x))
	}
	return edPoint{x, y, big.NewInt(1), edMod(new(big.Int).Mul(x, y))}, true
}

func edHash(parts ...[]byte) []byte {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// EdSign signs with the seed of a private key, and returns the public key too.
func EdSign(seed, msg []byte) (pub, sig []byte) {
	h := edHash(seed)
	a := append([]byte{}, h[:32]...)
	a[0] &= 248
	a[31] = a[31]&63 | 64
	s := edInt(a)
	pub = edCompress(edMul(s, edB))
	r := edInt(edHash(h[32:], msg))
	r.Mod(r, edL)
	R := edCompress(edMul(r, edB))
	k := edInt(edHash(R, pub, msg))
	k.Mod(k, edL)
	S := k.Mul(k, s)
	S.Add(S, r).Mod(S, edL)
	return pub, append(R, edLE(S)...)
}

// EdVerify verifies (without the cofactor).
func EdVerify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	A, ok := edDecompress(pub)
	if !ok {
		return false
	}
	S := edInt(sig[32:])
	if S.Cmp(edL) >= 0 {
		return false
	}
	k := edInt(edHash(sig[:32], pub, msg))
	k.Mod(k, edL)
	A.x = edMod(new(big.Int).Neg(A.x))
	A.t = edMod(new(big.Int).Neg(A.t))
	return string(edCompress(edAdd(edMul(S, edB), edMul(k, A)))) == string(sig[:32])
}

// EdL is the order of the base point of Ed25519.
func EdL() *big.Int { return new(big.Int).Set(edL) }

// EdLE writes a number below 2^256 as 32 little-endian bytes.
func EdLE(n *big.Int) []byte { return edLE(n) }

// EdInt reads a little-endian number.
func EdInt(b []byte) *big.Int { return edInt(b) }
