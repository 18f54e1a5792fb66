// Package ref holds independent reference models, written from the
// specifications (BIP32, RFC 6979, SEC1, RFC 8032, RFC 4648, MessagePack, the
// README files of ndau/ndaumath) and not from its code.
package ref

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"math/big"
)

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

// The parameters of secp256k1 (SEC2).
var (
	P  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	Gx = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	Gy = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")

	half  = new(big.Int).Rsh(N, 1)
	one   = big.NewInt(1)
	seven = big.NewInt(7)
)

// Point is an affine point of the curve; a nil X is the point at infinity.
type Point struct{ X, Y *big.Int }

// Inf reports whether p is the point at infinity.
func (p Point) Inf() bool { return p.X == nil }

type jac struct{ x, y, z *big.Int }

func mod(n *big.Int) *big.Int { return n.Mod(n, P) }

func (j jac) double() jac {
	if j.z.Sign() == 0 || j.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	// a = 0
	yy := mod(new(big.Int).Mul(j.y, j.y))
	s := mod(new(big.Int).Mul(j.x, yy))
	s = mod(s.Lsh(s, 2))
	m := mod(new(big.Int).Mul(j.x, j.x))
	m = mod(m.Mul(m, big.NewInt(3)))
	x := new(big.Int).Mul(m, m)
	x = mod(x.Sub(x, new(big.Int).Lsh(s, 1)))
	y4 := mod(new(big.Int).Mul(yy, yy))
	y := new(big.Int).Sub(s, x)
	y.Mul(y, m)
	y = mod(y.Sub(y, y4.Lsh(y4, 3)))
	z := new(big.Int).Mul(j.y, j.z)
	z = mod(z.Lsh(z, 1))
	return jac{x, y, z}
}

// addAffine adds the affine point q.
func (j jac) addAffine(q Point) jac {
	if q.Inf() {
		return j
	}
	if j.z.Sign() == 0 {
		return jac{new(big.Int).Set(q.X), new(big.Int).Set(q.Y), big.NewInt(1)}
	}
	zz := mod(new(big.Int).Mul(j.z, j.z))
	u2 := mod(new(big.Int).Mul(q.X, zz))
	s2 := mod(new(big.Int).Mul(q.Y, mod(new(big.Int).Mul(zz, j.z))))
	h := mod(new(big.Int).Sub(u2, j.x))
	r := mod(new(big.Int).Sub(s2, j.y))
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return j.double()
		}
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	hh := mod(new(big.Int).Mul(h, h))
	hhh := mod(new(big.Int).Mul(hh, h))
	v := mod(new(big.Int).Mul(j.x, hh))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, hhh)
	x = mod(x.Sub(x, new(big.Int).Lsh(v, 1)))
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r)
	y = mod(y.Sub(y, hhh.Mul(hhh, j.y)))
	z := mod(new(big.Int).Mul(j.z, h))
	return jac{x, y, z}
}

func (j jac) affine() Point {
	if j.z.Sign() == 0 {
		return Point{}
	}
	zi := new(big.Int).ModInverse(j.z, P)
	zi2 := mod(new(big.Int).Mul(zi, zi))
	x := mod(new(big.Int).Mul(j.x, zi2))
	y := mod(new(big.Int).Mul(j.y, mod(zi2.Mul(zi2, zi))))
	return Point{x, y}
}

// Mul returns k*p.
func Mul(k *big.Int, p Point) Point {
	acc := jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = acc.double()
		if k.Bit(i) == 1 {
			acc = acc.addAffine(p)
		}
	}
	return acc.affine()
}

// baseTable[i][d] is d * 16^i * G.
var baseTable = func() [][16]Point {
	t := make([][16]Point, 64)
	p := Point{Gx, Gy}
	for i := range t {
		q := jac{p.X, p.Y, big.NewInt(1)}
		t[i][1] = p
		for d := 2; d < 16; d++ {
			q = q.addAffine(p)
			t[i][d] = q.affine()
		}
		p = q.addAffine(p).affine()
	}
	return t
}()

// MulG returns k*G.
func MulG(k *big.Int) Point {
	acc := jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	b := Ser32(new(big.Int).Mod(k, N))
	for i := range baseTable {
		d := b[31-i/2] >> (4 * (i % 2)) & 15
		if d != 0 {
			acc = acc.addAffine(baseTable[i][d])
		}
	}
	return acc.affine()
}

// AddP returns p+q.
func AddP(p, q Point) Point {
	if p.Inf() {
		return q
	}
	return jac{p.X, p.Y, big.NewInt(1)}.addAffine(q).affine()
}

// Ser32 is n as 32 bytes.
func Ser32(n *big.Int) []byte { return n.FillBytes(make([]byte, 32)) }

// SerP is the compressed serialization of a point.
func SerP(p Point) []byte {
	return append([]byte{2 + byte(p.Y.Bit(0))}, Ser32(p.X)...)
}

// ParseP parses a compressed point.
func ParseP(b []byte) (Point, bool) {
	if len(b) != 33 || b[0] != 2 && b[0] != 3 {
		return Point{}, false
	}
	x := new(big.Int).SetBytes(b[1:])
	if x.Cmp(P) >= 0 {
		return Point{}, false
	}
	yy := new(big.Int).Mul(x, x)
	yy.Mul(yy, x)
	yy.Add(yy, seven).Mod(yy, P)
	y := new(big.Int).ModSqrt(yy, P)
	if y == nil {
		return Point{}, false
	}
	if byte(y.Bit(0)) != b[0]&1 {
		y.Sub(P, y)
	}
	return Point{x, y}, true
}

// XKey is an extended key of BIP32.
type XKey struct {
	Private bool
	Key     []byte // 32 bytes private, 33 public
	Chain   []byte // 32 bytes
	Depth   byte
	FP      []byte // 3 bytes
	Num     uint32

	pub []byte
}

// The errors of derivation.
var (
	ErrHardened = errors.New("hardened child of a public key")
	ErrDepth    = errors.New("depth")
	ErrInvalid  = errors.New("invalid child")
	ErrSeed     = errors.New("seed")
)

// Master is the master key of a seed.
func Master(seed []byte) (*XKey, error) {
	if len(seed) < 16 || len(seed) > 64 {
		return nil, ErrSeed
	}
	h := hmac.New(sha512.New, []byte("ndau seed"))
	h.Write(seed)
	i := h.Sum(nil)
	k := new(big.Int).SetBytes(i[:32])
	if k.Sign() == 0 || k.Cmp(N) >= 0 {
		return nil, ErrSeed
	}
	return &XKey{Private: true, Key: i[:32], Chain: i[32:], FP: []byte{0, 0, 0}}, nil
}

// Pub is the public key bytes of k.
func (k *XKey) Pub() []byte {
	if !k.Private {
		return k.Key
	}
	if k.pub == nil {
		k.pub = SerP(MulG(new(big.Int).SetBytes(k.Key)))
	}
	return k.pub
}

// Fingerprint of k as a parent.
func (k *XKey) Fingerprint() []byte {
	a := sha256.Sum256(k.Pub())
	b := sha256.Sum256(a[:])
	return b[:3]
}

// Child derives a child.
func (k *XKey) Child(i uint32) (*XKey, error) {
	if k.Depth == 255 {
		return nil, ErrDepth
	}
	var data []byte
	if i >= 1<<31 {
		if !k.Private {
			return nil, ErrHardened
		}
		data = append([]byte{0}, k.Key...)
	} else {
		data = append([]byte{}, k.Pub()...)
	}
	data = binary.BigEndian.AppendUint32(data, i)
	h := hmac.New(sha512.New, k.Chain)
	h.Write(data)
	il := h.Sum(nil)
	l := new(big.Int).SetBytes(il[:32])
	if l.Cmp(N) >= 0 || l.Sign() == 0 {
		return nil, ErrInvalid
	}
	c := &XKey{Private: k.Private, Chain: il[32:], Depth: k.Depth + 1, FP: k.Fingerprint(), Num: i}
	if k.Private {
		n := new(big.Int).SetBytes(k.Key)
		n.Add(n, l).Mod(n, N)
		if n.Sign() == 0 {
			return nil, ErrInvalid
		}
		c.Key = Ser32(n)
		return c, nil
	}
	p, ok := ParseP(k.Key)
	if !ok {
		return nil, ErrInvalid
	}
	q := AddP(MulG(l), p)
	if q.Inf() {
		return nil, ErrInvalid
	}
	c.Key = SerP(q)
	return c, nil
}

// Public is the public counterpart of k.
func (k *XKey) Public() *XKey {
	c := *k
	c.Private = false
	c.Key = k.Pub()
	return &c
}

// Extra is the serialized rest of the key: depth, parent fingerprint, child
// number, chain code.
func (k *XKey) Extra() []byte {
	b := append([]byte{k.Depth}, k.FP...)
	b = binary.BigEndian.AppendUint32(b, k.Num)
	return append(b, k.Chain...)
}

// Text is the text of the key in ndau's format.
func (k *XKey) Text() string {
	if k.Private {
		return "npvt" + KeyText(2, k.Key, k.Extra())
	}
	return "npub" + KeyText(2, k.Key, k.Extra())
}

// RFC6979 returns the deterministic nonce for a private key and a hash.
func rfc6979(x *big.Int, h1 []byte) *big.Int {
	// q has 256 bits
	bo := func(b []byte) []byte {
		z := new(big.Int).SetBytes(b)
		return Ser32(z.Mod(z, N))
	}
	mac := func(k []byte, parts ...[]byte) []byte {
		h := hmac.New(sha256.New, k)
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	v := bytes.Repeat([]byte{1}, 32)
	k := make([]byte, 32)
	k = mac(k, v, []byte{0}, Ser32(x), bo(h1))
	v = mac(k, v)
	k = mac(k, v, []byte{1}, Ser32(x), bo(h1))
	v = mac(k, v)
	for {
		v = mac(k, v)
		n := new(big.Int).SetBytes(v)
		if n.Sign() > 0 && n.Cmp(N) < 0 {
			return n
		}
		k = mac(k, v, []byte{0})
		v = mac(k, v)
	}
}

// SignECDSA signs the SHA-256 of a message by RFC 6979, with low S.
func SignECDSA(priv []byte, msg []byte) (r, s *big.Int) {
	h := sha256.Sum256(msg)
	x := new(big.Int).SetBytes(priv)
	k := rfc6979(x, h[:])
	p := MulG(k)
	r = new(big.Int).Mod(p.X, N)
	s = new(big.Int).Mul(r, x)
	s.Add(s, new(big.Int).SetBytes(h[:]))
	s.Mul(s, new(big.Int).ModInverse(k, N)).Mod(s, N)
	if s.Cmp(half) > 0 {
		s.Sub(N, s)
	}
	return r, s
}

// VerifyECDSA verifies a signature of the SHA-256 of a message.
func VerifyECDSA(pub []byte, msg []byte, r, s *big.Int) bool {
	q, ok := ParseP(pub)
	if !ok || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	h := sha256.Sum256(msg)
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(new(big.Int).SetBytes(h[:]), w)
	u1.Mod(u1, N)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, N)
	p := AddP(MulG(u1), Mul(u2, q))
	if p.Inf() {
		return false
	}
	return new(big.Int).Mod(p.X, N).Cmp(r) == 0
}

// DER encodes a signature.
func DER(r, s *big.Int) []byte {
	enc := func(n *big.Int) []byte {
		b := n.Bytes()
		if len(b) == 0 || b[0] >= 0x80 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	b := append(enc(r), enc(s)...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

// ParseDER parses a strictly encoded signature.
func ParseDER(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 8 || b[0] != 0x30 || int(b[1]) != len(b)-2 || b[1] >= 0x80 {
		return nil, nil, false
	}
	rest := b[2:]
	var out [2]*big.Int
	for i := range out {
		if len(rest) < 3 || rest[0] != 2 || rest[1] == 0 || int(rest[1]) > len(rest)-2 {
			return nil, nil, false
		}
		v := rest[2 : 2+int(rest[1])]
		rest = rest[2+int(rest[1]):]
		if v[0] >= 0x80 || len(v) > 1 && v[0] == 0 && v[1] < 0x80 {
			return nil, nil, false
		}
		out[i] = new(big.Int).SetBytes(v)
	}
	if len(rest) != 0 {
		return nil, nil, false
	}
	return out[0], out[1], true
}

// ParseBER parses a signature the way it is laid out, with any padding of the
// numbers and any bytes after it.
func ParseBER(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 2 || b[0] != 0x30 || int(b[1]) > len(b)-2 {
		return nil, nil, false
	}
	rest := b[2 : 2+int(b[1])]
	var out [2]*big.Int
	for i := range out {
		if len(rest) < 2 || rest[0] != 2 || int(rest[1]) > len(rest)-2 {
			return nil, nil, false
		}
		out[i] = new(big.Int).SetBytes(rest[2 : 2+int(rest[1])])
		rest = rest[2+int(rest[1]):]
	}
	return out[0], out[1], true
}
