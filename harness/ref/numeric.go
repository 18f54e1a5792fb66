package ref

import (
	"math/big"
)

const prec = 320

// F is an exact or high precision number.
func F(i int64) *big.Float { return new(big.Float).SetPrec(prec).SetInt64(i) }

// FU is the unsigned counterpart of F.
func FU(i uint64) *big.Float { return new(big.Float).SetPrec(prec).SetUint64(i) }

// FInt is n as a number.
func FInt(n *big.Int) *big.Float { return new(big.Float).SetPrec(prec).SetInt(n) }

func nf() *big.Float { return new(big.Float).SetPrec(prec) }

// Quo is a/b.
func Quo(a, b *big.Float) *big.Float { return nf().Quo(a, b) }

// FMul is a*b.
func FMul(a, b *big.Float) *big.Float { return nf().Mul(a, b) }

// FAdd is a+b.
func FAdd(a, b *big.Float) *big.Float { return nf().Add(a, b) }

// FSub is a-b.
func FSub(a, b *big.Float) *big.Float { return nf().Sub(a, b) }

// FAbs is |a|.
func FAbs(a *big.Float) *big.Float { return nf().Abs(a) }

// Exp is e^x.
func Exp(x *big.Float) *big.Float {
	if x.Sign() < 0 {
		return Quo(F(1), Exp(nf().Neg(x)))
	}
	// halve until small, then square
	n := 0
	y := nf().Set(x)
	limit := nf().SetMantExp(F(1), -16)
	for y.Cmp(limit) > 0 {
		y.SetMantExp(y, -1)
		n++
	}
	sum, term := F(1), F(1)
	eps := nf().SetMantExp(F(1), -prec)
	for i := int64(1); ; i++ {
		term = Quo(FMul(term, y), F(i))
		if term.Cmp(eps) < 0 {
			break
		}
		sum = FAdd(sum, term)
	}
	for ; n > 0; n-- {
		sum = FMul(sum, sum)
	}
	return sum
}

// Ln2 is the natural logarithm of 2.
var Ln2 = func() *big.Float {
	// 2*atanh(1/3)
	s, t, nine := F(0), Quo(F(1), F(3)), F(9)
	for i := int64(1); i < 400; i += 2 {
		s = FAdd(s, Quo(t, F(i)))
		t = Quo(t, nine)
	}
	return FMul(s, F(2))
}()

// Exp2 is 2^x.
func Exp2(x *big.Float) *big.Float { return Exp(FMul(x, Ln2)) }

// ExpBounds[i] is the smallest integer whose natural logarithm is at least i.
var ExpBounds = func() []uint64 {
	var out []uint64
	for i := int64(0); ; i++ {
		f := Exp(F(i))
		n, acc := f.Int(nil)
		if i > 0 && acc != big.Exact {
			n.Add(n, big.NewInt(1))
		}
		if !n.IsUint64() {
			return out
		}
		out = append(out, n.Uint64())
	}
}()

// LnFloor is the largest whole number not above ln x, for x > 0.
func LnFloor(x uint64) int {
	i := -1
	for _, b := range ExpBounds {
		if x < b {
			break
		}
		i++
	}
	return i
}
