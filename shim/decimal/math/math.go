// Package math is the stand-in's counterpart of decimal/math.
package math

import (
	"math/big"

	"github.com/ericlagergren/decimal"
)

// Exp sets z to e^x, to about 50 digits.
func Exp(z, x *decimal.Big) *decimal.Big {
	const prec = 256
	xf := new(big.Float).SetPrec(prec).SetRat(x.Rat())
	sum := new(big.Float).SetPrec(prec).SetInt64(1)
	term := new(big.Float).SetPrec(prec).SetInt64(1)
	for i := int64(1); i < 400; i++ {
		term.Mul(term, xf)
		term.Quo(term, new(big.Float).SetPrec(prec).SetInt64(i))
		sum.Add(sum, term)
	}
	r, _ := sum.Rat(nil)
	return z.SetRat(r)
}
