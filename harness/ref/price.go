package ref

import (
	"math/big"
)

// Price is the published curve in dollars at a number of blocks of 1000 ndau
// sold (a fraction for the approximation): 2^(14 x / last) up to the limit of
// phase 1, then a cubic, then the final price.
func Price(x *big.Float, last, limit int64, inclusive bool) *big.Float {
	c := x.Cmp(F(limit))
	if c < 0 || c == 0 && inclusive {
		return Exp2(Quo(FMul(x, F(14)), F(last)))
	}
	if x.Cmp(F(30000)) < 0 {
		x2 := FMul(x, x)
		x3 := FMul(x2, x)
		p := F(-41633)
		p = FSub(p, Quo(FMul(x, F(8286618)), F(1000000)))
		p = FAdd(p, Quo(FMul(x2, F(167424)), F(100000000)))
		p = FSub(p, Quo(FMul(x3, F(2654015)), F(100000000000000)))
		return p
	}
	return Quo(F(50045083), F(100))
}
