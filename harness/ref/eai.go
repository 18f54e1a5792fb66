package ref

import (
	"math/big"
	"sort"
)

// Step is a row of a rate table: the rate from some age on.
type Step struct{ From, Rate int64 }

// RateAt is the rate at an age.
func RateAt(t []Step, age int64) int64 {
	r := int64(0)
	for _, s := range t {
		if s.From <= age {
			r = s.Rate
		}
	}
	return r
}

// Integral is the sum of rate x time over the ages from..to (none if to <= from),
// where the rate stays what it is at age frozen from then on, if there is such
// an age, and bonus is added; with the number of periods in it, and whether one of
// them has a rate below zero (or one which no Rate holds), and the largest
// part of the sum at one rate.
func Integral(t []Step, from, to int64, frozen *int64, bonus int64) (sum *big.Int, periods int, negative bool, most *big.Int) {
	sum, most = new(big.Int), new(big.Int)
	if to <= from {
		return sum, 0, false, most
	}
	run, at := new(big.Int), new(big.Int)
	cuts := []int64{from, to}
	for _, s := range t {
		if s.From > from && s.From < to {
			cuts = append(cuts, s.From)
		}
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	for i := 0; i+1 < len(cuts); i++ {
		age := cuts[i]
		if frozen != nil && age > *frozen {
			age = *frozen
		}
		p := new(big.Int).Add(big.NewInt(RateAt(t, age)), big.NewInt(bonus))
		negative = negative || p.Sign() < 0 || !p.IsInt64()
		if p.Cmp(at) != 0 {
			at.Set(p)
			run.SetInt64(0)
		}
		sum.Add(sum, p.Mul(p, big.NewInt(cuts[i+1]-cuts[i])))
		if run.Add(run, p).Cmp(most) > 0 {
			most.Set(run)
		}
	}
	return sum, len(cuts) - 1, negative, most
}

// Lock is the lock of an account.
type Lock struct {
	Notice, Bonus int64
	Unlocks       *int64
}

// EAI is the model of the payout. exps are the exponents of its parts: the sum
// of rate x time, as a fraction; most is the largest one at a single rate.
func EAI(balance, block, last, waa int64, lock *Lock, t []Step, fix bool) (eai *big.Float, exps []*big.Float, periods int, negative bool, most *big.Float) {
	scale := FMul(F(1000000000000), F(365*24*3600*1000000))
	most = F(0)
	part := func(block, last, waa int64, lock *Lock) {
		from := waa - (block - last)
		if from < 0 {
			from = 0
		}
		to := waa
		var bonus int64
		var frozen *int64
		if lock != nil {
			bonus = lock.Bonus
			if lock.Unlocks != nil {
				// the effective age at unlocking
				f := waa + *lock.Unlocks - block
				frozen = &f
			}
			if to > from {
				from += lock.Notice
				to += lock.Notice
			} else {
				to = from
			}
		}
		n, k, neg, p := Integral(t, from, to, frozen, bonus)
		exps = append(exps, Quo(FInt(n), scale))
		if q := Quo(FInt(p), scale); q.Cmp(most) > 0 {
			most = q
		}
		periods += k
		negative = negative || neg
	}
	switch {
	case lock == nil || lock.Unlocks == nil || *lock.Unlocks >= block:
		part(block, last, waa, lock)
	case fix && last > *lock.Unlocks:
		part(block, last, waa, nil)
	default:
		part(*lock.Unlocks, last, waa-(block-*lock.Unlocks), lock)
		part(block, *lock.Unlocks, waa, nil)
	}
	sum := F(0)
	for _, e := range exps {
		sum = FAdd(sum, e)
	}
	return FMul(F(balance), FSub(Exp(Clamp(sum)), F(1))), exps, periods, negative, most
}

// EAIRate is the model of the current rate.
func EAIRate(waa int64, lock *Lock, t []Step, at int64) int64 {
	switch {
	case lock == nil || lock.Unlocks != nil && at >= *lock.Unlocks:
		return RateAt(t, waa)
	case lock.Unlocks == nil:
		return RateAt(t, waa+lock.Notice) + lock.Bonus
	default:
		return RateAt(t, waa+*lock.Unlocks-at) + lock.Bonus
	}
}

// Clamp keeps an exponent where its exponential can be computed.
func Clamp(x *big.Float) *big.Float {
	limit := F(1000000)
	if x.Sign() < 0 {
		limit = F(-1000000)
	}
	if FAbs(x).Cmp(F(1000000)) > 0 {
		return limit
	}
	return x
}
