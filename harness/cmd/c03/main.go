// C03: the EAI payout.
package main

import (
	"math"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/eaigen"
	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "accounts with random and published rate tables, ages, update times and locks placed at and next to the table's rows, the unlock and notice times and each other; balances of every magnitude; both settings of the unlock correction; " +
	"rates below zero or very large; non-trivial when the counted interval is not empty and the payout was compared with the 320-bit model or an error was required; distinct by all arguments"

var (
	maxQ = ref.F(math.MaxInt64)
	// growth is in units of 1e-12, in 64 bits
	maxFactor  = ref.F(math.MaxInt64 / gen.RateD * 2 * 999 / 1000)
	justBelow1 = ref.Quo(ref.F(999999999), ref.F(1000000000))
)

func one(m *mon.M, bal, block, last, waa int64, lock *ref.Lock, t []ref.Step, fix bool) {
	if lock != nil && lock.Unlocks != nil {
		// notice was given at some time before the block
		n := *lock.Unlocks - lock.Notice
		if *lock.Unlocks < 0 || n < 0 || n > block {
			return
		}
	}
	if block < last || last < 0 || waa < 0 {
		return
	}
	if lock != nil && waa > math.MaxInt64-lock.Notice {
		return // no Duration
	}
	m.Do("Calculate", func() {
		w, exps, k, negative, most := ref.EAI(bal, block, last, waa, lock, t, fix)
		table := eaigen.Table(t)
		l := eaigen.Iface(lock)
		calc := func() (types.Ndau, error) {
			return eai.Calculate(types.Ndau(bal), types.Timestamp(block), types.Timestamp(last), types.Duration(waa), l, table, fix)
		}
		got, err := calc()
		got2, err2 := calc()
		m.Check(got == got2 && (err == nil) == (err2 == nil), "not deterministic", "%d %v, then %d %v", got, err, got2, err2)
		m.Check(eaigen.Same(t, table), "table changed", "%v", table)
		m.Check(eaigen.Unchanged(l), "lock changed", "%v", l)
		// the exponential is one of exponents up to 1, and the growth has 64 bits
		large := most.Cmp(justBelow1) > 0
		total := ref.F(0)
		for _, e := range exps {
			total = ref.FAdd(total, e)
		}
		total = ref.Clamp(total)
		if k > 0 {
			m.NonTrivial()
		}
		// units of 1e-12 in the factor: per period the truncated exponent,
		// the exponential and the product
		factor := ref.Exp(total)
		if factor.Cmp(maxFactor) > 0 {
			large = true
			m.Event("growth of more than 64 bits")
		}
		tol := ref.FMul(ref.FMul(ref.F(bal), factor), ref.Quo(ref.F(int64(8*(k+3))), ref.F(gen.RateD)))
		tol = ref.FAdd(tol, ref.F(2))
		if negative {
			m.Event("a negative rate")
		}
		if err != nil {
			m.Check(got == 0, "amount with an error", "%d, %v", got, err)
			if negative {
				m.Event("error for a negative rate")
			} else if !large && ref.FAdd(w, tol).Cmp(maxQ) < 0 {
				m.Failf("spurious error", "%v; the payout is %s", err, w.Text('f', 3))
			} else {
				m.Event("error where the result is out of range")
			}
			return
		}
		if ref.FSub(w, tol).Cmp(maxQ) > 0 {
			m.Failf("no error", "got %d; the payout is %s", got, w.Text('f', 0))
			return
		}
		m.Event("compared with the model")
		if factor.Cmp(ref.F(1000)) > 0 {
			m.Event("thousandfold growth")
		}
		switch {
		case lock == nil:
			m.Event("no lock")
		case lock.Unlocks == nil:
			m.Event("locked")
		case *lock.Unlocks >= block:
			m.Event("notified")
		case last > *lock.Unlocks:
			m.Event("unlocked before the last update")
		default:
			m.Event("unlocked since the last update")
		}
		if k > 2 {
			m.Event("several rate periods")
		}
		m.Check(got >= 0, "negative", "got %d", got)
		if big := ref.FAdd(w, tol); big.Sign() < 0 {
			m.Failf("no error", "got %d; the payout is %s", got, w.Text('f', 0))
			return
		}
		if ref.FAbs(ref.FSub(ref.F(int64(got)), w)).Cmp(tol) > 0 {
			f, _ := tol.Float64()
			m.Failf("wrong payout", "got %d, want %s (tolerance %g, %d periods)", got, w.Text('f', 3), f, k)
		}
	}, "balance", bal, "block", block, "last", last, "waa", waa, eaigen.LockText(lock), eaigen.TableText(t), fix)
}

// wild is a rate below zero, or which is very large.
func wild(r gen.R, rate int64) int64 {
	switch r.IntN(4) {
	case 0:
		return -rate - 1
	case 1:
		return -r.NatTo(math.MaxInt64)
	case 2:
		return r.NatTo(math.MaxInt64)
	}
	return int64(r.IntN(3)) - 2 + gen.Pick[int64](r, 0, math.MaxInt64-1, math.MaxInt64/2, math.MinInt64+2)
}

func main() {
	mon.Main("C03", rule, func(m *mon.M) {
		for _, e := range []string{"no lock", "locked", "notified", "unlocked before the last update", "unlocked since the last update", "several rate periods"} {
			m.Require(e, 1000)
		}
		m.Require("error where the result is out of range", 100)
		m.Require("error for a negative rate", 1000)
		m.Require("thousandfold growth", 1000)
		m.Require("growth of more than 64 bits", 1000)
		n := m.N(40000, 250000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < n; j++ {
				t := eaigen.RandTable(r)
				waa := eaigen.NatDur(r, t)
				block := 10*int64(gen.Year) + r.Int64N(10*gen.Year)
				elapsed := eaigen.NatDur(r, t, waa)
				if r.IntN(16) == 0 {
					// long, at rates of which none is too large
					t = nil
					for k, n := int64(0), int64(10+r.IntN(50)); k < n; k++ {
						t = append(t, ref.Step{From: k * gen.Year, Rate: gen.RateD * int64(30+r.IntN(70)) / 100})
					}
					waa = r.Int64N(int64(len(t)+1) * gen.Year)
					if r.IntN(3) != 0 {
						waa = r.Int64N(30 * gen.Year)
					}
					block += waa
					elapsed = waa
				} else if r.IntN(4) == 0 {
					elapsed = waa + int64(r.IntN(3)) - 1
				}
				if elapsed < 0 || elapsed > block {
					elapsed = 0
				}
				if r.IntN(12) == 0 {
					// at the end of time, with tiny rates
					block = math.MaxInt64 - int64(r.IntN(3))*r.NatTo(math.MaxInt64/2)
					elapsed = r.NatTo(block)
					waa = gen.Pick(r, elapsed, waa, r.NatTo(math.MaxInt64-20*gen.Year))
					for i := range t {
						t[i].Rate = r.NatTo(int64(1) << r.IntN(30))
					}
					m.Event("far times")
				}
				last := block - elapsed
				base := gen.Pick(r, block, last, block, block-waa)
				lock := eaigen.RandLock(r, t, base, waa, elapsed)
				// rates out of every range
				if r.IntN(12) == 0 && len(t) > 0 {
					i := r.IntN(len(t))
					t[i].Rate = wild(r, t[i].Rate)
				}
				if r.IntN(12) == 0 && lock != nil {
					lock.Bonus = wild(r, lock.Bonus)
				}
				if lock != nil && r.IntN(3) == 0 {
					// a row at the effective age
					waa = eaigen.NatDur(r, t, lock.Notice)
				}
				bal := r.NatTo(int64(1) << (10 + r.IntN(53)))
				if r.IntN(20) == 0 {
					bal = math.MaxInt64 - int64(r.IntN(5))
				}
				one(m, bal, block, last, waa, lock, t, r.IntN(2) == 0)
			}
		})
	})
}
