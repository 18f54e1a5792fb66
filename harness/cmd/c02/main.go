// C02: scaled exponential and integer logarithm.
package main

import (
	"math"
	"math/big"

	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/unsigned"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "ratios n/d with denominators of every magnitude (RateDenominator, its neighbours, powers of 10, limits of the range) and numerators at 0, 1, d-1, d, d+1, fractions and random; " +
	"logarithm arguments at, before and after every power of e and of 2, all small numbers and random ones; non-trivial when the value was compared with the 320-bit reference or an error was required; distinct by operation and operands"

var tol = ref.F(3)

// expOracle is the exact value of d*e^(n/d).
func want(n, d uint64) *big.Float {
	return ref.FMul(ref.FU(d), ref.Exp(ref.Quo(ref.FU(n), ref.FU(d))))
}

func doExp(m *mon.M, n, d uint64) {
	m.Do("ExpFrac", func() {
		m.NonTrivial()
		inside := d != 0 && n <= d
		u, uerr := unsigned.ExpFrac(n, d)
		sOK := n <= math.MaxInt64 && d <= math.MaxInt64
		var s int64
		var serr error
		if sOK {
			s, serr = signed.ExpFrac(int64(n), int64(d))
		}
		if !inside {
			m.Event("outside the range")
			m.Check(uerr != nil, "no error", "unsigned gives %d for a ratio outside [0,1]", u)
			if sOK {
				m.Check(serr != nil, "no error", "signed gives %d for a ratio outside [0,1]", s)
			}
			return
		}
		w := want(n, d)
		near := func(x *big.Float) bool { return ref.FAbs(ref.FSub(x, w)).Cmp(tol) <= 0 }
		if uerr == nil {
			m.Event("compared with the reference")
			m.Check(near(ref.FU(u)), "wrong result", "unsigned gives %d, want %s", u, w.Text('f', 3))
		} else {
			m.Event("too large")
			m.Check(d > math.MaxUint64/30, "spurious error", "unsigned: %v", uerr)
		}
		if !sOK {
			return
		}
		if serr == nil {
			m.Check(near(ref.F(s)), "wrong result", "signed gives %d, want %s", s, w.Text('f', 3))
		} else {
			m.Check(d > math.MaxInt64/30, "spurious error", "signed: %v", serr)
		}
		if uerr == nil && serr == nil {
			m.Check(s >= 0 && uint64(s) == u, "disagreement", "signed gives %d, unsigned %d", s, u)
		}
	}, n, d)
}

func doNeg(m *mon.M, n, d int64) {
	if n >= 0 && d > 0 {
		return
	}
	m.Do("ExpFrac negative", func() {
		m.NonTrivial()
		s, err := signed.ExpFrac(n, d)
		m.Check(err != nil, "no error", "signed gives %d for a negative ratio or denominator", s)
	}, n, d)
}

func doLn(m *mon.M, x uint64) {
	if x == 0 {
		return
	}
	m.Do("LnInt", func() {
		m.NonTrivial()
		got, w := unsigned.LnInt(x), ref.LnFloor(x)
		m.Check(got == w, "wrong logarithm", "got %d, want %d", got, w)
	}, x)
}

func main() {
	mon.Main("C02", rule, func(m *mon.M) {
		m.Require("compared with the reference", 5000)
		m.Require("outside the range", 500)
		m.Require("too large", 100)
		m.Do("LnInt(0)", func() { unsigned.LnInt(0) })
		for _, b := range append(append([]uint64{}, ref.ExpBounds...), math.MaxUint64) {
			for k := -3; k <= 3; k++ {
				doLn(m, b+uint64(k))
			}
		}
		for i := 0; i < 64; i++ {
			for k := -1; k <= 1; k++ {
				doLn(m, uint64(1)<<i+uint64(k))
			}
		}
		for x := uint64(1); x < uint64(m.N(300000, 3000000)); x++ {
			doLn(m, x)
		}
		n := m.N(20000, 60000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < n; j++ {
				var d uint64
				switch r.IntN(5) {
				case 0:
					d = gen.RateD
				case 1:
					d = gen.RateD + uint64(r.IntN(2001)) - 1000
				case 2:
					d = gen.Pick(r, uint64(math.MaxUint64/10), math.MaxUint64/20, math.MaxInt64/10, math.MaxInt64/20, math.MaxUint64/27, math.MaxInt64/27, math.MaxUint64/28, math.MaxInt64/28) + uint64(r.IntN(7)) - 3
				default:
					d = r.Gen()
				}
				var n uint64
				switch {
				case d == 0 || r.IntN(12) == 0:
					n = r.Gen()
				case r.IntN(4) == 0:
					n = d + uint64(r.IntN(5)) - 2
				case r.IntN(4) == 0:
					n = r.Gen() % d
				case r.IntN(4) == 0:
					n = uint64(r.IntN(5))
				default:
					n = r.Rand.Uint64() % d
				}
				doExp(m, n, d)
				doLn(m, r.Gen())
				doNeg(m, r.Int64(), r.Int64())
			}
		})
	})
}
