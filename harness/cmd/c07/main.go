// C07: approximate prices.
package main

import (
	"math"

	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "all blocks of the curve and amounts inside them and beyond; prices at, just below and just above each block's price and arbitrary floating point values; purchases which start and end at, near and away from block and phase boundaries; " +
	"non-trivial when the result was compared with the formula; distinct by arguments"

const (
	block    = 1000 * gen.Napu
	lastUnit = 29999 * 1000
)

func want(n int64) float64 {
	x := ref.Quo(ref.F(n/gen.Napu), ref.F(1000))
	w, _ := ref.Price(x, 9999, 10000, false).Float64()
	return w
}

func near(a, b, rel float64) bool {
	return math.Abs(a-b) <= rel*math.Max(math.Abs(a), math.Abs(b))
}

func approx(m *mon.M, n int64) {
	m.Do("ApproxPriceAtUnit", func() {
		m.NonTrivial()
		got, w := pricecurve.ApproxPriceAtUnit(types.Ndau(n)), want(n)
		// the terms of the cubic cancel: a few more digits are lost there
		m.Check(near(got, w, 1e-9), "wrong price", "got %v, want %v", got, w)
	}, n)
}

func unitAt(m *mon.M, p float64) {
	m.Do("ApproxUnitAtPrice", func() {
		u := pricecurve.ApproxUnitAtPrice(p)
		m.Event("inverse lookup")
		if math.IsNaN(p) {
			return
		}
		m.NonTrivial()
		if !m.Check(u >= 0 && u <= lastUnit && u%1000 == 0, "no such block", "got %d", u) {
			return
		}
		at := func(u int) float64 { return pricecurve.ApproxPriceAtUnit(types.Ndau(int64(u) * gen.Napu)) }
		m.Check(u == 0 || at(u) < p, "too high", "got %d, where the price is %v already", u, at(u))
		m.Check(u == lastUnit || p <= at(u+1000), "too low", "got %d, but a block later the price is %v", u, at(u+1000))
	}, p)
}

// total is the specified total price of whole ndau.
func total(num, sold int64) float64 {
	t := 0.0
	for num > 0 {
		part := 1000 - sold%1000
		if part > num {
			part = num
		}
		t += float64(part) * priceCache(sold)
		sold += part
		num -= part
	}
	return t
}

var starts [30001]float64

func priceCache(sold int64) float64 {
	if b := sold / 1000; sold%1000 == 0 || b >= 30000 {
		if b > 30000 {
			b = 30000
		}
		return starts[b]
	}
	return want(sold * gen.Napu)
}

func buy(m *mon.M, num, sold int64) {
	m.Do("ApproxTotalPriceFor", func() {
		m.NonTrivial()
		got := pricecurve.ApproxTotalPriceFor(types.Ndau(num*gen.Napu), types.Ndau(sold*gen.Napu))
		w := total(num, sold)
		m.Check(near(got, w, 1e-8), "wrong total", "got %v, want %v", got, w)
		b := sold/1000 + 1
		if sold%1000 != 0 && num > 1000-sold%1000 {
			m.Event("starts inside a block and leaves it")
		}
		if b*1000 < sold+num {
			first := b*1000 - sold
			a1 := pricecurve.ApproxTotalPriceFor(types.Ndau(first*gen.Napu), types.Ndau(sold*gen.Napu))
			a2 := pricecurve.ApproxTotalPriceFor(types.Ndau((num-first)*gen.Napu), types.Ndau((sold+first)*gen.Napu))
			m.Check(near(a1+a2, got, 1e-8), "not additive", "%v at once, but %v + %v in two steps", got, a1, a2)
			m.Event("bought in two steps")
		}
	}, "num", num, "sold", sold)
}

func main() {
	for b := range starts {
		starts[b] = want(int64(b) * block)
	}
	mon.Main("C07", rule, func(m *mon.M) {
		m.Require("inverse lookup", 30000)
		m.Require("bought in two steps", 1000)
		m.Require("starts inside a block and leaves it", 1000)
		m.Par("blocks", 16, func(m *mon.M, s int) {
			r := gen.R{Rand: m.Rand}
			prev := 0.0
			for b := int64(s) * 1890; b < int64(s+1)*1890; b++ {
				approx(m, b*block)
				if b%3 == 0 || m.Thorough {
					approx(m, b*block+r.Int64N(block))
				}
				p := pricecurve.ApproxPriceAtUnit(types.Ndau(b * block))
				if p < prev {
					m.Do("monotonic", func() { m.Failf("price falls", "%v, then %v", prev, p) }, b)
				}
				prev = p
				unitAt(m, p)
				unitAt(m, math.Nextafter(p, 0))
				unitAt(m, math.Nextafter(p, 1e9))
			}
		})
		for _, p := range []float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 500450.83, 500450.84, 16384, 16384.6} {
			unitAt(m, p)
		}
		n := m.N(25000, 80000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < n; j++ {
				unitAt(m, math.Exp(r.Float64()*16-1))
				unitAt(m, math.Float64frombits(r.Rand.Uint64()))
				approx(m, r.NatTo(int64(1)<<(20+r.IntN(43))))
				var sold, num int64
				switch r.IntN(4) {
				case 0:
					sold = int64(r.IntN(31000)) * 1000
				case 1:
					sold = int64(r.IntN(31000))*1000 + int64(r.IntN(3)) - 1
				case 2:
					sold = gen.Pick(r, int64(0), 10000, 30000)*1000 + r.Int64N(5000) - 2500
				default:
					sold = r.Int64N(31000000)
				}
				if sold < 0 {
					sold = 0
				}
				switch r.IntN(5) {
				case 0:
					num = 1000 - sold%1000 + int64(r.IntN(3)) - 1
				case 1:
					num = r.Int64N(2000)
				case 2:
					num = int64(r.IntN(20)) * 1000
				case 3:
					num = r.Int64N(50000)
				default:
					if r.IntN(20) == 0 {
						num = r.Int64N(31000000)
					} else {
						num = r.Int64N(10)
					}
				}
				buy(m, num, sold)
				if r.IntN(8) == 0 {
					// parts of an ndau: no value is specified, but it returns
					m.Do("ApproxTotalPriceFor of napu", func() {
						t := pricecurve.ApproxTotalPriceFor(types.Ndau(num*gen.Napu+r.Int64N(gen.Napu)), types.Ndau(sold*gen.Napu+r.Int64N(gen.Napu)))
						m.Check(t >= 0 && !math.IsInf(t, 0), "no price", "got %v", t)
					}, num, sold)
				}
			}
		})
	})
}
