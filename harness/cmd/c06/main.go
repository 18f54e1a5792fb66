// C06: the exact price curve.
package main

import (
	"math"
	"math/big"
	"math/bits"

	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "every block of 1000 ndau from 0 to 30100 (all of the curve) at its first and last unit and inside, and amounts beyond of every magnitude; both variants; " +
	"non-trivial always: each price is compared with the 320-bit formula, with its neighbours in the block and with the block before; distinct by amount"

const block = 1000 * gen.Napu

type variant struct {
	name string
	last int64
	f    func(types.Ndau) (pricecurve.Nanocent, error)

	exactly []int64
}

var variants = []variant{
	{"PriceAtUnit", 9999, pricecurve.PriceAtUnit, nil},
	{"PriceAtUnit9999", 9999, pricecurve.PriceAtUnit9999, nil},
	{"PriceAtUnit10000", 10000, pricecurve.PriceAtUnit10000, nil},
}

var dollar = ref.F(100000000000)

// want is the formula in nanocents, and how far below and above it the
// fixed-point result may be.
func want(b int64, v variant) (w, below, above *big.Float) {
	w = ref.FMul(ref.Price(ref.F(b), v.last, 10000, true), dollar)
	switch {
	case b <= 1:
		return w, rounding(v), rounding(v)
	case b <= 10000:
		// from the block before the last power of 2, the price of which is rounded,
		// by k multiplications with the ratio of one block, which has 16 digits;
		// the products are rounded down to a nanocent
		k := b - 1<<(bits.Len64(uint64(b))-1) + 1
		growth := ref.Exp2(ref.Quo(ref.F(14*k), ref.F(v.last)))
		one := ref.FSub(ref.Exp2(ref.Quo(ref.F(14), ref.F(v.last))), ref.F(1))
		base := ref.FMul(growth, rounding(v))
		digits := ref.FMul(ref.FMul(w, ref.F(k)), ref.Quo(ref.F(6), ref.F(10_000_000_000_000_000)))
		above = ref.FAdd(ref.FAdd(base, digits), ref.Quo(ref.F(1), ref.F(10)))
		below = ref.FAdd(above, ref.Quo(ref.FSub(growth, ref.F(1)), one))
	case b < 30000:
		// terms in whole dollars: the first order and the third (rounded down twice)
		// are subtracted, the second is added
		above = ref.FMul(dollar, ref.Quo(ref.F(228), ref.F(100)))
		below = dollar
	default:
		below, above = ref.F(0), ref.F(0)
	}
	return
}

// rounding of the prices the fixed-point result starts from; those of the old
// variant are not all rounded to nearest, and stay as they are for the replay of
// old blocks.
func rounding(v variant) *big.Float {
	if v.last == 10000 {
		return ref.F(1)
	}
	return ref.Quo(ref.F(6), ref.F(10))
}

// near tells whether the price is as near to the formula as it can be.
func near(m *mon.M, p, b int64, v variant) {
	w, below, above := want(b, v)
	d := ref.FSub(ref.F(p), w)
	if d.Sign() >= 0 && d.Cmp(above) > 0 || d.Sign() < 0 && ref.FAbs(d).Cmp(below) > 0 {
		lo, _ := below.Float64()
		hi, _ := above.Float64()
		m.Failf("wrong price", "got %d, want %s (tolerance -%g +%g)", p, w.Text('f', 1), lo, hi)
	}
	if e := v.exact(b); p != e {
		m.Failf("not the price of a replay", "got %d, want %d", p, e)
	}
}

// exact is the price to the last nanocent, which replaying the sales depends on:
// from the rounded price of the block before the last power of 2, multiplied once
// for each further block with the ratio of one block in 16 digits, every product
// rounded down to a nanocent; after that the terms of the cubic rounded down to
// dollars, the cube divided in two steps.
func (v *variant) exact(b int64) int64 {
	switch {
	case b <= 10000:
		return v.exactly[b]
	case b < 30000:
		quo := func(a, n, d int64) int64 {
			q := new(big.Int).Mul(big.NewInt(a), big.NewInt(n))
			return q.Quo(q, big.NewInt(d)).Int64()
		}
		cube := quo(quo(b*b, b, 10_000_000), 2654015, 10_000_000)
		return (-41633 - quo(b, 8286618, 1_000_000) + quo(b*b, 167424, 100_000_000) - cube) * 100_000_000_000
	default:
		return 50045083 * 1_000_000_000
	}
}

func round(f *big.Float) int64 {
	n, _ := ref.FAdd(f, ref.Quo(ref.F(1), ref.F(2))).Int64()
	return n
}

func (v *variant) compute() {
	v.exactly = make([]int64, 10001)
	ratio := big.NewInt(round(ref.FMul(ref.Exp2(ref.Quo(ref.F(14), ref.F(v.last))), ref.F(1_000_000_000_000_000))))
	den := big.NewInt(1_000_000_000_000_000)
	var last int64
	for b := int64(0); b <= 10000; b++ {
		if b == 0 || b == 1 || b&(b-1) == 0 {
			from := b
			if b > 1 {
				from--
			}
			f := ref.FMul(ref.Price(ref.F(from), v.last, 10000, true), dollar)
			last = round(f)
			if v.last == 10000 {
				// of the old variant these are rounded down
				last, _ = f.Int64()
			}
		}
		if b > 1 {
			n := new(big.Int).Mul(big.NewInt(last), ratio)
			last = n.Quo(n, den).Int64()
		}
		v.exactly[b] = last
	}
}

func price(m *mon.M, v variant, n int64) (int64, bool) {
	var p int64
	ok := m.Do(v.name, func() {
		m.NonTrivial()
		got, err := v.f(types.Ndau(n))
		if err != nil {
			m.Failf("spurious error", "%v", err)
		}
		p = int64(got)
	}, n)
	return p, ok
}

func main() {
	mon.Main("C06", rule, func(m *mon.M) {
		m.Require("block compared", 60000)
		for vi := range variants {
			variants[vi].compute()
		}
		// prices at the starts of the blocks, from the code, for monotonicity
		const blocks = 30100
		starts := make([][]int64, len(variants))
		for vi := range variants {
			starts[vi] = make([]int64, blocks+1)
		}
		m.Par("blocks", 43, func(m *mon.M, s int) {
			r := gen.R{Rand: m.Rand}
			for b := int64(s); b <= blocks; b += 43 {
				if m.Further() && b%7 > 1 && b%1000 > 1 && b%1000 < 998 {
					continue
				}
				for vi, v := range variants {
					n := b * block
					p, ok := price(m, v, n)
					if !ok {
						continue
					}
					starts[vi][b] = p
					m.Do("block "+v.name, func() {
						m.NonTrivial()
						m.Event("block compared")
						near(m, p, b, v)
					}, b)
					offs := []int64{block - 1, r.Int64N(block), int64(r.IntN(1000)) * gen.Napu}
					if b%16 == 0 || m.Thorough {
						offs = append(offs, 1, gen.Napu, gen.Napu-1, block-gen.Napu, r.Int64N(block))
					}
					for _, o := range offs {
						if q, ok := price(m, v, n+o); ok && q != p {
							m.Do("same block "+v.name, func() {
								m.Failf("price changes inside a block", "price %d at %d, %d at %d", p, n, q, n+o)
							}, n+o)
						}
					}
				}
			}
		})
		for vi, v := range variants {
			for b := int64(1); b <= blocks; b++ {
				if starts[vi][b] == 0 || starts[vi][b-1] == 0 {
					continue
				}
				m.Do("monotonic "+v.name, func() {
					m.NonTrivial()
					m.Check(starts[vi][b] >= starts[vi][b-1], "price falls", "%d, then %d", starts[vi][b-1], starts[vi][b])
				}, b)
			}
		}
		r := gen.R{Rand: m.Rand}
		for i := 0; i < m.N(3000, 100000); i++ {
			n := r.Nat()
			if i < 4 {
				n = math.MaxInt64 - int64(i)
			}
			b := n / block
			for _, v := range variants {
				p, ok := price(m, v, n)
				if !ok {
					continue
				}
				m.Do("anywhere "+v.name, func() {
					m.NonTrivial()
					near(m, p, b, v)
				}, n)
			}
		}
	})
}
