// C01: the 64-bit arithmetic is exact or an error.
package main

import (
	"errors"
	"math/big"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"

	"verif/harness/gen"
	"verif/harness/mon"
)

const rule = "operands are boundaries (and neighbours), constants of the source, powers of 2 and 10 and random magnitudes, signed and unsigned, and are also chosen so that the exact result lies next to the limit of the range; " +
	"a case is non-trivial when the operation has an exact integer result or must be rejected for range or division by zero, which is always decided by the big-integer oracle; distinct by operation and operands"

type op struct {
	name string
	// exact result(s), or false if it must be an error
	ref func(a, b, c *big.Int) ([]*big.Int, bool)
	s   func(a, b, c int64) ([]int64, error)
	u   func(a, b, c uint64) ([]uint64, error)
}

func one(f func(z, a, b *big.Int) *big.Int) func(a, b, c *big.Int) ([]*big.Int, bool) {
	return func(a, b, c *big.Int) ([]*big.Int, bool) { return []*big.Int{f(new(big.Int), a, b)}, true }
}

func div(f func(a, b *big.Int) []*big.Int) func(a, b, c *big.Int) ([]*big.Int, bool) {
	return func(a, b, c *big.Int) ([]*big.Int, bool) {
		if b.Sign() == 0 {
			return nil, false
		}
		return f(a, b), true
	}
}

func s2(f func(a, b int64) (int64, error)) func(a, b, c int64) ([]int64, error) {
	return func(a, b, c int64) ([]int64, error) { x, err := f(a, b); return []int64{x}, err }
}

func u2(f func(a, b uint64) (uint64, error)) func(a, b, c uint64) ([]uint64, error) {
	return func(a, b, c uint64) ([]uint64, error) { x, err := f(a, b); return []uint64{x}, err }
}

var ops = []op{
	{"Add", one((*big.Int).Add), s2(signed.Add), u2(unsigned.Add)},
	{"Sub", one((*big.Int).Sub), s2(signed.Sub), u2(unsigned.Sub)},
	{"Mul", one((*big.Int).Mul), s2(signed.Mul), u2(unsigned.Mul)},
	{"Div", div(func(a, b *big.Int) []*big.Int { return []*big.Int{new(big.Int).Quo(a, b)} }), s2(signed.Div), u2(unsigned.Div)},
	{"Mod", div(func(a, b *big.Int) []*big.Int { return []*big.Int{new(big.Int).Rem(a, b)} }), s2(signed.Mod), u2(unsigned.Mod)},
	{"DivMod", div(func(a, b *big.Int) []*big.Int { return []*big.Int{new(big.Int).Quo(a, b), new(big.Int).Rem(a, b)} }),
		func(a, b, c int64) ([]int64, error) { q, r, err := signed.DivMod(a, b); return []int64{q, r}, err },
		func(a, b, c uint64) ([]uint64, error) { q, r, err := unsigned.DivMod(a, b); return []uint64{q, r}, err }},
	{"MulDiv", func(a, b, c *big.Int) ([]*big.Int, bool) {
		if c.Sign() == 0 {
			return nil, false
		}
		p := new(big.Int).Mul(a, b)
		return []*big.Int{p.Quo(p, c)}, true
	}, func(a, b, c int64) ([]int64, error) { x, err := signed.MulDiv(a, b, c); return []int64{x}, err },
		func(a, b, c uint64) ([]uint64, error) { x, err := unsigned.MulDiv(a, b, c); return []uint64{x}, err }},
}

func judge(m *mon.M, o op, signedOp bool, a, b, c *big.Int, got []*big.Int, err error) {
	m.NonTrivial()
	want, ok := o.ref(a, b, c)
	inRange := func(x *big.Int) bool {
		if signedOp {
			return x.IsInt64()
		}
		return x.IsUint64()
	}
	for _, w := range want {
		ok = ok && inRange(w)
	}
	if !ok {
		m.Event("must be an error")
		if err == nil {
			m.Failf("no error", "%v is returned without an error; the exact result is %v", got, want)
			return
		}
		// the errors are told apart: a zero divisor has its own
		zero := want == nil
		if zero {
			m.Event("zero divisor")
		} else {
			m.Event("does not fit")
		}
		isZero := errors.Is(err, ndauerr.ErrDivideByZero)
		isOver := errors.Is(err, ndauerr.ErrOverflow) || errors.Is(err, ndauerr.ErrMath)
		m.Check(isZero == zero && isOver == !zero, "wrong error", "the error is %q; zero divisor: %v", err, zero)
		return
	}
	m.Event("exact result in range")
	if err != nil {
		m.Failf("spurious error", "%v; the exact result %v is in range", err, want)
		return
	}
	for i, w := range want {
		if got[i].Cmp(w) != 0 {
			m.Failf("wrong result", "got %v, want %v", got, want)
			return
		}
	}
}

func do64(m *mon.M, o op, a, b, c int64) {
	m.Do("signed."+o.name, func() {
		x, err := o.s(a, b, c)
		var got []*big.Int
		for _, v := range x {
			got = append(got, big.NewInt(v))
		}
		judge(m, o, true, big.NewInt(a), big.NewInt(b), big.NewInt(c), got, err)
	}, a, b, c)
}

func doU64(m *mon.M, o op, a, b, c uint64) {
	m.Do("unsigned."+o.name, func() {
		x, err := o.u(a, b, c)
		var got []*big.Int
		for _, v := range x {
			got = append(got, new(big.Int).SetUint64(v))
		}
		u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
		judge(m, o, false, u(a), u(b), u(c), got, err)
	}, a, b, c)
}

func doNdau(m *mon.M, a, b int64) {
	for _, sub := range []bool{false, true} {
		name, o := "Ndau.Add", ops[0]
		if sub {
			name, o = "Ndau.Sub", ops[1]
		}
		m.Do(name, func() {
			x, y := types.Ndau(a), types.Ndau(b)
			var z types.Ndau
			var err error
			if sub {
				z, err = x.Sub(y)
			} else {
				z, err = x.Add(y)
			}
			judge(m, o, true, big.NewInt(a), big.NewInt(b), new(big.Int), []*big.Int{big.NewInt(int64(z))}, err)
			want := 0
			if a < b {
				want = -1
			} else if a > b {
				want = 1
			}
			m.Check(x.Compare(y) == want, "compare", "Compare gives %d, want %d", x.Compare(y), want)
			if a != -1<<63 {
				abs := new(big.Int).Abs(big.NewInt(a))
				m.Check(int64(x.Abs()) == abs.Int64(), "abs", "Abs gives %d", x.Abs())
			}
		}, a, b)
	}
}

func main() {
	mon.Main("C01", rule, func(m *mon.M) {
		m.Require("must be an error", 10000)
		m.Require("exact result in range", 10000)
		m.Require("zero divisor", 1000)
		// all pairs and many triples of the boundaries
		edges := []int64{0, 1, -1, 2, -2, 3, 10, -10, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32, 3037000499, 3037000500, -3037000500, 1 << 62, 1<<62 - 1, -1 << 62, 1<<63 - 1, 1<<63 - 2, -1 << 63, -1<<63 + 1, 1000000000000, 100000000}
		m.Par("edges", len(edges), func(m *mon.M, i int) {
			for _, b := range edges {
				for _, o := range ops {
					if o.name == "MulDiv" {
						for _, c := range edges {
							do64(m, o, edges[i], b, c)
							doU64(m, o, uint64(edges[i]), uint64(b), uint64(c))
						}
						continue
					}
					do64(m, o, edges[i], b, 0)
					doU64(m, o, uint64(edges[i]), uint64(b), 0)
				}
				doNdau(m, edges[i], b)
			}
		})
		n := m.N(150000, 400000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < n; j++ {
				o := ops[r.IntN(len(ops))]
				a, b, c := r.Int64(), r.Int64(), r.Int64()
				switch r.IntN(6) {
				case 0: // an exact result next to the limit
					lim := gen.Pick(r, int64(1<<63-1), -1<<63, -1<<63+1, 1<<63-2)
					switch o.name {
					case "Add":
						b = lim - a + int64(r.IntN(3)) - 1
					case "Sub":
						b = a - lim + int64(r.IntN(3)) - 1
					case "Mul":
						if a != 0 && a != -1 {
							b = lim/a + int64(r.IntN(3)) - 1
						}
					case "MulDiv":
						if b != 0 && a != 0 {
							p := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
							p.Quo(p, big.NewInt(lim))
							if p.IsInt64() {
								c = p.Int64() + int64(r.IntN(3)) - 1
							}
						}
					}
				case 1: // exact quotients
					c = b
				case 2:
					c = a
				}
				do64(m, o, a, b, c)
				ua, ub, uc := r.Uint64(), r.Uint64(), r.Uint64()
				switch r.IntN(6) {
				case 0:
					switch o.name {
					case "Add":
						ub = -ua + uint64(r.IntN(3)) - 1
					case "Sub":
						ub = ua + uint64(r.IntN(3)) - 1
					case "Mul":
						if ua != 0 {
							ub = (1<<64-1)/ua + uint64(r.IntN(3)) - 1
						}
					case "MulDiv":
						p := new(big.Int).Mul(new(big.Int).SetUint64(ua), new(big.Int).SetUint64(ub))
						p.Rsh(p, 64)
						uc = p.Uint64() + uint64(r.IntN(3)) - 1
					}
				case 1:
					uc = ub
				case 2:
					uc = ua
				}
				doU64(m, o, ua, ub, uc)
				if r.IntN(4) == 0 {
					doNdau(m, a, b)
				}
			}
		})
	})
}
