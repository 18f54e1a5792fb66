// C04: slices of rate tables.
package main

import (
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/eaigen"
	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "sorted random and published rate tables; interval ends, offsets and freezing points at, before and after rows and sums and differences of them; " +
	"non-trivial when the interval is not empty; every period is compared with the table at its ends and at every row inside it; distinct by all arguments"

func check(m *mon.M, what string, rs eai.RateSlice, from, to, offset, freeze int64, t []ref.Step) {
	var sum int64
	if to <= from {
		for _, row := range rs {
			m.Check(row.Duration == 0, "time in an empty interval", "%s: %v", what, rs)
		}
		return
	}
	age := from + offset
	notify := to + offset - freeze
	rateAt := func(e int64) int64 {
		if freeze != 0 && e > notify {
			e = notify
		}
		return ref.RateAt(t, e)
	}
	for i, row := range rs {
		d := int64(row.Duration)
		if d < 0 {
			m.Failf("negative period", "%s: %v", what, rs)
			return
		}
		if d > 0 {
			points := []int64{age, age + d - 1}
			for _, s := range t {
				if s.From > age && s.From < age+d {
					points = append(points, s.From)
				}
			}
			for _, p := range points {
				if rateAt(p) != int64(row.Rate) {
					m.Failf("wrong rate", "%s: period %d of %v has rate %d, but the rate is %d at age %d", what, i, rs, row.Rate, rateAt(p), p)
					return
				}
			}
		}
		sum += d
		age += d
	}
	m.Check(sum == to-from, "wrong length", "%s: %v lasts %d instead of %d", what, rs, sum, to-from)
	if len(rs) > 1 {
		m.Event("several periods")
	}
	if freeze != 0 && notify > from+offset && notify < to+offset {
		m.Event("frozen inside the interval")
	}
	if freeze != 0 && notify <= from+offset {
		m.Event("frozen before the interval")
	}
}

func slices(m *mon.M, from, to, offset, freeze int64, t []ref.Step) {
	m.Do("Slice", func() {
		if to > from {
			m.NonTrivial()
		}
		table := eaigen.Table(t)
		D := func(x int64) types.Duration { return types.Duration(x) }
		check(m, "Slice", table.Slice(D(from), D(to), D(offset)), from, to, offset, 0, t)
		check(m, "SliceF", table.SliceF(D(from), D(to), D(offset), D(freeze)), from, to, offset, freeze, t)
		// a freeze counts by its magnitude
		check(m, "SliceF with a negative freeze", table.SliceF(D(from), D(to), D(offset), D(-freeze)), from, to, offset, freeze, t)
		m.Check(eaigen.Same(t, table), "table changed", "%v", table)
	}, "from", from, "to", to, "offset", offset, "freeze", freeze, eaigen.TableText(t))
}

func rateAt(m *mon.M, t []ref.Step, p int64) {
	m.Do("RateAt", func() {
		m.NonTrivial()
		got, want := int64(eaigen.Table(t).RateAt(types.Duration(p))), ref.RateAt(t, p)
		m.Check(got == want, "wrong rate", "got %d, want %d", got, want)
	}, p, eaigen.TableText(t))
}

func main() {
	mon.Main("C04", rule, func(m *mon.M) {
		m.Require("several periods", 2000)
		m.Require("frozen inside the interval", 1000)
		m.Require("frozen before the interval", 500)
		// the published tables are what was published
		m.Do("default tables", func() {
			m.NonTrivial()
			for i, row := range eai.DefaultUnlockedEAI {
				m.Check(int64(row.From) == int64(i+1)*30*gen.Day && int64(row.Rate) == int64(i+2)*gen.RateD/100, "default table", "row %d is %v", i, row)
			}
			m.Check(len(eai.DefaultUnlockedEAI) == 9, "default table", "%d rows", len(eai.DefaultUnlockedEAI))
			want := []ref.Step{{From: 90 * gen.Day, Rate: 1}, {From: 180 * gen.Day, Rate: 2}, {From: gen.Year, Rate: 3}, {From: 2 * gen.Year, Rate: 4}, {From: 3 * gen.Year, Rate: 5}}
			m.Check(len(eai.DefaultLockBonusEAI) == len(want), "default table", "%d rows", len(eai.DefaultLockBonusEAI))
			for i, row := range eai.DefaultLockBonusEAI {
				m.Check(int64(row.From) == want[i].From && int64(row.Rate) == want[i].Rate*gen.RateD/100, "default table", "row %d is %v", i, row)
			}
		})
		// every small table and interval
		small := [][]ref.Step{nil}
		for mask := 1; mask < 64; mask++ {
			var t []ref.Step
			for b := 0; b < 6; b++ {
				if mask>>b&1 == 1 {
					t = append(t, ref.Step{From: int64(b), Rate: int64(100 + 7*b)})
				}
			}
			small = append(small, t)
		}
		for _, f := range [][]int64{{0, 0}, {2, 2}, {1, 3, 3}, {1, 1, 3}, {2, 2, 2}, {0, 1, 1, 4}, {1, 2, 2, 5, 5}, {-1, 2}, {-3, -1, 1}, {-2, -2, 3}} {
			var t []ref.Step
			for b, x := range f {
				t = append(t, ref.Step{From: x, Rate: int64(100 + 7*b)})
			}
			small = append(small, t)
		}
		m.Par("small", len(small), func(m *mon.M, i int) {
			t := small[i]
			step := int64(m.N(1, 1))
			k := int64(i) % step
			for from := int64(-1); from <= 6; from++ {
				for to := from; to <= 7; to++ {
					for offset := int64(0); offset <= 4; offset++ {
						for freeze := int64(0); freeze <= 9; freeze++ {
							if k++; k%step == 0 {
								slices(m, from, to, offset, freeze, t)
							}
						}
					}
				}
			}
			for p := int64(-1); p < 8; p++ {
				rateAt(m, t, p)
			}
		})
		n := m.N(80000, 300000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < n; j++ {
				t := eaigen.RandTable(r)
				offset := int64(0)
				if r.IntN(3) != 0 {
					offset = eaigen.NatDur(r, t)
				}
				from := eaigen.NatDur(r, t, offset)
				to := eaigen.NatDur(r, t, offset, from)
				if r.IntN(2) == 0 {
					to = from + eaigen.NatDur(r, t, offset, from)
				}
				freeze := int64(0)
				if r.IntN(3) != 0 {
					freeze = eaigen.NatDur(r, t, offset, from, to)
					if r.IntN(2) == 0 && to > from {
						freeze = r.Int64N(to - from + 1)
					}
				}
				slices(m, from, to, offset, freeze, t)
				rateAt(m, t, eaigen.Dur(r, t, offset))
			}
		})
	})
}
