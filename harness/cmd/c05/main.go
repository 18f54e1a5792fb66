// C05: the current EAI rate.
package main

import (
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/eaigen"
	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "accounts with random and published tables, ages, locks and times at and next to the table's rows and the unlock time; " +
	"non-trivial always: the rate is compared with the model; distinct by all arguments"

func one(m *mon.M, waa int64, lock *ref.Lock, t []ref.Step, at int64) {
	m.Do("CalculateEAIRate", func() {
		m.NonTrivial()
		table := eaigen.Table(t)
		want := ref.EAIRate(waa, lock, t, at)
		l := eaigen.Iface(lock)
		got := eai.CalculateEAIRate(types.Duration(waa), l, table, types.Timestamp(at))
		m.Check(int64(got) == want, "wrong rate", "got %d, want %d", got, want)
		m.Check(eaigen.Same(t, table), "table changed", "%v", table)
		m.Check(eaigen.Unchanged(l), "lock changed", "%v", l)
		switch {
		case lock == nil:
			m.Event("no lock")
		case lock.Unlocks == nil:
			m.Event("locked")
		case at < *lock.Unlocks:
			m.Event("notified")
		case at == *lock.Unlocks:
			m.Event("at the unlock time")
		default:
			m.Event("unlocked")
		}
	}, "waa", waa, "at", at, eaigen.LockText(lock), eaigen.TableText(t))
}

func main() {
	mon.Main("C05", rule, func(m *mon.M) {
		for _, e := range []string{"no lock", "locked", "notified", "at the unlock time", "unlocked"} {
			m.Require(e, 500)
		}
		n := m.N(200000, 800000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < n; j++ {
				t := eaigen.RandTable(r)
				waa := eaigen.NatDur(r, t)
				at := r.Int64N(20 * gen.Year)
				lock := eaigen.RandLock(r, t, at, waa)
				if lock != nil {
					if r.IntN(2) == 0 {
						waa = eaigen.NatDur(r, t, lock.Notice)
					}
					if lock.Unlocks != nil && r.IntN(2) == 0 {
						// a row at the frozen age
						waa = eaigen.NatDur(r, t, *lock.Unlocks-at)
						if waa > 100*gen.Year {
							waa = 0
						}
					}
				}
				switch r.IntN(40) {
				case 0: // at the beginning of time
					at = int64(r.IntN(3))
					if lock != nil && lock.Unlocks != nil {
						u := int64(r.IntN(3))
						lock.Unlocks = &u
					}
				case 1:
					waa = -waa
				case 2:
					if lock != nil {
						lock.Bonus = -lock.Bonus
					}
				}
				if lock != nil && lock.Unlocks != nil && *lock.Unlocks < 0 {
					continue
				}
				one(m, waa, lock, t, at)
			}
		})
	})
}
