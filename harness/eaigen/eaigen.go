// Package eaigen makes accounts, locks and rate tables.
package eaigen

import (
	"fmt"
	"sort"
	"strings"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/gen"
	"verif/harness/ref"
)

// Lock implements eai.Lock.
type Lock struct {
	L     ref.Lock
	t     *types.Timestamp // what GetUnlocksOn points to
	Calls int
}

// GetNoticePeriod implements eai.Lock.
func (l *Lock) GetNoticePeriod() types.Duration { l.Calls++; return types.Duration(l.L.Notice) }

// GetUnlocksOn implements eai.Lock.
func (l *Lock) GetUnlocksOn() *types.Timestamp {
	return l.t
}

// Unchanged reports whether nobody wrote to the lock.
func Unchanged(l eai.Lock) bool {
	if l == nil {
		return true
	}
	k := l.(*Lock)
	return k.t == nil || int64(*k.t) == *k.L.Unlocks
}

// GetBonusRate implements eai.Lock.
func (l *Lock) GetBonusRate() eai.Rate { return eai.Rate(l.L.Bonus) }

// Iface is the lock as the code takes it.
func Iface(l *ref.Lock) eai.Lock {
	if l == nil {
		return nil
	}
	k := &Lock{L: *l}
	if l.Unlocks != nil {
		t := types.Timestamp(*l.Unlocks)
		k.t = &t
	}
	return k
}

// LockText is the text of a lock.
func LockText(l *ref.Lock) string {
	if l == nil {
		return "no lock"
	}
	if l.Unlocks == nil {
		return fmt.Sprintf("lock{notice %d bonus %d}", l.Notice, l.Bonus)
	}
	return fmt.Sprintf("lock{notice %d bonus %d unlocks %d}", l.Notice, l.Bonus, *l.Unlocks)
}

// spare is what lies behind a table, in the same array.
var spare = eai.RTRow{From: -7, Rate: 12345678901234567}

// Table converts a table.
func Table(t []ref.Step) eai.RateTable {
	out := make(eai.RateTable, 0, len(t)+2)
	for _, s := range t {
		out = append(out, eai.RTRow{From: types.Duration(s.From), Rate: eai.Rate(s.Rate)})
	}
	out = append(out, spare, spare)
	return out[:len(t)]
}

// TableText is the text of a table.
func TableText(t []ref.Step) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for _, s := range t {
		fmt.Fprintf(&sb, "(%d %d)", s.From, s.Rate)
	}
	sb.WriteByte(']')
	return sb.String()
}

// Same reports whether a table is still t.
func Same(t []ref.Step, rt eai.RateTable) bool {
	if len(t) != len(rt) {
		return false
	}
	for i := range t {
		if int64(rt[i].From) != t[i].From || int64(rt[i].Rate) != t[i].Rate {
			return false
		}
	}
	if cap(rt) < len(t)+2 {
		return true
	}
	rest := rt[len(t) : len(t)+2]
	return rest[0] == spare && rest[1] == spare
}

// Steps is the converse of Table.
func Steps(rt eai.RateTable) []ref.Step {
	var t []ref.Step
	for _, r := range rt {
		t = append(t, ref.Step{From: int64(r.From), Rate: int64(r.Rate)})
	}
	return t
}

// RandTable is a sorted table.
func RandTable(r gen.R) []ref.Step {
	switch r.IntN(6) {
	case 0:
		return nil
	case 1, 2:
		// the published table: 2% to 10% in steps of 30 days
		var t []ref.Step
		for i := int64(1); i < 10; i++ {
			t = append(t, ref.Step{From: i * 30 * gen.Day, Rate: (i + 1) * gen.RateD / 100})
		}
		return t
	}
	n := 1 + r.IntN(8)
	if r.IntN(12) == 0 {
		n = gen.Pick(r, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 200, 256, 257, 300, 500)
	}
	// rows may begin at the same age (the last one counts), or before zero
	double, early := r.IntN(6) == 0, r.IntN(12) == 0
	seen := map[int64]bool{}
	var t []ref.Step
	unit := gen.Pick(r, int64(1), gen.Second, gen.Day, gen.Day, 30*gen.Day, gen.Year)
	for i := 0; i < n; i++ {
		from := int64(r.IntN(3*max(n, 8))) * unit
		if r.IntN(4) == 0 {
			from = r.Int64N(3 * gen.Year)
		}
		if early && i%3 == 0 {
			from = -from
		}
		if double && i > 0 && r.IntN(3) == 0 {
			from = t[r.IntN(len(t))].From
		} else if seen[from] {
			continue
		}
		seen[from] = true
		rate := int64(r.IntN(16)) * gen.RateD / 100
		if r.IntN(3) == 0 {
			rate = r.Int64N(gen.RateD / 2)
		}
		t = append(t, ref.Step{From: from, Rate: rate})
	}
	sort.SliceStable(t, func(i, j int) bool { return t[i].From < t[j].From })
	return t
}

// Dur is a duration which makes sense with the table: near a row, or near a sum
// or difference of one and another duration.
func Dur(r gen.R, t []ref.Step, others ...int64) int64 {
	v := int64(0)
	switch {
	case len(t) > 0 && r.IntN(3) != 0:
		v = t[r.IntN(len(t))].From
		if len(others) > 0 && r.IntN(2) == 0 {
			v -= others[r.IntN(len(others))]
		}
	case r.IntN(3) == 0:
		v = int64(r.IntN(500)) * gen.Day
	case r.IntN(4) == 0:
		v = r.Int64N(8 * gen.Year)
	case r.IntN(4) == 0:
		v = int64(r.IntN(3))
	default:
		v = gen.Pick(r, int64(gen.Day), 30*gen.Day, 90*gen.Day, gen.Year, gen.Hour, gen.Minute, gen.Second) * int64(1+r.IntN(12))
	}
	if r.IntN(3) == 0 {
		v += int64(r.IntN(3)) - 1
	}
	return v
}

// NatDur is a Dur which is not negative.
func NatDur(r gen.R, t []ref.Step, others ...int64) int64 {
	v := Dur(r, t, others...)
	if v < 0 {
		v = -v
	}
	return v
}

// RandLock is a lock or nil; base is the time around which it unlocks.
func RandLock(r gen.R, t []ref.Step, base int64, others ...int64) *ref.Lock {
	if r.IntN(4) == 0 {
		return nil
	}
	l := &ref.Lock{Notice: NatDur(r, t, others...)}
	if r.IntN(3) != 0 {
		l.Bonus = int64(r.IntN(6)) * gen.RateD / 100
	}
	if r.IntN(3) != 0 {
		u := base
		switch r.IntN(4) {
		case 0:
			u += int64(r.IntN(5)) - 2
		case 1:
			u -= NatDur(r, t, others...)
		default:
			u += Dur(r, t, append(others, l.Notice)...)
		}
		l.Unlocks = &u
	}
	return l
}
