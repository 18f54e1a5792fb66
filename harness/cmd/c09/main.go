// C09: timestamps, durations and weighted average age.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"time"

	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/gen"
	"verif/harness/mon"
)

const rule = "pairs of a timestamp and a duration or timestamp at boundaries, near them and of every magnitude; calendar times from year -3000 to beyond the range in several zones; texts of times and changes of them; histories of transfers; " +
	"non-trivial when the result is decided by the oracle (not merely that nothing panicked); distinct by operands"

const epochUnix = 946684800 // 2000-01-01T00:00:00Z

var (
	maxI  = big.NewInt(math.MaxInt64)
	zeroI = big.NewInt(0)
)

func clamp(n *big.Int) int64 {
	if n.Sign() < 0 {
		return 0
	}
	if n.Cmp(maxI) > 0 {
		return math.MaxInt64
	}
	return n.Int64()
}

func arith(m *mon.M, t, o, d int64) {
	m.Do("arithmetic", func() {
		m.NonTrivial()
		T, O, D := types.Timestamp(t), types.Timestamp(o), types.Duration(d)
		sum := new(big.Int).Add(big.NewInt(t), big.NewInt(d))
		dif := new(big.Int).Sub(big.NewInt(t), big.NewInt(d))
		if sum.Sign() < 0 || dif.Sign() < 0 || sum.Cmp(maxI) > 0 || dif.Cmp(maxI) > 0 {
			m.Event("saturating")
		}
		got := int64(T.Add(D))
		m.Check(got == clamp(sum), "Add", "got %d, want %d", got, clamp(sum))
		got = int64(T.Sub(D))
		m.Check(got == clamp(dif), "Sub", "got %d, want %d", got, clamp(dif))
		got = int64(T.Since(O))
		m.Check(got == t-o, "Since", "got %d, want %d", got, t-o)
		want := 0
		if t < o {
			want = -1
		} else if t > o {
			want = 1
		}
		m.Check(T.Compare(O) == want, "Compare", "got %d, want %d", T.Compare(O), want)
	}, t, o, d)
}

// order compares any two numbers of microseconds, also before the epoch.
func order(m *mon.M, t, o int64) {
	m.Do("order", func() {
		m.NonTrivial()
		want := big.NewInt(t).Cmp(big.NewInt(o))
		got := types.Timestamp(t).Compare(types.Timestamp(o))
		m.Check(got == want, "Compare", "got %d, want %d", got, want)
	}, t, o)
}

// civil is the date of a number of days since 2000-01-01 (Gregorian, by
// counting in 400-year cycles from 2000-03-01).
func civil(days int64) (y int64, mo, d int) {
	days -= 60 // since 2000-03-01
	cyc := days / 146097
	days %= 146097
	if days < 0 {
		days += 146097
		cyc--
	}
	year := int64(0)
	for {
		n := int64(365)
		// the year from March of year to February of year+1
		nx := year + 1
		if nx%4 == 0 && (nx%100 != 0 || nx%400 == 0) {
			n = 366
		}
		if days < n {
			break
		}
		days -= n
		year++
	}
	lens := []int64{31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29}
	i := 0
	for days >= lens[i] {
		days -= lens[i]
		i++
	}
	mo = i + 3
	y = 2000 + 400*cyc + year
	if mo > 12 {
		mo -= 12
		y++
	}
	return y, mo, int(days) + 1
}

func leap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// daysFrom2000 counts days one year at a time.
func daysFrom2000(y int64, mo, d int) int64 {
	n := int64(0)
	for k := int64(2000); k < y; k++ {
		n += 365
		if leap(k) {
			n++
		}
	}
	for k := y; k < 2000; k++ {
		n -= 365
		if leap(k) {
			n--
		}
	}
	for k := 1; k < mo; k++ {
		n += int64(monthLen(y, k))
	}
	return n + int64(d-1)
}

func monthLen(y int64, mo int) int {
	switch mo {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func textOf(t int64) (string, bool) {
	us := t % gen.Second
	s := t / gen.Second
	y, mo, d := civil(s / 86400)
	s %= 86400
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%06dZ", y, mo, d, s/3600, s/60%60, s%60, us), y <= 9999
}

func stamp(m *mon.M, t int64) {
	m.Do("timestamp", func() {
		m.NonTrivial()
		T := types.Timestamp(t)
		at := T.AsTime()
		m.Check(at.Unix() == epochUnix+t/gen.Second && int64(at.Nanosecond()) == t%gen.Second*1000, "AsTime", "got %v = %d s %d ns", at, at.Unix(), at.Nanosecond())
		_, off := at.Zone()
		m.Check(off == 0, "AsTime", "zone offset %d", off)
		back, err := types.TimestampFrom(at)
		m.Check(err == nil && back == T, "calendar round trip", "%v gives %d, %v", at, back, err)
		want, ok := textOf(t)
		if !ok {
			m.Event("year of more than four digits")
			_ = T.String()
			return
		}
		s := T.String()
		m.Check(s == want, "text", "got %q, want %q", s, want)
		back, err = types.ParseTimestamp(want)
		m.Check(err == nil && back == T, "text round trip", "%q gives %d, %v", want, back, err)
		b, err := T.MarshalText()
		m.Check(err == nil && string(b) == want, "text", "MarshalText gives %q, %v", b, err)
		u := types.Timestamp(99)
		err = u.UnmarshalText(m.Arg([]byte(want)))
		m.Check(err == nil && u == T, "text round trip", "UnmarshalText of %q gives %d, %v", want, u, err)
		j, err := json.Marshal([]types.Timestamp{T})
		var l []types.Timestamp
		if err == nil {
			err = json.Unmarshal(j, &l)
		}
		m.Check(err == nil && len(l) == 1 && l[0] == T, "text round trip", "JSON %s gives %v, %v", j, l, err)
		if t%gen.Second == 0 {
			p, err := types.ParseTimestamp(want[:19] + "Z")
			m.Check(err == nil && p == T, "text round trip", "%q gives %d, %v", want[:19], p, err)
		}
	}, t)
}

func calendar(m *mon.M, sec int64, ns int64, zone int) {
	m.Do("calendar time", func() {
		m.NonTrivial()
		at := time.Unix(sec, ns).In(time.FixedZone("z", zone))
		us := new(big.Int).Mul(big.NewInt(sec-epochUnix), big.NewInt(gen.Second))
		us.Add(us, big.NewInt(ns/1000))
		got, err := types.TimestampFrom(at)
		switch {
		case sec < epochUnix:
			m.Event("before the range")
			m.Check(err != nil, "before the epoch", "%v gives %d", at, got)
		case !us.IsInt64():
			m.Event("after the range")
			m.Check(err != nil, "after the last timestamp", "%v gives %d", at, got)
		default:
			m.Event("in the range")
			m.Check(err == nil && int64(got) == us.Int64(), "TimestampFrom", "%v gives %d, %v; want %d", at, got, err, us)
		}
	}, sec, ns, zone)
}

var re = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d?):(\d\d):(\d\d)(?:[.,](\d+))?Z?$`)
var strict = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?Z$`)

func parse(m *mon.M, s string) {
	m.Do("parse", func() {
		const before = 4711
		u := types.Timestamp(before)
		got, err := types.ParseTimestamp(s)
		err2 := u.UnmarshalText(m.Arg([]byte(s)))
		m.Check((err == nil) == (err2 == nil), "parsers disagree", "ParseTimestamp %v, UnmarshalText %v", err, err2)
		if err2 != nil {
			m.Check(u == before, "receiver changed", "%d", u)
		} else {
			m.Check(u == got, "parsers disagree", "%d, %d", got, u)
		}
		g := re.FindStringSubmatch(s)
		if g == nil {
			return
		}
		m.NonTrivial()
		n := make([]int64, 7)
		for i := 1; i < 7; i++ {
			n[i], _ = strconv.ParseInt(g[i], 10, 64)
		}
		if n[2] < 1 || n[2] > 12 || n[3] < 1 || n[3] > int64(monthLen(n[1], int(n[2]))) || n[4] > 23 || n[5] > 59 || n[6] > 59 {
			m.Event("no such date")
			m.Check(err != nil, "not rejected", "got %d for no date", got)
			return
		}
		f := (g[7] + "000000")[:6]
		us, _ := strconv.ParseInt(f, 10, 64)
		want := ((daysFrom2000(n[1], int(n[2]), int(n[3]))*24+n[4])*60+n[5])*60 + n[6]
		if want < 0 {
			m.Event("text before the range")
			m.Check(err != nil, "not rejected", "got %d for a time before the epoch", got)
			return
		}
		want = want*gen.Second + us
		if err == nil {
			m.Event("parsed")
			m.Check(int64(got) == want, "wrong time", "got %d, want %d", got, want)
		} else {
			m.Check(!strict.MatchString(s), "rejected", "%v", err)
		}
	}, s)
}

// history applies transfers to an account and follows them exactly.
func history(m *mon.M, r gen.R) {
	age := r.NatTo(200 * gen.Year)
	if r.IntN(3) == 0 {
		age = r.Nat()
	}
	bal := r.NatTo(30000000 * gen.Napu)
	if r.IntN(3) == 0 {
		bal = r.Nat()
	}
	d := types.Duration(age)
	for k := 0; k < 12; k++ {
		since := r.NatTo(3 * gen.Year)
		if r.IntN(4) == 0 {
			since = r.Nat()
		}
		qty := r.NatTo(1000000 * gen.Napu)
		switch r.IntN(6) {
		case 0:
			qty = r.Nat()
		case 1:
			if bal > 0 {
				qty = -r.NatTo(bal)
			}
		case 2:
			qty = gen.Pick(r, int64(0), 1, bal, math.MaxInt64-bal)
		}
		prev := int64(d)
		stop := false
		m.Do("transfer", func() {
			m.NonTrivial()
			err := d.UpdateWeightedAverageAge(types.Duration(since), types.Ndau(qty), types.Ndau(bal))
			old := new(big.Int).Add(big.NewInt(prev), big.NewInt(since))
			nb := new(big.Int).Add(big.NewInt(bal), big.NewInt(qty))
			want := old
			if qty >= 0 && nb.Sign() > 0 {
				want = new(big.Int).Mul(old, big.NewInt(bal))
				want.Quo(want, nb)
			}
			if err != nil {
				m.Event("transfer error")
				m.Check(!old.IsInt64() || !nb.IsInt64(), "spurious error", "%v", err)
				m.Check(int64(d) == prev, "receiver changed", "%d with %v", d, err)
				if !nb.IsInt64() {
					stop = true
				}
				return
			}
			if !nb.IsInt64() {
				m.Failf("no error", "the balance overflows; got %d", d)
				stop = true
				return
			}
			m.Event("transfer done")
			diff := new(big.Int).Sub(big.NewInt(int64(d)), want)
			if !m.Check(diff.CmpAbs(big.NewInt(1)) <= 0, "weighted average age", "got %d, want %d", int64(d), want) {
				stop = true
				return
			}
			m.Check(d >= 0 && big.NewInt(int64(d)).Cmp(old) <= 0, "out of bounds", "got %d", int64(d))
			bal = nb.Int64()
		}, prev, since, qty, bal)
		if stop {
			return
		}
	}
}

func durations(m *mon.M, d int64) {
	m.Do("duration", func() {
		m.NonTrivial()
		got := int64(types.DurationFrom(time.Duration(d)))
		m.Check(got == d/1000000*1000, "DurationFrom", "got %d", got)
		if d <= math.MaxInt64/1000 && d >= math.MinInt64/1000 {
			td := int64(types.Duration(d).TimeDuration())
			m.Check(td == d/1000*1000000, "TimeDuration", "got %d", td)
		}
	}, d)
}

func main() {
	mon.Main("C09", rule, func(m *mon.M) {
		m.Require("saturating", 10000)
		m.Require("before the range", 1000)
		m.Require("after the range", 1000)
		m.Require("in the range", 5000)
		m.Require("no such date", 300)
		m.Require("parsed", 5000)
		m.Require("transfer done", 20000)
		m.Require("transfer error", 300)
		n := m.N(150000, 900000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			last4 := int64(252423993600) - 1 // seconds from 2000 to the end of 9999
			for j := 0; j < n; j++ {
				t := r.Nat()
				d := r.Int64()
				switch r.IntN(5) {
				case 0:
					d = -t + int64(r.IntN(3)) - 1
				case 1:
					d = math.MaxInt64 - t
					if r.IntN(2) == 0 {
						d += int64(r.IntN(3)) - 1
					}
				case 2:
					d = t
				}
				o := r.Nat()
				if r.IntN(3) == 0 {
					o = max(0, t-int64(r.IntN(3)))
				}
				arith(m, t, o, d)
				if j%4 == 0 {
					order(m, r.Int64(), d)
				}
				durations(m, d)
				stamp(m, t)
				s := r.Int64N(last4 + 1)
				switch r.IntN(6) {
				case 0: // around a year's end, of every kind of year
					y := 2000 + r.Int64N(8000)
					if r.IntN(2) == 0 {
						y = 2000 + 100*r.Int64N(80)
					}
					s = daysFrom2000(y, gen.Pick(r, 1, 3), 1)*86400 + int64(r.IntN(3)) - 1
				case 1:
					s = last4 - int64(r.IntN(2))
				}
				s = max(s, 0)
				us := s*gen.Second + r.Int64N(gen.Second)
				if r.IntN(3) == 0 {
					us = s*gen.Second + gen.Pick(r, int64(0), 1, 999999, 500000, 999000)
				}
				stamp(m, us)
				// calendar times
				sec := epochUnix + r.Int64N(2*last4) - last4
				if r.IntN(3) == 0 {
					sec = r.Int64() / 4
				}
				if r.IntN(4) == 0 {
					sec = epochUnix + int64(r.IntN(5)) - 2
				}
				if r.IntN(4) == 0 {
					sec = epochUnix + math.MaxInt64/gen.Second + int64(r.IntN(5)) - 2
				}
				ns := r.Int64N(1000000000)
				if r.IntN(2) == 0 {
					ns = gen.Pick(r, int64(0), 1, 999, 1000, 999999999, 775807000, 775807999, 775808000, 775806999)
				}
				calendar(m, sec, ns, gen.Pick(r, 0, 3600, -5*3600, 14*3600, -12*3600+1800))
				// texts
				tx, _ := textOf(us)
				switch r.IntN(5) {
				case 0:
					tx = tx[:19] + "Z"
				case 1:
					tx = tx[:19] + "." + fmt.Sprint(r.IntN(1000000)) + "Z"
				case 2:
					tx = fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", 1990+r.IntN(20), r.IntN(15), r.IntN(34), r.IntN(26), r.IntN(62), r.IntN(62))
				case 3:
					tx = r.Mutate(tx, "0123456789-:TZ.,+ ")
				}
				parse(m, tx)
				if r.IntN(20) == 0 {
					parse(m, r.Text("0123456789-:TZ.", 30))
				}
				if j%4 == 0 {
					history(m, r)
				}
			}
		})
	})
}
