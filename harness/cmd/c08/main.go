// C08: text forms of amounts, rates, prices and durations.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "texts of the grammar with components of every size around the limits of the range, canonical texts of values, mutations of them, and arbitrary text; values at boundaries and of every magnitude; " +
	"non-trivial when the text is in the format (value or overflow) or a value was formatted; distinct by text or value"

type format struct {
	name  string
	parse func(string) (int64, error)
	ref   func(string) (*big.Int, ref.Denoted)
	alpha string
}

var formats = []format{
	{"Ndau", func(s string) (int64, error) { n, err := types.ParseNdau(s); return int64(n), err }, ref.NdauText, "0123456789. -"},
	{"Rate", func(s string) (int64, error) { n, err := eai.ParseRate(s); return int64(n), err }, ref.RateText, "0123456789.% "},
	{"Dollars", func(s string) (int64, error) { n, err := pricecurve.ParseDollars(s); return int64(n), err }, ref.DollarsText, "0123456789.$,_- "},
	{"Duration", func(s string) (int64, error) { n, err := types.ParseDuration(s); return int64(n), err }, ref.DurationText, "0123456789ymdthsup-YMT"},
}

func parse(m *mon.M, f format, s string) {
	m.Do("parse "+f.name, func() {
		want, kind := f.ref(s)
		got, err := f.parse(s)
		switch kind {
		case ref.NotInFormat:
			m.Event("not in the format")
			m.Check(err != nil, "not rejected", "got %d", got)
		case ref.Either:
			if err == nil && want != nil {
				m.Check(got == 0, "wrong value", "got %d", got)
			}
		case ref.Value:
			m.NonTrivial()
			switch {
			case !want.IsInt64():
				m.Event("overflow")
				m.Check(err != nil, "no error", "got %d, but it denotes %s", got, want)
			case err != nil:
				if f.name == "Dollars" && want.Int64() == math.MinInt64 {
					return
				}
				m.Failf("spurious error", "%v; it denotes %s", err, want)
			default:
				m.Event("value")
				m.Check(got == want.Int64(), "wrong value", "got %d, but it denotes %s", got, want)
			}
		}
	}, s)
}

func number(r gen.R, maxDigits int, limit *big.Int) string {
	var s string
	switch r.IntN(5) {
	case 0:
		// around the limit of the range
		n := new(big.Int).Add(limit, big.NewInt(int64(r.IntN(5))-2))
		s = n.String()
	case 1:
		s = fmt.Sprint(r.Gen())
	case 2:
		s = fmt.Sprint(r.IntN(100))
	case 3:
		// multiples of the period of a wrapping product
		n := new(big.Int).Lsh(big.NewInt(1), uint(64+r.IntN(3)))
		n.Mul(n, limit).Rsh(n, 63)
		n.Add(n, big.NewInt(int64(r.IntN(1000))))
		s = n.String()
	default:
		s = fmt.Sprint(r.Rand.Uint64() >> r.IntN(64))
	}
	if r.IntN(12) == 0 {
		s = strings.Repeat("0", r.IntN(25)) + s
	}
	if len(s) > maxDigits && r.IntN(20) != 0 {
		s = s[:maxDigits]
	}
	return s
}

func frac(r gen.R, n int) string {
	k := 1 + r.IntN(n)
	if r.IntN(10) == 0 {
		k = n + 1
	}
	b := make([]byte, k)
	for i := range b {
		b[i] = byte('0' + r.IntN(10))
		if r.IntN(3) == 0 {
			b[i] = gen.Pick(r, byte('0'), '9')
		}
	}
	return string(b)
}

func pad(r gen.R, s string) string {
	if r.IntN(10) == 0 {
		s = gen.Pick(r, " ", "\t", "\n", "  ", "\r\n") + s
	}
	if r.IntN(10) == 0 {
		s += gen.Pick(r, " ", "\t", "\n", "  ", "\r\n")
	}
	return s
}

func lim(unit int64) *big.Int { return big.NewInt(math.MaxInt64 / unit) }

func text(r gen.R, f format) string {
	switch f.name {
	case "Ndau":
		s := ""
		if r.IntN(10) != 0 {
			s = number(r, 40, lim(gen.Napu))
		}
		if r.IntN(2) == 0 {
			s += "." + frac(r, 8)
		}
		if r.IntN(6) == 0 {
			s = decimalOf(r, 8)
		}
		return pad(r, s)
	case "Rate":
		s := number(r, 40, lim(gen.RateD/100))
		if r.IntN(2) == 0 {
			s += "." + frac(r, 10)
		}
		if r.IntN(6) == 0 {
			s = decimalOf(r, 10)
		}
		return pad(r, s+"%")
	case "Dollars":
		s := number(r, 40, lim(100000000000))
		if r.IntN(4) == 0 && len(s) > 3 {
			s = s[:len(s)-3] + gen.Pick(r, ",", "_") + s[len(s)-3:]
		}
		if r.IntN(2) == 0 {
			s += "." + frac(r, 11)
		}
		if r.IntN(6) == 0 {
			s = decimalOf(r, 11)
		}
		if r.IntN(2) == 0 {
			s = "$" + s
		}
		if r.IntN(3) == 0 {
			s = "-" + s
		}
		return pad(r, s)
	default:
		if r.IntN(8) == 0 {
			return nearLimit(r)
		}
		var sb strings.Builder
		if r.IntN(4) == 0 {
			sb.WriteByte('-')
		}
		if r.IntN(4) == 0 {
			sb.WriteByte('p')
		}
		if r.IntN(2) == 0 {
			sb.WriteString(number(r, 40, lim(gen.Year)) + "y")
		}
		for _, u := range []string{"m", "d"} {
			if r.IntN(3) == 0 {
				sb.WriteString(number(r, 2, big.NewInt(29)) + u)
			}
		}
		if r.IntN(2) == 0 {
			sb.WriteByte('t')
			for _, u := range []string{"h", "m", "s"} {
				if r.IntN(3) == 0 {
					sb.WriteString(number(r, 2, big.NewInt(60)) + u)
				}
			}
			if r.IntN(3) == 0 {
				sb.WriteString(number(r, 6, big.NewInt(999999)) + gen.Pick(r, "us", "u", "μs", "μ"))
			}
		}
		s := sb.String()
		if r.IntN(5) == 0 {
			s = r.Case(s)
		}
		return s
	}
}

// nearLimit is the text of the largest or smallest duration with some of its
// components changed.
func nearLimit(r gen.R) string {
	s := ref.FormatDuration(gen.Pick[int64](r, math.MaxInt64, math.MinInt64))
	var parts []string // numbers and what stands between them
	for i, c := range s {
		d := c >= '0' && c <= '9'
		if i == 0 || d != (len(parts)%2 == 0) {
			parts = append(parts, "")
			if i == 0 && d {
				parts = append(parts, "")
			}
		}
		parts[len(parts)-1] += string(c)
	}
	change := func(i int) {
		n, _ := new(big.Int).SetString(parts[i], 10)
		n.Add(n, big.NewInt(int64(r.IntN(4))-1))
		if n.Sign() >= 0 {
			parts[i] = n.String()
		}
	}
	change(1 + 2*r.IntN(len(parts)/2))
	if r.IntN(2) == 0 {
		change(1 + 2*r.IntN(len(parts)/2))
	}
	if r.IntN(4) == 0 { // the other sign
		if parts[0] == "" {
			parts[0] = "-"
		} else {
			parts[0] = ""
		}
	}
	return strings.Join(parts, "")
}

// decimalOf is a decimal number just around 2^63 units.
func decimalOf(r gen.R, places int) string {
	n := new(big.Int).Lsh(big.NewInt(1), 63)
	n.Add(n, big.NewInt(int64(r.IntN(9))-4))
	s := n.String()
	return s[:len(s)-places] + "." + s[len(s)-places:]
}

func format1(m *mon.M, v int64) {
	m.Do("format", func() {
		m.NonTrivial()
		s := types.Ndau(v).String()
		m.Check(s == ref.FormatNdau(v), "text of an amount", "got %q, want %q", s, ref.FormatNdau(v))
		d := types.Duration(v)
		s = d.String()
		m.Check(s == ref.FormatDuration(v), "text of a duration", "got %q, want %q", s, ref.FormatDuration(v))
		back, err := types.ParseDuration(s)
		m.Check(err == nil && back == d, "duration round trip", "%q gives %d, %v", s, back, err)
		b, err := d.MarshalText()
		m.Check(err == nil && string(b) == s, "text of a duration", "MarshalText gives %q, %v", b, err)
		d2 := types.Duration(77)
		m.Check(d2.UnmarshalText(m.Arg(b)) == nil && d2 == d, "duration round trip", "UnmarshalText of %q gives %d", b, d2)
		j, err := json.Marshal(map[string]types.Duration{"d": d})
		var back2 map[string]types.Duration
		m.Check(err == nil && json.Unmarshal(j, &back2) == nil && back2["d"] == d, "duration round trip", "JSON %s gives %v", j, back2)
		if v >= 0 {
			n, err := types.ParseNdau(types.Ndau(v).String())
			m.Check(err == nil && int64(n) == v, "amount round trip", "%q gives %d, %v", types.Ndau(v), n, err)
			rt := eai.Rate(v)
			s := rt.String()
			m.Check(s == ref.FormatRate(v), "text of a rate", "got %q, want %q", s, ref.FormatRate(v))
			r2, err := eai.ParseRate(s)
			m.Check(err == nil && r2 == rt, "rate round trip", "%q gives %d, %v", s, r2, err)
		}
	}, v)
}

func row(m *mon.M, r gen.R) {
	row := eai.RTRow{From: types.Duration(r.Int64()), Rate: eai.Rate(r.Nat())}
	m.Do("rate table row", func() {
		m.NonTrivial()
		b, err := row.MarshalText()
		want := ref.FormatDuration(int64(row.From)) + ":" + ref.FormatRate(int64(row.Rate))
		m.Check(err == nil && string(b) == want, "text of a row", "got %q, want %q", b, want)
		back := eai.RTRow{From: 5, Rate: 6}
		err = back.UnmarshalText(m.Arg(b))
		m.Check(err == nil && back == row, "row round trip", "%q gives %v, %v", b, back, err)
	}, int64(row.From), int64(row.Rate))
	s := text(r, formats[3]) + ":" + text(r, formats[1])
	if r.IntN(4) == 0 {
		s = r.Mutate(s, "0123456789:.%ymdths")
	}
	m.Do("parse row", func() {
		var got eai.RTRow
		err := got.UnmarshalText(m.Arg([]byte(s)))
		p := strings.Split(s, ":")
		if len(p) != 2 {
			m.Check(err != nil, "not rejected", "got %v", got)
			return
		}
		d, k1 := ref.DurationText(p[0])
		rate, k2 := ref.RateText(p[1])
		switch {
		case k1 == ref.Either || k2 == ref.Either:
		case k1 == ref.NotInFormat || k2 == ref.NotInFormat || !d.IsInt64() || !rate.IsInt64():
			m.Check(err != nil, "not rejected", "got %v", got)
		default:
			m.NonTrivial()
			m.Check(err == nil && int64(got.From) == d.Int64() && int64(got.Rate) == rate.Int64(), "wrong row", "got %v, %v", got, err)
		}
	}, s)
}

func unmarshalKeeps(m *mon.M, r gen.R) {
	s := r.Mutate(text(r, formats[3]), formats[3].alpha)
	m.Do("UnmarshalText of Duration", func() {
		v := r.Int64()
		d := types.Duration(v)
		err := d.UnmarshalText(m.Arg([]byte(s)))
		w, perr := types.ParseDuration(s)
		m.Check((err == nil) == (perr == nil), "parsers disagree", "%v, %v", err, perr)
		if err != nil {
			m.Check(int64(d) == v, "receiver changed", "%d became %d with %v", v, d, err)
		} else {
			m.NonTrivial()
			m.Check(d == w, "parsers disagree", "%d, %d", d, w)
		}
	}, s)
}

func main() {
	mon.Main("C08", rule, func(m *mon.M) {
		m.Require("overflow", 5000)
		m.Require("value", 20000)
		m.Require("not in the format", 5000)
		m.Do("nil receivers", func() {
			m.Check((*types.Duration)(nil).UnmarshalText([]byte("1y")) != nil, "nil receiver", "no error")
		})
		m.Do("RateFromPercent", func() {
			for p := uint64(0); p < 2000; p++ {
				m.Check(int64(eai.RateFromPercent(p)) == int64(p)*gen.RateD/100, "percent", "%d%% gives %d", p, eai.RateFromPercent(p))
			}
		})
		n := m.N(50000, 250000)
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < n; j++ {
				for _, f := range formats {
					s := text(r, f)
					switch r.IntN(6) {
					case 0:
						s = r.Mutate(s, f.alpha)
					case 1:
						s = r.Mutate(r.Mutate(s, f.alpha), f.alpha)
					case 2:
						if r.IntN(4) == 0 {
							s = r.Text(f.alpha, 40)
						}
					}
					parse(m, f, s)
				}
				format1(m, r.Int64())
				row(m, r)
				unmarshalKeeps(m, r)
			}
		})
	})
}
