package ref

import (
	"fmt"
	"math/big"
	"strings"
)

// Denoted is what a text denotes.
type Denoted int

// The kinds of texts.
const (
	NotInFormat Denoted = iota
	Value               // a number
	Either              // a degenerate form of 0: accepting it or not is up to the code
)

func digits(s string) (string, string) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return s[:i], s[i:]
}

func scaled(whole, frac string, places int) *big.Int {
	n, _ := new(big.Int).SetString("0"+whole+frac+strings.Repeat("0", places-len(frac)), 10)
	return n
}

const space = " \t\n\f\r"

// NdauText is what a text denotes as an amount, in napu.
func NdauText(s string) (*big.Int, Denoted) {
	s = strings.Trim(s, space)
	whole, rest := digits(s)
	frac := ""
	if strings.HasPrefix(rest, ".") {
		frac, rest = digits(rest[1:])
		if len(frac) < 1 || len(frac) > 8 {
			return nil, NotInFormat
		}
	}
	if rest != "" {
		return nil, NotInFormat
	}
	if whole == "" && frac == "" {
		return new(big.Int), Either
	}
	return scaled(whole, frac, 8), Value
}

func decimal(n *big.Int, places int) string {
	s := n.String()
	if len(s) <= places {
		s = strings.Repeat("0", places+1-len(s)) + s
	}
	w, f := s[:len(s)-places], strings.TrimRight(s[len(s)-places:], "0")
	if f != "" {
		w += "." + f
	}
	return w
}

// FormatNdau is the canonical text of an amount.
func FormatNdau(n int64) string {
	b := big.NewInt(n)
	if n < 0 {
		return "-" + decimal(b.Neg(b), 8)
	}
	return decimal(b, 8)
}

// RateText is what a text denotes as a rate.
func RateText(s string) (*big.Int, Denoted) {
	s = strings.Trim(s, space)
	whole, rest := digits(s)
	if whole == "" {
		return nil, NotInFormat
	}
	frac := ""
	if strings.HasPrefix(rest, ".") {
		frac, rest = digits(rest[1:])
		if len(frac) < 1 || len(frac) > 10 {
			return nil, NotInFormat
		}
	}
	if rest != "%" {
		return nil, NotInFormat
	}
	return scaled(whole, frac, 10), Value
}

// FormatRate is the canonical text of a rate, not negative.
func FormatRate(r int64) string { return decimal(big.NewInt(r), 10) + "%" }

// DollarsText is what a text denotes as a price, in nanocents.
func DollarsText(s string) (*big.Int, Denoted) {
	s = strings.TrimSpace(s)
	s = strings.NewReplacer(",", "", "_", "").Replace(s)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	s = strings.TrimPrefix(s, "$")
	whole, rest := digits(s)
	if whole == "" {
		return nil, NotInFormat
	}
	frac := ""
	if strings.HasPrefix(rest, ".") {
		frac, rest = digits(rest[1:])
		if len(frac) < 2 || len(frac) > 11 {
			return nil, NotInFormat
		}
	}
	if rest != "" {
		return nil, NotInFormat
	}
	n := scaled(whole, frac, 11)
	if neg {
		n.Neg(n)
	}
	return n, Value
}

var durUnits = []struct {
	sym  string
	us   int64
	max  int // digits
	time bool
}{
	{"y", 365 * 86400 * 1000000, 1 << 30, false},
	{"m", 30 * 86400 * 1000000, 2, false},
	{"d", 86400 * 1000000, 2, false},
	{"h", 3600 * 1000000, 2, true},
	{"m", 60 * 1000000, 2, true},
	{"s", 1000000, 2, true},
	{"u", 1, 6, true},
}

// DurationText is what a text denotes as a duration, in microseconds.
func DurationText(s string) (*big.Int, Denoted) {
	for _, c := range s {
		if c >= 0x80 && c != 'μ' {
			// case folding of other letters
			return nil, Either
		}
	}
	s = strings.ReplaceAll(strings.ToLower(s), "μ", "u")
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	s = strings.TrimPrefix(s, "p")
	sum := new(big.Int)
	some, inTime := false, false
	for _, u := range durUnits {
		if u.time && !inTime {
			if !strings.HasPrefix(s, "t") {
				break
			}
			s = s[1:]
			inTime = true
		}
		d, rest := digits(s)
		if d == "" || !strings.HasPrefix(rest, u.sym) {
			continue
		}
		if len(d) > u.max {
			return nil, NotInFormat
		}
		n, _ := new(big.Int).SetString(d, 10)
		sum.Add(sum, n.Mul(n, big.NewInt(u.us)))
		s = rest[1:]
		if u.sym == "u" {
			s = strings.TrimPrefix(s, "s")
		}
		some = true
	}
	if s != "" {
		return nil, NotInFormat
	}
	if neg {
		sum.Neg(sum)
	}
	if !some {
		return sum, Either
	}
	return sum, Value
}

// FormatDuration is the canonical text of a duration.
func FormatDuration(d int64) string {
	n := big.NewInt(d)
	out := ""
	if d < 0 {
		n.Neg(n)
		out = "-"
	}
	if d == 0 {
		return "t0s"
	}
	t := false
	for _, u := range durUnits {
		q, r := new(big.Int).QuoRem(n, big.NewInt(u.us), new(big.Int))
		n = r
		if q.Sign() == 0 {
			continue
		}
		if u.time && !t {
			out += "t"
			t = true
		}
		out += q.String() + u.sym
		if u.sym == "u" {
			out += "s"
		}
	}
	return out
}

var _ = fmt.Sprint
