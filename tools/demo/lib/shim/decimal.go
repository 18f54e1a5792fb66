// Package decimal is a stand-in for github.com/ericlagergren/decimal, whose
// source is not available in this offline sandbox. It offers the part of the
// API that ndau/ndaumath and its tests use and some more, computes with
// math/big, and follows the documented contracts: Int64 and Uint64 truncate
// toward zero and report whether the result is in range, QuoInt and QuoRem
// truncate toward zero, Rem takes the sign of the dividend, and the results of
// Add, Sub, Mul and Quo are rounded to the precision of the context, half to even.
//
// Difference from the real library: Context128 has 34 significant digits there;
// this stand-in computes exactly in contexts of 34 and more digits. See
// DESIGN.md, "The decimal stand-in".
package decimal

import (
	"errors"
	"math/big"
)

// RoundingMode mirrors decimal.RoundingMode.
type RoundingMode uint8

// The rounding modes.
const (
	ToNearestEven RoundingMode = iota
	ToNearestAway
	ToZero
	AwayFromZero
	ToNegativeInf
	ToPositiveInf
	ToNearestTowardZero
)

// OperatingMode mirrors decimal.OperatingMode.
type OperatingMode uint8

// The operating modes.
const (
	GDA OperatingMode = iota
	Go
)

// Limits of the real library.
const (
	MaxScale           = 999999999999999999
	MinScale           = -MaxScale
	MaxPrecision       = MaxScale
	MinPrecision       = 1
	UnlimitedPrecision = MaxPrecision + 1
	DefaultPrecision   = 16
)

// Condition mirrors decimal.Condition.
type Condition uint32

// The conditions.
const (
	Clamped Condition = 1 << iota
	ConversionSyntax
	DivisionByZero
	DivisionImpossible
	DivisionUndefined
	Inexact
	InsufficientStorage
	InvalidContext
	InvalidOperation
	Overflow
	Rounded
	Subnormal
	Underflow
)

// Error mirrors Condition.Error.
func (c Condition) Error() string { return c.String() }

func (c Condition) String() string {
	if c == 0 {
		return ""
	}
	return "decimal: condition"
}

// Context mirrors decimal.Context.
type Context struct {
	Precision     int
	Traps         Condition
	Conditions    Condition
	RoundingMode  RoundingMode
	OperatingMode OperatingMode
	MaxScale      int
	MinScale      int
}

// Err mirrors Context.Err.
func (c Context) Err() error {
	if c.Conditions&(InvalidOperation|DivisionByZero|DivisionUndefined|DivisionImpossible) != 0 {
		return errors.New("decimal: invalid operation")
	}
	return nil
}

// The predefined contexts.
var (
	Context32        = Context{Precision: 7}
	Context64        = Context{Precision: 16}
	Context128       = Context{Precision: 34}
	ContextUnlimited = Context{Precision: UnlimitedPrecision, OperatingMode: GDA}
)

// exactDigits is the precision from which this stand-in computes exactly.
const exactDigits = 34

// Big is a decimal number: an integer, or (frac non-nil) an exact rational.
type Big struct {
	Context Context
	i       big.Int
	frac    *big.Rat
	nan     bool
}

// WithContext returns a zero Big.
func WithContext(c Context) *Big { return &Big{Context: c} }

// New returns value * 10^-scale.
func New(value int64, scale int) *Big { return WithContext(Context128).SetMantScale(value, scale) }

// SetRat sets z to r (stand-in only).
func (z *Big) SetRat(r *big.Rat) *Big {
	z.nan = false
	if r.IsInt() {
		z.frac = nil
		z.i.Set(r.Num())
	} else {
		z.frac = new(big.Rat).Set(r)
	}
	return z
}

// Rat returns the exact value (stand-in only).
func (z *Big) Rat() *big.Rat {
	if z.frac != nil {
		return new(big.Rat).Set(z.frac)
	}
	return new(big.Rat).SetInt(&z.i)
}

// SetUint64 sets z to x.
func (z *Big) SetUint64(x uint64) *Big {
	z.nan, z.frac = false, nil
	z.i.SetUint64(x)
	return z
}

// SetMantScale sets z to value * 10^-scale.
func (z *Big) SetMantScale(value int64, scale int) *Big {
	z.nan, z.frac = false, nil
	z.i.SetInt64(value)
	if scale == 0 {
		return z
	}
	a := scale
	if a < 0 {
		a = -a
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(a)), nil)
	if scale < 0 {
		z.i.Mul(&z.i, p)
		return z
	}
	return z.SetRat(new(big.Rat).SetFrac(&z.i, p))
}

// Set sets z to x.
func (z *Big) Set(x *Big) *Big {
	return z.Copy(x).round()
}

// Copy sets z to x, without rounding.
func (z *Big) Copy(x *Big) *Big {
	if x.nan {
		z.nan = true
		return z
	}
	return z.SetRat(x.Rat())
}

func pow10(n int) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
}

// roundInt returns n/d rounded to an integer.
func roundInt(n, d *big.Int, mode RoundingMode) *big.Int {
	neg := n.Sign()*d.Sign() < 0
	q, r := new(big.Int).QuoRem(new(big.Int).Abs(n), new(big.Int).Abs(d), new(big.Int))
	if r.Sign() != 0 {
		half := new(big.Int).Lsh(r, 1).CmpAbs(d)
		var up bool
		switch mode {
		case ToNearestEven:
			up = half > 0 || half == 0 && q.Bit(0) == 1
		case ToNearestAway:
			up = half >= 0
		case ToNearestTowardZero:
			up = half > 0
		case AwayFromZero:
			up = true
		case ToNegativeInf:
			up = neg
		case ToPositiveInf:
			up = !neg
		}
		if up {
			q.Add(q, big.NewInt(1))
		}
	}
	if neg {
		q.Neg(q)
	}
	return q
}

// Round rounds z to n significant digits.
func (z *Big) Round(n int) *Big {
	if z.nan || n <= 0 || z.Sign() == 0 {
		return z
	}
	r := z.Rat()
	// the number of digits before the decimal point, 0 or less if there are none
	digits := len(new(big.Int).Quo(new(big.Int).Abs(r.Num()), r.Denom()).String())
	abs := new(big.Rat).Abs(r)
	for digits > -60 && abs.Cmp(new(big.Rat).SetFrac(big.NewInt(1), pow10(max(0, 1-digits)))) < 0 {
		digits--
	}
	if drop := digits - n; drop > 0 {
		p := pow10(drop)
		q := roundInt(r.Num(), new(big.Int).Mul(r.Denom(), p), z.Context.RoundingMode)
		return z.SetRat(new(big.Rat).SetInt(q.Mul(q, p)))
	} else {
		p := pow10(-drop)
		q := roundInt(new(big.Int).Mul(r.Num(), p), r.Denom(), z.Context.RoundingMode)
		return z.SetRat(new(big.Rat).SetFrac(q, p))
	}
}

// round rounds z to the precision of its context.
func (z *Big) round() *Big {
	p := z.Context.Precision
	if p == 0 {
		p = DefaultPrecision
	}
	if p >= exactDigits {
		return z
	}
	return z.Round(p)
}

func (z *Big) bin(x, y *Big, fi func(z, a, b *big.Int) *big.Int, fr func(z, a, b *big.Rat) *big.Rat) *Big {
	switch {
	case x.nan || y.nan:
		z.nan = true
	case x.frac == nil && y.frac == nil:
		z.nan, z.frac = false, nil
		fi(&z.i, &x.i, &y.i)
	default:
		z.SetRat(fr(new(big.Rat), x.Rat(), y.Rat()))
	}
	return z.round()
}

// Add sets z to x+y.
func (z *Big) Add(x, y *Big) *Big { return z.bin(x, y, (*big.Int).Add, (*big.Rat).Add) }

// Sub sets z to x-y.
func (z *Big) Sub(x, y *Big) *Big { return z.bin(x, y, (*big.Int).Sub, (*big.Rat).Sub) }

// Mul sets z to x*y.
func (z *Big) Mul(x, y *Big) *Big { return z.bin(x, y, (*big.Int).Mul, (*big.Rat).Mul) }

// Quo sets z to x/y.
func (z *Big) Quo(x, y *Big) *Big {
	if x.nan || y.nan || y.Sign() == 0 {
		z.nan = true
		return z
	}
	return z.SetRat(new(big.Rat).Quo(x.Rat(), y.Rat())).round()
}

// QuoInt sets z to the integer part of x/y.
func (z *Big) QuoInt(x, y *Big) *Big {
	z.QuoRem(x, y, new(Big))
	return z
}

// QuoRem sets z to the integer part of x/y and r to the remainder.
func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	if x.nan || y.nan || y.Sign() == 0 {
		z.nan, r.nan = true, true
		return z, r
	}
	if x.frac == nil && y.frac == nil {
		var q, m big.Int
		q.QuoRem(&x.i, &y.i, &m)
		z.nan, z.frac, r.nan, r.frac = false, nil, false, nil
		z.i.Set(&q)
		r.i.Set(&m)
		return z, r
	}
	xr, yr := x.Rat(), y.Rat()
	d := new(big.Rat).Quo(xr, yr)
	q := new(big.Rat).SetInt(new(big.Int).Quo(d.Num(), d.Denom()))
	m := new(big.Rat).Sub(xr, new(big.Rat).Mul(q, yr))
	z.SetRat(q)
	r.SetRat(m)
	return z, r
}

// Rem sets z to the remainder of x/y.
func (z *Big) Rem(x, y *Big) *Big {
	new(Big).QuoRem(x, y, z)
	return z
}

// RoundToInt rounds z to an integer, by the rounding mode of its context.
func (z *Big) RoundToInt() *Big {
	if z.nan || z.frac == nil {
		return z
	}
	q := roundInt(z.frac.Num(), z.frac.Denom(), z.Context.RoundingMode)
	z.frac = nil
	z.i.Set(q)
	return z
}

// Cmp compares x and y.
func (z *Big) Cmp(y *Big) int { return z.Rat().Cmp(y.Rat()) }

// Sign returns the sign of z.
func (z *Big) Sign() int {
	if z.frac != nil {
		return z.frac.Sign()
	}
	return z.i.Sign()
}

func (z *Big) trunc() *big.Int {
	if z.frac == nil {
		return &z.i
	}
	return new(big.Int).Quo(z.frac.Num(), z.frac.Denom())
}

// Int64 returns z truncated toward zero, and whether that fits an int64.
func (z *Big) Int64() (int64, bool) {
	if t := z.trunc(); !z.nan && t.IsInt64() {
		return t.Int64(), true
	}
	return 0, false
}

// Uint64 returns z truncated toward zero, and whether that fits a uint64.
func (z *Big) Uint64() (uint64, bool) {
	if t := z.trunc(); !z.nan && t.IsUint64() {
		return t.Uint64(), true
	}
	return 0, false
}

// String formats z.
func (z *Big) String() string {
	switch {
	case z.nan:
		return "NaN"
	case z.frac == nil:
		return z.i.String()
	}
	return z.frac.FloatString(40)
}

// WithPrecision returns a zero Big of the given precision.
func WithPrecision(p int) *Big {
	c := Context64
	c.Precision = p
	return WithContext(c)
}

// NewInt returns value (stand-in only).
func NewInt(value int64) *Big { return New(value, 0) }

// FMA sets z to x*y+u, with one rounding.
func (z *Big) FMA(x, y, u *Big) *Big {
	if x.nan || y.nan || u.nan {
		z.nan = true
		return z
	}
	r := new(big.Rat).Mul(x.Rat(), y.Rat())
	return z.SetRat(r.Add(r, u.Rat())).round()
}

// CmpAbs compares the absolute values.
func (z *Big) CmpAbs(y *Big) int {
	return new(big.Rat).Abs(z.Rat()).Cmp(new(big.Rat).Abs(y.Rat()))
}

// Abs sets z to |x|.
func (z *Big) Abs(x *Big) *Big {
	if x.nan {
		z.nan = true
		return z
	}
	return z.SetRat(new(big.Rat).Abs(x.Rat())).round()
}

// Neg sets z to -x.
func (z *Big) Neg(x *Big) *Big {
	if x.nan {
		z.nan = true
		return z
	}
	return z.SetRat(new(big.Rat).Neg(x.Rat())).round()
}

// CopySign sets z to x with the sign of y.
func (z *Big) CopySign(x, y *Big) *Big {
	if (x.Sign() < 0) != (y.Sign() < 0) {
		return z.SetRat(new(big.Rat).Neg(x.Rat()))
	}
	return z.Copy(x)
}

// Signbit reports whether z is negative.
func (z *Big) Signbit() bool { return z.Sign() < 0 }

// IsInt reports whether z is an integer.
func (z *Big) IsInt() bool { return !z.nan && z.frac == nil }

// IsFinite reports whether z is a number.
func (z *Big) IsFinite() bool { return !z.nan }

// IsNaN reports whether z is not a number; the kind is not distinguished.
func (z *Big) IsNaN(quiet int) bool { return z.nan }

// IsInf is false: the stand-in has no infinities.
func (z *Big) IsInf(sign int) bool { return false }

// IsNormal reports whether z is a number other than 0.
func (z *Big) IsNormal() bool { return !z.nan && z.Sign() != 0 }

// Int sets i to z truncated toward zero.
func (z *Big) Int(i *big.Int) *big.Int {
	if i == nil {
		i = new(big.Int)
	}
	return i.Set(z.trunc())
}

// SetBigMantScale sets z to value * 10^-scale.
func (z *Big) SetBigMantScale(value *big.Int, scale int) *Big {
	if scale <= 0 {
		return z.SetRat(new(big.Rat).SetInt(new(big.Int).Mul(value, pow10(-scale))))
	}
	return z.SetRat(new(big.Rat).SetFrac(value, pow10(scale)))
}

// SetFloat64 sets z to x.
func (z *Big) SetFloat64(x float64) *Big {
	r := new(big.Rat)
	if r.SetFloat64(x) == nil {
		z.nan = true
		return z
	}
	return z.SetRat(r)
}

// Float64 returns the nearest float64, and whether it is exact.
func (z *Big) Float64() (float64, bool) { return z.Rat().Float64() }

// SetString sets z to the value of s.
func (z *Big) SetString(s string) (*Big, bool) {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		z.nan = true
		return nil, false
	}
	return z.SetRat(r).round(), true
}

// Precision returns the number of digits of an integral z.
func (z *Big) Precision() int { return len(new(big.Int).Abs(z.trunc()).String()) }

// Reduce is the identity here.
func (z *Big) Reduce() *Big { return z }

// Quantize rounds z to n digits after the decimal point.
func (z *Big) Quantize(n int) *Big {
	if z.nan {
		return z
	}
	r := z.Rat()
	if n >= 0 {
		p := pow10(n)
		return z.SetRat(new(big.Rat).SetFrac(roundInt(new(big.Int).Mul(r.Num(), p), r.Denom(), z.Context.RoundingMode), p))
	}
	p := pow10(-n)
	q := roundInt(r.Num(), new(big.Int).Mul(r.Denom(), p), z.Context.RoundingMode)
	return z.SetRat(new(big.Rat).SetInt(q.Mul(q, p)))
}

// Max returns the greatest of x.
func Max(x ...*Big) *Big {
	m := x[0]
	for _, v := range x[1:] {
		if v.Cmp(m) > 0 {
			m = v
		}
	}
	return m
}

// Min returns the least of x.
func Min(x ...*Big) *Big {
	m := x[0]
	for _, v := range x[1:] {
		if v.Cmp(m) < 0 {
			m = v
		}
	}
	return m
}

// The operations as methods of a context.

// Add sets z to x+y.
func (c Context) Add(z, x, y *Big) *Big { z.Context = c; return z.Add(x, y) }

// Sub sets z to x-y.
func (c Context) Sub(z, x, y *Big) *Big { z.Context = c; return z.Sub(x, y) }

// Mul sets z to x*y.
func (c Context) Mul(z, x, y *Big) *Big { z.Context = c; return z.Mul(x, y) }

// Quo sets z to x/y.
func (c Context) Quo(z, x, y *Big) *Big { z.Context = c; return z.Quo(x, y) }

// QuoInt sets z to the integer part of x/y.
func (c Context) QuoInt(z, x, y *Big) *Big { return z.QuoInt(x, y) }

// QuoRem sets z to the integer part of x/y and r to the remainder.
func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) { return z.QuoRem(x, y, r) }

// Rem sets z to the remainder of x/y.
func (c Context) Rem(z, x, y *Big) *Big { return z.Rem(x, y) }

// RoundToInt rounds z to an integer.
func (c Context) RoundToInt(z *Big) *Big { z.Context = c; return z.RoundToInt() }

// Round rounds z to the precision of the context.
func (c Context) Round(z *Big) *Big { z.Context = c; return z.round() }
