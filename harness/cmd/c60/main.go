// C60: 256-bit sets behave as sets of the numbers 0 to 255.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ndau/ndaumath/pkg/bitset256"

	"verif/harness/gen"
	"verif/harness/mon"
)

const rule = "sequences of operations on a pool of sets, each compared with a mathematical set after every step: every operation, chains, operands which are the same object, results changed afterwards; all single elements, all pairs of elements and all triples of sets made from the boundaries of bytes and words; " +
	"every pair of a pool for order, equality and subset; non-trivial when an operand is neither empty nor full; distinct by operands and operation"

// set is the model: a number with the bits of the elements.
type set struct{ n *big.Int }

func (s set) has(i byte) bool { return s.n.Bit(int(i)) == 1 }

func (s set) with(i byte, v uint) set {
	return set{new(big.Int).SetBit(new(big.Int).Set(s.n), int(i), v)}
}

func (s set) list() []byte {
	var l []byte
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			l = append(l, byte(i))
		}
	}
	return l
}

func zero() set { return set{new(big.Int)} }

var full = set{new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))}

func (s set) trivial() bool { return s.n.Sign() == 0 || s.n.Cmp(full.n) == 0 }

// object is a set of the code under test with its model.
type object struct {
	b *bitset256.Bitset256
	s set
}

func (o *object) ok(m *mon.M, what string) bool {
	for i := 0; i < 256; i++ {
		if o.b.Get(byte(i)) != o.s.has(byte(i)) {
			m.Failf(what, "element %d: %v", i, !o.s.has(byte(i)))
			return false
		}
	}
	l := o.s.list()
	ok := m.Check(o.b.Count() == len(l), what, "count %d, want %d", o.b.Count(), len(l))
	ix := o.b.Indices()
	ok = m.Check(bytes.Equal(ix, l), what, "indices %v, want %v", ix, l) && ok
	for i := range ix {
		ix[i] ^= 0xff
	}
	return ok
}

// random set
func random(r gen.R) set {
	s := zero()
	switch r.IntN(8) {
	case 0:
		return s
	case 1:
		return set{new(big.Int).Set(full.n)}
	case 2, 3:
		for k := r.IntN(5); k >= 0; k-- {
			s = s.with(elem(r), 1)
		}
	case 4:
		s = set{new(big.Int).Set(full.n)}
		for k := r.IntN(5); k >= 0; k-- {
			s = s.with(elem(r), 0)
		}
	case 5: // whole words and bytes
		w := gen.Pick(r, 64, 8, 32, 16)
		for i := 0; i < 256; i += w {
			if r.IntN(2) == 0 {
				for j := i; j < i+w; j++ {
					s = s.with(byte(j), 1)
				}
			}
		}
	default:
		b := make([]byte, 32)
		for i := range b {
			b[i] = byte(r.Rand.Uint64())
		}
		s = set{new(big.Int).SetBytes(b)}
	}
	return s
}

func elem(r gen.R) byte {
	if r.IntN(2) == 0 {
		return gen.Pick[byte](r, 0, 1, 7, 8, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 223, 224, 254, 255)
	}
	return byte(r.IntN(256))
}

// build makes the object for a set in several ways.
func build(r gen.R, s set) *object {
	l := s.list()
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	switch r.IntN(4) {
	case 0:
		return &object{bitset256.New(l...), s}
	case 1:
		b := bitset256.New()
		for _, i := range l {
			b.Set(i)
		}
		return &object{b, s}
	case 2:
		b := bitset256.New()
		for _, i := range l {
			b.Toggle(i)
		}
		return &object{b, s}
	}
	if len(l) > 0 {
		// as many repetitions as it takes
		for n := r.Long(1200); len(l) < n; {
			l = append([]byte{l[r.IntN(len(l))]}, l...)
		}
		if r.IntN(2) == 0 {
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
	}
	return &object{bitset256.New(l...), s}
}

func cmp(m *mon.M, a, b *object) {
	c := a.s.n.Cmp(b.s.n)
	m.Event("compared")
	m.Check(a.b.Equals(b.b) == (c == 0), "Equals", "%v", c != 0)
	m.Check(a.b.Less(b.b) == (c < 0), "Less", "%v", c >= 0)
	sub := new(big.Int).AndNot(a.s.n, b.s.n).Sign() == 0
	m.Check(a.b.IsSubsetOf(b.b) == sub, "IsSubsetOf", "%v", !sub)
	m.Check((*a.b == *b.b) == (c == 0), "==", "%v", c != 0)
}

// binary applies the operations on two sets, and looks whether the results are
// their own.
func binary(m *mon.M, r gen.R, a, b *object) {
	if !a.s.trivial() || !b.s.trivial() {
		m.NonTrivial()
	}
	cmp(m, a, b)
	for _, op := range []string{"Union", "Intersect", "Clone"} {
		var got *bitset256.Bitset256
		var want set
		switch op {
		case "Union":
			got, want = a.b.Union(b.b), set{new(big.Int).Or(a.s.n, b.s.n)}
		case "Intersect":
			got, want = a.b.Intersect(b.b), set{new(big.Int).And(a.s.n, b.s.n)}
		case "Clone":
			got, want = a.b.Clone(), a.s
		}
		o := &object{got, want}
		if !o.ok(m, op) {
			continue
		}
		m.Check(got != a.b && got != b.b, op, "the result is an operand")
		i := elem(r)
		got.Toggle(i)
		o.s = want.with(i, 1-want.n.Bit(int(i)))
		o.ok(m, op+", then changed")
		a.ok(m, op+": first operand")
		b.ok(m, op+": second operand")
		a.b.Toggle(i)
		o.ok(m, op+", then the operand changed")
		if a != b && a.b != b.b {
			b.ok(m, op+", then the other operand changed")
		}
		a.b.Toggle(i)
	}
}

func sequence(m *mon.M, r gen.R, n int, trace *[]string) {
	pool := []*object{{bitset256.New(), zero()}, build(r, random(r)), build(r, random(r)), {new(bitset256.Bitset256), zero()}, build(r, random(r))}
	for k := 0; k < n; k++ {
		ai, bi := r.IntN(len(pool)), r.IntN(len(pool))
		a, b := pool[ai], pool[bi]
		i := elem(r)
		if !a.s.trivial() {
			m.NonTrivial()
		}
		op := r.IntN(13)
		*trace = append(*trace, fmt.Sprint(op, " ", ai, " ", bi, " ", i))
		var what string
		switch op {
		case 0:
			what = "Set"
			m.Check(a.b.Set(i) == a.b, what, "returns another set")
			a.s = a.s.with(i, 1)
		case 1:
			what = "Clear"
			m.Check(a.b.Clear(i) == a.b, what, "returns another set")
			a.s = a.s.with(i, 0)
		case 2:
			what = "Toggle"
			m.Check(a.b.Toggle(i) == a.b, what, "returns another set")
			a.s = a.s.with(i, 1-a.s.n.Bit(int(i)))
		case 3:
			what = "chain"
			j := elem(r)
			a.b.Set(i).Clear(j).Toggle(i).Toggle(j)
			a.s = a.s.with(i, 1).with(j, 0)
			a.s = a.s.with(i, 1-a.s.n.Bit(int(i)))
			a.s = a.s.with(j, 1-a.s.n.Bit(int(j)))
		case 4:
			what = "Clone"
			pool[bi] = &object{a.b.Clone(), a.s}
		case 5:
			what = "Union"
			pool[r.IntN(len(pool))] = &object{a.b.Union(b.b), set{new(big.Int).Or(a.s.n, b.s.n)}}
		case 6:
			what = "Intersect"
			pool[r.IntN(len(pool))] = &object{a.b.Intersect(b.b), set{new(big.Int).And(a.s.n, b.s.n)}}
		case 7:
			what = "compare"
			cmp(m, a, b)
		case 8:
			what = "binary"
			binary(m, r, a, b)
		case 9:
			what = "same object"
			binary(m, r, a, a)
		case 10:
			what = "copy"
			c := *a.b
			pool[bi] = &object{&c, a.s}
		case 11:
			what = "bytes"
			c, err := bitset256.FromBytes(a.b.AsBytes())
			if m.Check(err == nil, what, "%v", err) {
				pool[bi] = &object{c, a.s}
			}
		case 12:
			what = "new"
			pool[ai] = build(r, random(r))
		}
		for _, o := range pool {
			if !o.ok(m, what) {
				return
			}
		}
	}
}

func main() {
	mon.Main("C60", rule, func(m *mon.M) {
		m.Require("compared", 50000)
		m.Par("elements", 256, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := 0; j < 256; j++ {
				m.Do("pair of elements", func() {
					m.NonTrivial()
					a, b := &object{bitset256.New(byte(i)), zero().with(byte(i), 1)}, &object{bitset256.New(byte(j)), zero().with(byte(j), 1)}
					cmp(m, a, b)
					two := &object{bitset256.New(byte(i), byte(j)), zero().with(byte(i), 1).with(byte(j), 1)}
					cmp(m, a, two)
					cmp(m, two, b)
					two.b.Toggle(byte(i))
					two.s = two.s.with(byte(i), 0)
					cmp(m, two, b)
					if j == 0 || r.IntN(8) == 0 {
						a.ok(m, "New")
						two.ok(m, "Toggle")
						binary(m, r, a, b)
						f := &object{build(r, full).b, full}
						f.b.Clear(byte(i)).Clear(byte(j))
						f.s = f.s.with(byte(i), 0).with(byte(j), 0)
						f.ok(m, "Clear")
						cmp(m, a, f)
						cmp(m, f, b)
					}
				}, i, j)
			}
		})
		m.Par("pool", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for k := 0; k < m.N(20, 100); k++ {
				var pool []*object
				for j := 0; j < 24; j++ {
					s := random(r)
					if j > 0 && r.IntN(2) == 0 {
						// near another
						s = pool[r.IntN(j)].s
						for q := r.IntN(3); q >= 0; q-- {
							e := elem(r)
							s = s.with(e, 1-s.n.Bit(int(e)))
						}
					}
					pool = append(pool, build(r, s))
				}
				for _, a := range pool {
					for _, b := range pool {
						m.Do("pair", func() { binary(m, r, a, b) }, a.s.n, b.s.n)
					}
				}
			}
		})
		m.Par("sequence", 64, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for k := 0; k < m.N(200, 1500); k++ {
				var trace []string
				m.Do("sequence", func() { sequence(m, r, 5+r.IntN(40), &trace) }, i, k, func() string { return fmt.Sprint(trace) })
			}
		})
	})
}
