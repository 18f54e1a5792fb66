// C23: derivation by path.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "paths of up to six steps, hardened and not, with boundary numbers and leading zeros, all their splits into parent and child; paths which are prefixes as text or numbers but not as steps; malformed texts; hundreds of blanks and of steps; private and public parents at any depth; " +
	"non-trivial when both paths are well formed; distinct by key and paths"

type step struct {
	n uint64
	h bool
}

var errPath = errors.New("path")

// parse is the grammar of paths.
func parse(s string) ([]step, error) {
	s = strings.ReplaceAll(s, " ", "")
	if s == "/" {
		return nil, nil
	}
	if s == "" || s[0] != '/' {
		return nil, errPath
	}
	var out []step
	for _, e := range strings.Split(s[1:], "/") {
		h := strings.HasSuffix(e, "'")
		e = strings.TrimSuffix(e, "'")
		if e == "" {
			return nil, errPath
		}
		var n uint64
		for _, c := range []byte(e) {
			if c < '0' || c > '9' {
				return nil, errPath
			}
			n = n*10 + uint64(c-'0')
			if n > 1<<32-1 {
				n = 1 << 40 // too large, and stays so
			}
		}
		if n > 1<<32-1 {
			// the rest may still be malformed; an error in either case
			return nil, errPath
		}
		out = append(out, step{n, h})
	}
	return out, nil
}

// derive is step by step derivation; free says that the outcome may also be an
// error (numbers of unhardened steps from 2^31 on).
func derive(x *ref.XKey, parent, child string) (y *ref.XKey, free bool, err error) {
	p, err := parse(parent)
	if err != nil {
		return nil, false, err
	}
	c, err := parse(child)
	if err != nil {
		return nil, false, err
	}
	if len(c) <= len(p) {
		return nil, false, errPath
	}
	for i := range p {
		if p[i] != c[i] {
			return nil, false, errPath
		}
	}
	for _, s := range append(append([]step{}, p...), c...) {
		if s.n >= 1<<31 && !s.h {
			free = true
		}
	}
	for _, s := range c[len(p):] {
		n := s.n
		if s.h {
			if n >= 1<<31 {
				return nil, free, errPath
			}
			n += 1 << 31
		}
		x, err = x.Child(uint32(n))
		if err != nil {
			return nil, free, err
		}
	}
	return x, free, nil
}

func text(k *key.ExtendedKey) string {
	b, err := k.MarshalText()
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func judge(m *mon.M, kind string, x *ref.XKey, parent, child string) {
	m.Do(kind, func() {
		want, free, err := derive(x, parent, child)
		k := hd.Key(x)
		got, gerr := k.DeriveFrom(parent, child)
		hd.Same(m, "parent changed", k, x)
		if _, e1 := parse(parent); e1 == nil {
			if _, e2 := parse(child); e2 == nil {
				m.NonTrivial()
			}
		}
		ks, kerr := keyaddr.DeriveFrom(x.Text(), parent, child)
		m.Check((kerr == nil) == (gerr == nil), "keyaddr differs", "%v, %v", gerr, kerr)
		if err != nil {
			m.Event("refused")
			m.Check(gerr != nil && got == nil, "not refused", "got %v", got)
			return
		}
		if free && gerr != nil {
			return
		}
		m.Event("derived")
		if m.Check(gerr == nil, "refused", "%v", gerr) {
			hd.Same(m, "derived key", got, want)
			m.Check(kerr == nil && ks.Key == want.Text(), "keyaddr differs", "%v", ks)
		}
	}, func() string { return x.Text() }, parent, child)
}

func number(r gen.R) string {
	var n uint64
	switch r.IntN(10) {
	case 0:
		n = 1<<31 - 1 - uint64(r.IntN(2))
	case 1:
		if r.IntN(4) == 0 {
			n = 1<<31 + uint64(r.IntN(2))
		}
	case 2:
		n = uint64(hd.Normal(r))
	case 3:
		if r.IntN(6) == 0 {
			n = gen.Pick(r, uint64(1<<32-1), 1<<32, 1<<32+1, 1<<63, 1<<64-1)
		}
	default:
		n = uint64(r.IntN(50))
	}
	s := fmt.Sprint(n)
	if r.IntN(12) == 0 {
		s = strings.Repeat("0", 1+r.IntN(3)) + s
	}
	if r.IntN(60) == 0 {
		s += strings.Repeat("0", 20)
	}
	return s
}

func steps(r gen.R, public bool) []string {
	out := make([]string, 1+r.IntN(5))
	for i := range out {
		out[i] = "/" + number(r)
		if !public && r.IntN(3) == 0 || r.IntN(20) == 0 {
			out[i] += "'"
		}
	}
	return out
}

func join(l []string) string {
	if len(l) == 0 {
		return "/"
	}
	return strings.Join(l, "")
}

func spaces(r gen.R, s string) string {
	if r.IntN(10) == 0 && len(s) > 0 {
		i := r.IntN(len(s) + 1)
		s = s[:i] + gen.Pick(r, " ", "  ", " ", "\t", "\n") + s[i:]
	}
	return s
}

func main() {
	mon.Main("C23", rule, func(m *mon.M) {
		m.Require("derived", 1500)
		m.Require("refused", 2000)
		m.Require("composed", 500)
		m.Require("deep", 100)
		m.Par("long", 8, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(8, 40); j > 0; j-- {
				x := hd.XKey(r)
				x.Depth = 0
				// many blanks
				l := steps(r, false)
				cut := r.IntN(len(l) + 1)
				var c strings.Builder
				for _, b := range []byte(join(l)) {
					c.WriteString(strings.Repeat(" ", gen.Pick(r, 0, 0, 1, 3, 17, 300)))
					c.WriteByte(b)
				}
				judge(m, "blanks", x, join(l[:cut]), c.String())
				judge(m, "blanks", x, c.String(), c.String()+" /1")
				// many steps, up to and beyond the depth a key can have
				n := gen.Pick(r, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 512, 1000)
				l = l[:0]
				for len(l) < n {
					l = append(l, "/"+fmt.Sprint(r.IntN(300)))
				}
				m.Event("deep")
				judge(m, "deep", x, "/", join(l))
				cut = gen.Pick(r, n-1, n-2, n/2, 1)
				x.Depth = byte(min(cut, 255-gen.Pick(r, 0, 1, 2, n-cut-1, n-cut)))
				judge(m, "deep", x, join(l[:cut]), join(l))
				judge(m, "deep", x, join(l), join(l[:cut]))
			}
		})
		m.Par("random", 16, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(1200, 9000); j > 0; j-- {
				x := hd.XKey(r)
				if r.IntN(8) != 0 {
					x.Depth = byte(r.IntN(200))
				}
				pub := r.IntN(4) == 0
				if pub {
					x = x.Public()
				}
				l := steps(r, pub)
				cut := r.IntN(len(l) + 1)
				judge(m, "split path", x, spaces(r, join(l[:cut])), spaces(r, join(l)))
				// another path as the parent
				o := append([]string{}, l[:cut]...)
				if cut > 0 {
					e := r.IntN(cut)
					switch r.IntN(5) {
					case 0: // toggle the hardening
						if strings.HasSuffix(o[e], "'") {
							o[e] = o[e][:len(o[e])-1]
						} else {
							o[e] += "'"
						}
					case 1: // a prefix as text
						o[e] = strings.TrimSuffix(o[e], "'")
						if len(o[e]) > 2 {
							o[e] = o[e][:len(o[e])-1]
						} else {
							o[e] += "1"
						}
					case 2: // the same number, written otherwise
						o[e] = "/00" + o[e][1:]
					case 3:
						o[e] = "/" + number(r)
					case 4:
						o = append(o[:e], o[e+1:]...)
					}
				}
				judge(m, "other parent", x, join(o), join(l))
				judge(m, "malformed", x, join(l[:cut]), r.Mutate(join(l), "/'0123456789 mM-+.x"))
				switch r.IntN(4) {
				case 0:
					judge(m, "malformed", x, r.Mutate(join(l[:cut]), "/'0123456789 mM-+.x"), join(l))
				case 1:
					s := gen.Pick(r, "", "/", "//", "'", "/'", "m", "m/0", "/0''", "/0/", "/-1", "/+1", "/1.0", "/0x1", " ", "/ ", "/1h", "/０", "/1\n", "\n/1", "/0'/", "0", "/1'2", "/1/'")
					judge(m, "odd", x, s, join(l))
					judge(m, "odd", x, "/", s)
					judge(m, "odd", x, s, s+"/1")
				case 2:
					judge(m, "odd", x, join(l), join(l))
					judge(m, "odd", x, join(l), join(l[:cut]))
				}
				// composition, within the code under test
				mid := r.IntN(len(l) + 1)
				if cut < mid && mid < len(l) {
					m.Do("composition", func() {
						k := hd.Key(x)
						whole, err := k.DeriveFrom(join(l[:cut]), join(l))
						a, err1 := k.DeriveFrom(join(l[:cut]), join(l[:mid]))
						if err1 != nil {
							m.Check(err != nil, "composition", "the first stage fails: %v", err1)
							return
						}
						b, err2 := a.DeriveFrom(join(l[:mid]), join(l))
						if err2 != nil || err != nil {
							m.Check((err != nil) == (err2 != nil), "composition", "%v, %v", err, err2)
							return
						}
						m.NonTrivial()
						m.Event("composed")
						m.Check(text(b) == text(whole), "composition", "%s, %s", text(b), text(whole))
					}, func() string { return x.Text() }, cut, mid, join(l))
				}
			}
		})
	})
}
