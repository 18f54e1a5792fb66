// Package gen makes the values the workloads are built from: boundaries,
// values near them, random values of every magnitude, and the constants which
// occur in the current source of the code under test.
package gen

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Dict holds constants of the current source of /repo. It only widens the
// workload: no verdict depends on it.
type Dict struct {
	Ints    []int64
	Uints   []uint64
	Floats  []float64
	Strings []string
}

var (
	dictOnce sync.Once
	dict     Dict
)

// Repo is where the code under test is.
func Repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

type imp map[string]*types.Package

func (m imp) Import(path string) (*types.Package, error) {
	if p, ok := m[path]; ok {
		return p, nil
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

// Constants returns the constants of the current source.
func Constants() *Dict {
	dictOnce.Do(func() {
		ints := map[int64]bool{}
		uints := map[uint64]bool{}
		floats := map[float64]bool{}
		strs := map[string]bool{}
		im := imp{}
		add := func(v constant.Value) {
			switch v.Kind() {
			case constant.Int:
				if i, ok := constant.Int64Val(v); ok {
					ints[i] = true
				}
				if u, ok := constant.Uint64Val(v); ok {
					uints[u] = true
				}
			case constant.Float:
				f, _ := constant.Float64Val(v)
				floats[f] = true
				if i := constant.ToInt(v); i.Kind() == constant.Int {
					if n, ok := constant.Int64Val(i); ok {
						ints[n] = true
					}
				}
			case constant.String:
				if s := constant.StringVal(v); len(s) <= 200 {
					strs[s] = true
				}
			}
		}
		order := []string{"ndauerr", "constants", "b32", "bip32", "bitset256", "words", "address",
			"signature/algorithms/null", "signature/algorithms/ed25519", "signature/algorithms/secp256k1",
			"signature", "key", "keyaddr", "signed", "unsigned", "types", "eai", "pricecurve"}
		seen := map[string]bool{}
		dir := filepath.Join(Repo(), "pkg")
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				rel, _ := filepath.Rel(dir, p)
				order = append(order, rel)
			}
			return nil
		})
		for _, rel := range order {
			if seen[rel] {
				continue
			}
			seen[rel] = true
			fset := token.NewFileSet()
			names, _ := filepath.Glob(filepath.Join(dir, rel, "*.go"))
			sort.Strings(names)
			var files []*ast.File
			for _, n := range names {
				if strings.HasSuffix(n, "_test.go") || filepath.Base(n) == "english.go" {
					continue
				}
				f, err := parser.ParseFile(fset, n, nil, 0)
				if err == nil {
					files = append(files, f)
				}
			}
			if len(files) == 0 {
				continue
			}
			info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
			conf := types.Config{Importer: im, Error: func(error) {}, IgnoreFuncBodies: false}
			path := "github.com/ndau/ndaumath/pkg/" + rel
			pkg, _ := conf.Check(path, fset, files, info)
			if pkg != nil {
				im[path] = pkg
			}
			for _, tv := range info.Types {
				if tv.Value != nil {
					add(tv.Value)
				}
			}
			for _, f := range files {
				ast.Inspect(f, func(n ast.Node) bool {
					if l, ok := n.(*ast.BasicLit); ok {
						add(constant.MakeFromLiteral(l.Value, l.Kind, 0))
					}
					return true
				})
			}
		}
		for k := range ints {
			dict.Ints = append(dict.Ints, k)
		}
		for k := range uints {
			dict.Uints = append(dict.Uints, k)
		}
		for k := range floats {
			dict.Floats = append(dict.Floats, k)
		}
		for k := range strs {
			dict.Strings = append(dict.Strings, k)
		}
		sort.Slice(dict.Ints, func(i, j int) bool { return dict.Ints[i] < dict.Ints[j] })
		sort.Slice(dict.Uints, func(i, j int) bool { return dict.Uints[i] < dict.Uints[j] })
		sort.Float64s(dict.Floats)
		sort.Strings(dict.Strings)
		if len(dict.Ints) == 0 {
			dict.Ints = []int64{0, 1}
		}
		if len(dict.Uints) == 0 {
			dict.Uints = []uint64{0, 1}
		}
		if len(dict.Strings) == 0 {
			dict.Strings = []string{""}
		}
	})
	return &dict
}

// Small units of the domain.
const (
	Napu   = 100000000
	RateD  = 1000000000000
	Second = 1000000
	Minute = 60 * Second
	Hour   = 60 * Minute
	Day    = 24 * Hour
	Month  = 30 * Day
	Year   = 365 * Day
)

var edges = []int64{0, 1, -1, 2, -2, 3, 5, 7, 9, 10, 99, 100, 255, 256, 1000, 1 << 15, 1 << 16, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MaxUint32,
	1 << 53, 3037000499, 3037000500, math.MaxInt64, math.MinInt64, math.MaxInt64 / 2, math.MinInt64 / 2, math.MaxInt64 / 10, math.MaxInt64 / 20,
	Napu, RateD, Second, Day, Month, Year, math.MaxInt64 / Napu, math.MaxInt64 / RateD, math.MaxInt64 / Year,
	1000000000000000000, 999999999999999999, 9999999999999999, 10000000000000000}

// R is a source of values.
type R struct{ *rand.Rand }

// Int64 is a boundary, a value near one, a constant of the source, or a random
// value of a random magnitude.
func (r R) Int64() int64 {
	switch r.IntN(10) {
	case 0, 1:
		return edges[r.IntN(len(edges))] + int64(r.IntN(5)) - 2
	case 2:
		d := Constants().Ints
		return d[r.IntN(len(d))] + int64(r.IntN(3)) - 1
	case 3:
		d := Constants().Ints
		return d[r.IntN(len(d))] * int64(r.IntN(200)-50)
	case 4:
		return int64(1)<<r.IntN(64) + int64(r.IntN(3)) - 1
	case 5:
		return int64(r.Rand.Uint64())
	case 6:
		return r.pow10() + int64(r.IntN(3)) - 1
	default:
		v := int64(r.Rand.Uint64() >> r.IntN(64))
		if r.IntN(3) == 0 {
			v = -v
		}
		return v
	}
}

func (r R) pow10() int64 {
	p := int64(1)
	for n := r.IntN(19); n > 0; n-- {
		p *= 10
	}
	if r.IntN(3) == 0 {
		p = -p
	}
	return p
}

// Nat is a non-negative Int64.
func (r R) Nat() int64 {
	v := r.Int64()
	if v < 0 {
		v = -(v + 1)
	}
	return v
}

// NatTo is a Nat of at most max, near the ends now and then.
func (r R) NatTo(max int64) int64 {
	switch r.IntN(6) {
	case 0:
		return max - min(max, int64(r.IntN(3)))
	case 1:
		return r.Int64N(max/2+1) * 2
	}
	v := r.Nat()
	if v > max {
		if max == math.MaxInt64 {
			return v
		}
		v %= max + 1
	}
	return v
}

// Uint64 is the unsigned counterpart of Int64.
func (r R) Uint64() uint64 { return r.Gen() }

// Gen is the unsigned counterpart of Int64.
func (r R) Gen() uint64 {
	switch r.IntN(10) {
	case 0, 1:
		return uint64(edges[r.IntN(len(edges))]) + uint64(r.IntN(5)) - 2
	case 2:
		d := Constants().Uints
		return d[r.IntN(len(d))] + uint64(r.IntN(3)) - 1
	case 3:
		return uint64(1)<<r.IntN(64) + uint64(r.IntN(3)) - 1
	case 4:
		return uint64(r.pow10()) * uint64(r.IntN(20))
	case 5:
		return math.MaxUint64 - r.Rand.Uint64()>>r.IntN(64)
	default:
		return r.Rand.Uint64() >> r.IntN(64)
	}
}

// Bytes is n random bytes; now and then with long runs of 0x00 or 0xff.
func (r R) Bytes(n int) []byte {
	b := make([]byte, n)
	mode := r.IntN(8)
	for i := range b {
		switch mode {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i)
		default:
			b[i] = byte(r.Rand.Uint64())
		}
	}
	if n > 0 && mode < 3 && r.IntN(2) == 0 {
		b[r.IntN(n)] ^= byte(1 << r.IntN(8))
	}
	if n > 0 && mode == 3 {
		for i := 0; i < r.IntN(n)+1; i++ {
			b[i] = 0
		}
	}
	return b
}

// Len is a length up to max, small ones and the neighbours of powers of two and
// multiples of 5 and 11 among them.
func (r R) Len(max int) int {
	var n int
	switch r.IntN(4) {
	case 0:
		n = r.IntN(12)
	case 1:
		n = 1<<r.IntN(10) + r.IntN(3) - 1
	case 2:
		if r.IntN(2) == 0 {
			n = r.Long(max)
			break
		}
		n = r.IntN(max + 1)
	default:
		n = r.IntN(max + 1)
	}
	if n > max {
		n = r.IntN(max + 1)
	}
	if n < 0 {
		n = 0
	}
	return n
}

// Long is a length up to max next to a power of two or to a constant of the
// source: where a buffer, a block or a counter would end.
func (r R) Long(max int) int {
	n := int64(0)
	for try := 0; try < 50; try++ {
		if r.IntN(2) == 0 {
			d := Constants().Ints
			n = d[r.IntN(len(d))]
		} else {
			n = 1 << r.IntN(30)
		}
		n += int64(r.IntN(4) - 1)
		if n >= 0 && n <= int64(max) && (n > 200 || try > 30) {
			return int(n)
		}
	}
	return r.IntN(max + 1)
}

// Longs are all such lengths from min to max.
func Longs(min, max int) (l []int) {
	seen := map[int]bool{}
	add := func(n int64) {
		for d := int64(-1); d <= 1; d++ {
			if m := int(n + d); n < int64(max) && m >= min && m <= max && !seen[m] {
				seen[m] = true
				l = append(l, m)
			}
		}
	}
	for i := 0; i < 40; i++ {
		add(1 << i)
	}
	for _, n := range Constants().Ints {
		add(n)
	}
	sort.Ints(l)
	return
}

// Pick returns one of s.
func Pick[T any](r R, s ...T) T { return s[r.IntN(len(s))] }

// Case changes the case of some letters of s.
func (r R) Case(s string) string {
	b := []byte(s)
	mode := r.IntN(3)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && (mode == 0 || mode == 1 && r.IntN(2) == 0 || mode == 2 && r.IntN(10) == 0) {
			b[i] = c - 32
		}
	}
	return string(b)
}

// alike are characters which look like others, or are taken for them when case
// or width is folded.
var alike = map[byte][]rune{
	'\'': {0x2019, 0x2018, 0x02bc, 0x2032, 0xff07, '`', 0xb4, '"'}, '/': {0x2044, 0x2215, 0xff0f, '\\', '|'},
	':': {0xff1a, ';', 0xa789}, '.': {0xff0e, 0x3002, ',', 0x00b7}, '-': {0x2212, 0x2013, 0x2014, 0x2010, 0xff0d, '_'},
	'%': {0xff05, 0x066a}, '$': {0xff04, 0x20ac}, ' ': {0xa0, 0x2003, 0x3000, '\t', '_'}, '+': {0xff0b, '-'}, '=': {0xff1d},
	'a': {0x430, 0xe1}, 'c': {0x441}, 'e': {0x435, 0xe9}, 'o': {0x43e, '0'}, 'p': {0x440}, 'x': {0x445}, 'y': {0x443},
	'k': {0x212a}, 's': {0x17f}, 'i': {0x130, 0x131}, 'u': {0xb5, 0x3bc}, 'm': {0xb5},
}

// between are characters which cannot be seen, or not told apart.
var between = []rune{0xa0, 0x85, 0x2003, 0x200b, 0x200d, 0x2028, 0x3000, 0xfeff, 0xad, '\t', '\n', '\v', '\f', '\r', 0, 0x7f, 0x301, 0xfffd, 0x202e}

// Confuse replaces a character by one which looks like it, or puts one which
// cannot be seen between, before or behind the characters.
func (r R) Confuse(s string) string {
	i := r.IntN(len(s) + 1)
	if i < len(s) && r.IntN(2) == 0 {
		c := s[i]
		l := alike[c|0x20]
		if c < 0x40 {
			l = alike[c]
		}
		switch {
		case c >= '0' && c <= '9':
			l = []rune{0xff10 + rune(c-'0'), 0x660 + rune(c-'0'), 0x1d7ce + rune(c-'0'), 0x2080 + rune(c-'0')}
		case c > 0x20 && c < 0x7f && (len(l) == 0 || r.IntN(3) == 0):
			l = []rune{0xfee0 + rune(c)}
		}
		if len(l) > 0 {
			return s[:i] + string(l[r.IntN(len(l))]) + s[i+1:]
		}
	}
	if r.IntN(3) == 0 {
		i = r.IntN(2) * len(s)
	}
	return s[:i] + string(between[r.IntN(len(between))]) + s[i:]
}

// Mutate makes a small change of s, from an alphabet.
func (r R) Mutate(s, alphabet string) string {
	b := []byte(s)
	c := func() byte {
		if r.IntN(8) == 0 {
			return byte(r.Rand.Uint64())
		}
		return alphabet[r.IntN(len(alphabet))]
	}
	if len(b) == 0 {
		return string([]byte{c()})
	}
	i := r.IntN(len(b))
	switch r.IntN(10) {
	case 9:
		return r.Confuse(s)
	case 0, 1, 2:
		b[i] = c()
	case 3:
		b = append(b[:i], b[i+1:]...)
	case 4:
		b = append(b[:i], append([]byte{c()}, b[i:]...)...)
	case 5:
		j := r.IntN(len(b))
		b[i], b[j] = b[j], b[i]
	case 6:
		b = b[:i]
	case 7:
		b = append(b, b[i:]...)
	case 8:
		b[i] ^= 1 << r.IntN(8)
	}
	return string(b)
}

// Text is a hostile text.
func (r R) Text(alphabet string, max int) string {
	switch r.IntN(5) {
	case 0:
		d := Constants().Strings
		return d[r.IntN(len(d))]
	case 1:
		return string(r.Bytes(r.Len(max)))
	}
	n := r.Len(max)
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[r.IntN(len(alphabet))]
	}
	return string(b)
}
