// C52: looking up words by prefix returns exactly the matching words in order.
package main

import (
	"math"
	"strings"

	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/words"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "every prefix of every word, extended and changed prefixes, other text, with limits of zero, below zero, around the number of matches and the largest integers; other languages; against a scan of the list; non-trivial when some word matches; distinct by prefix and limit"

func look(m *mon.M, prefix string, max int) {
	m.Do("lookup", func() {
		want := ref.Prefix(prefix, max)
		got := words.FromPrefix("en", prefix, max)
		if want != "" {
			m.NonTrivial()
			m.Event("matches")
		} else {
			m.Event("no match")
		}
		m.Check(got == want, "words", "got %q, want %q", got, want)
		m.Check(keyaddr.WordsFromPrefix("en", prefix, max) == want, "keyaddr", "%q", want)
	}, prefix, max)
}

// limits beyond 32 bits, which wrap on platforms where int has 32 bits
var big int64 = 1 << 31
var over31, over32 = int(big), int(big << 1)

func main() {
	mon.Main("C52", rule, func(m *mon.M) {
		m.Require("matches", 10000)
		m.Require("no match", 10000)
		set := map[string]bool{"": true}
		list := []string{""}
		for _, w := range ref.English {
			for i := 1; i <= len(w); i++ {
				if !set[w[:i]] {
					set[w[:i]] = true
					list = append(list, w[:i])
				}
			}
		}
		m.Par("prefixes", 64, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := i; j < len(list); j += 64 {
				p := list[j]
				n := len(strings.Fields(ref.Prefix(p, 0)))
				for _, max := range []int{0, -1, 1, n - 1, n, n + 1} {
					look(m, p, max)
				}
				for k := 0; k < m.N(20, 60); k++ {
					look(m, p, gen.Pick(r, 2, n/2, 2048, 2047, 2049, 1<<31-1, over31, -1<<31, math.MaxInt, math.MinInt, over32, -7, int(r.Int64())))
					q := gen.Pick(r, p+"a", p+"z", p+" ", p+"\x00", p+"\xff", strings.ToUpper(p), " "+p, r.Mutate(p, "abcdefghijklmnopqrstuvwxyz"), p+p, r.Text("abcdefghijklmnopqrstuvwxyz ~{`A", 5), string([]byte{byte(r.IntN(256))}), string([]byte{byte(r.IntN(256)), byte(r.IntN(256))}))
					look(m, q, gen.Pick(r, 0, 1, 2, 5, -1))
				}
				if lang := gen.Pick(r, "", "EN", "fr", "en ", "e", "english", "\x00"); true {
					m.Do("language", func() {
						m.Check(words.FromPrefix(lang, p, r.IntN(5)-2) == "", "unknown language", "%q", lang)
					}, lang, p)
				}
			}
		})
		m.Par("two letters", 256, func(m *mon.M, a int) {
			r := gen.R{Rand: m.Rand}
			look(m, string([]byte{byte(a)}), r.IntN(4)-1)
			for c := 0; c < 256; c++ {
				if c >= 'a'-1 && c <= 'z'+1 || c%5 == 0 {
					look(m, string([]byte{byte(a), byte(c)}), r.IntN(4)-1)
				}
			}
		})
	})
}
