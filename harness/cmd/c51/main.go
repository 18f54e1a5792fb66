// C51: a phrase decodes only to bytes which encode to that phrase.
package main

import (
	"bytes"
	"strings"

	"github.com/ndau/ndaumath/pkg/words"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "phrases: all of one and two words, random ones of every length to 60, valid ones with a word exchanged, swapped, removed, added, replaced by every neighbour; texts which are no words (case, spaces, prefixes, extensions, other alphabets); languages; the empty phrase; " +
	"the verdict and the bytes against an independent decoder; non-trivial when all words are in the list; distinct by phrase"

// decode compares the decoder with the reference.
func decode(m *mon.M, w []string) {
	known := true
	for _, x := range w {
		known = known && ref.WordIndex(x) >= 0
	}
	keep := strings.Join(w, "\x00")
	b, err := words.ToBytes("en", w)
	m.Check(strings.Join(w, "\x00") == keep, "words changed", "%q", w)
	short, ok := ref.FromWords(w)
	if known && len(w) > 0 {
		m.NonTrivial()
	}
	if !ok {
		m.Event("rejected")
		m.Check(err != nil, "not rejected", "decodes to %x", b)
		return
	}
	m.Event("accepted")
	if !m.Check(err == nil, "rejected", "%v; it is the phrase of %x", err, short) {
		return
	}
	back := ref.PhraseWords(b)
	if !m.Check(strings.Join(back, " ") == strings.Join(w, " "), "other phrase", "decodes to %x, the phrase of which is %v", b, back) {
		return
	}
	enc, err := words.FromBytes("en", b)
	m.Check(err == nil && strings.Join(enc, " ") == strings.Join(w, " "), "encodes back", "%v, %v", enc, err)
	if bytes.Equal(b, short) {
		m.Event("shortest")
	}
}

func phrase(m *mon.M, kind string, w []string) {
	m.Do(kind, func() { decode(m, w) }, strings.Join(w, " "))
}

func nonWord(r gen.R) string {
	w := ref.English[r.IntN(2048)]
	switch r.IntN(10) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		return strings.ToUpper(w[:1]) + w[1:]
	case 2:
		return w + gen.Pick(r, " ", "s", "\n", "\x00", "a", "zzzzzzzzz")
	case 3:
		return w[:len(w)-1]
	case 4:
		return gen.Pick(r, "", " ", "\x00", "a", "zzz", "zooo", "~", "aaaa", "é", "\xff\xfe", "ábaco", "的", "０", "abandom", "{")
	case 5:
		return " " + w
	case 6:
		return w[:min(4, len(w))]
	case 7:
		return r.Mutate(w, "abcdefghijklmnopqrstuvwxyz")
	case 8:
		return w + w
	}
	return r.Text("abcdefghijklmnopqrstuvwxyz ", 12)
}

func main() {
	mon.Main("C51", rule, func(m *mon.M) {
		m.Require("accepted", 20000)
		m.Require("rejected", 100000)
		m.Require("unknown word", 1000)
		m.Do("empty", func() {
			b, err := words.ToBytes("en", nil)
			m.Check(err != nil || len(b) == 0, "empty phrase", "%x", b)
			b, err = words.ToBytes("en", []string{})
			m.Check(err != nil || len(b) == 0, "empty phrase", "%x", b)
		})
		m.Do("list", func() {
			// the numbers of the words, seen through two-byte strings
			m.Check(len(ref.English) == 2048, "list", "")
			for i, w := range ref.English {
				m.Check(strings.TrimSpace(w) == w && (i == 0 || ref.English[i-1] < w), "list", "%q", w)
				b := []byte{byte(i >> 3), byte(i << 5)}
				enc, err := words.FromBytes("en", b)
				m.Check(err == nil && len(enc) == 2 && enc[0] == w, "number of a word", "%d: %v, %v", i, enc, err)
			}
		})
		m.Par("two words", 2048, func(m *mon.M, i int) {
			a := ref.English[i]
			phrase(m, "one word", []string{a})
			// without the bookkeeping of a case for each
			m.Do("two words", func() {
				m.NonTrivial()
				for j, c := range ref.English {
					if !m.Thorough && (i+j)%4 != 0 {
						continue
					}
					w := []string{a, c}
					b, err := words.ToBytes("en", w)
					short, ok := ref.FromPhrase([]int{i, j})
					if !ok {
						m.Event("rejected")
						m.Check(err != nil, "not rejected", "%v decodes to %x", w, b)
						continue
					}
					m.Event("accepted")
					if m.Check(err == nil, "rejected", "%v: %v", w, err) && !bytes.Equal(b, short) {
						p := ref.Phrase(b)
						m.Check(len(p) == 2 && p[0] == i && p[1] == j, "other phrase", "%v decodes to %x", w, b)
					}
				}
			}, a)
		})
		m.Par("phrases", 64, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			word := func() string { return ref.English[r.IntN(2048)] }
			for j := 0; j < m.N(240, 6000); j++ {
				n := r.IntN(90)
				if r.IntN(8) == 0 {
					n = r.IntN(1000)
				}
				w := ref.PhraseWords(r.Bytes(n))
				phrase(m, "valid", w)
				for k := 0; k < 12; k++ {
					c := append([]string{}, w...)
					at := r.IntN(len(c))
					kind := "changed"
					switch r.IntN(9) {
					case 0:
						c[at] = word()
					case 1:
						o := r.IntN(len(c))
						c[at], c[o] = c[o], c[at]
					case 2:
						c = append(c[:at], c[at+1:]...)
					case 3:
						c = append(c[:at], append([]string{word()}, c[at:]...)...)
					case 4:
						x := ref.WordIndex(c[at])
						c[at] = ref.English[x^1<<r.IntN(11)]
					case 5:
						c = append(c, gen.Pick(r, "abandon", word()))
					case 6:
						c[len(c)-1] = word()
					case 7:
						x := ref.WordIndex(c[len(c)-1])
						c[len(c)-1] = ref.English[x^1<<r.IntN(11)]
					case 8:
						kind = "unknown word"
						c[at] = nonWord(r)
					}
					phrase(m, kind, c)
				}
				n = 1 + r.IntN(60)
				c := make([]string, n)
				for k := range c {
					c[k] = word()
				}
				phrase(m, "random", c)
				if r.IntN(4) == 0 {
					phrase(m, "unknown word", []string{nonWord(r)})
				}
				// last words: exactly those the reference allows
				if j%10 == 0 {
					m.Do("last words", func() {
						m.NonTrivial()
						x := make([]int, len(w))
						for k := range w {
							x[k] = ref.WordIndex(w[k])
						}
						c := append([]string{}, w...)
						for v := 0; v < 2048; v++ {
							x[len(x)-1] = v
							c[len(c)-1] = ref.English[v]
							b, err := words.ToBytes("en", c)
							_, ok := ref.FromPhrase(x)
							if m.Check((err == nil) == ok, "last word", "%v: %v", c, err) && ok {
								m.Check(strings.Join(ref.PhraseWords(b), " ") == strings.Join(c, " "), "other phrase", "%v decodes to %x", c, b)
							}
						}
					}, strings.Join(w, " "))
				}
				lang := gen.Pick(r, "", "EN", "fr", "en ", "english", "es", "\x00", r.Text("en", 4))
				if lang != "en" {
					m.Do("language", func() {
						b, err := words.ToBytes(lang, w)
						m.Check(err != nil, "unknown language", "%x", b)
						l, err := words.FromBytes(lang, r.Bytes(r.IntN(20)))
						m.Check(err != nil, "unknown language", "%v", l)
						words.ToBytes(lang, nil)
						words.FromBytes(lang, nil)
					}, lang)
				}
			}
		})
		m.Par("every word", 64, func(m *mon.M, i int) {
			r := gen.R{Rand: m.Rand}
			for j := i; j < 2048; j += 64 {
				w := ref.English[j]
				// every way to get a single word wrong
				m.Do("misspelt", func() {
					p := ref.PhraseWords(r.Bytes(16))
					at := r.IntN(len(p))
					try := func(s string) {
						p[at] = s
						b, err := words.ToBytes("en", p)
						_, ok := ref.FromWords(p)
						m.Check((err == nil) == ok, "misspelt", "%v: %x, %v", p, b, err)
					}
					for k := 0; k <= len(w); k++ {
						try(w[:k])
						for c := 0; c < 256; c += 1 + r.IntN(8) {
							try(w[:k] + string(rune(c)) + w[k:])
							if k < len(w) {
								try(w[:k] + string([]byte{byte(c)}) + w[k+1:])
							}
						}
						if k < len(w) {
							try(w[:k] + w[k+1:])
							try(w[:k] + strings.ToUpper(w[k:]))
						}
					}
				}, w)
			}
		})
	})
}
