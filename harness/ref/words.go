package ref

import (
	_ "embed"
	"strings"
)

//go:embed english.txt
var english string

// English is the BIP39 word list.
var English = strings.Fields(english)

var wordIndex = func() map[string]int {
	m := map[string]int{}
	for i, w := range English {
		m[w] = i
	}
	return m
}()

// WordIndex is the number of a word, or -1.
func WordIndex(w string) int {
	if i, ok := wordIndex[w]; ok {
		return i
	}
	return -1
}

// CRC8 has the polynomial 0x1D.
func CRC8(b []byte) byte {
	var r uint32
	for _, c := range b {
		r ^= uint32(c) << 8
		for i := 0; i < 8; i++ {
			r <<= 1
			if r&0x10000 != 0 {
				r ^= 0x11d00
			}
		}
	}
	return byte(r >> 8)
}

// PhraseLen is the number of words for n bytes: room for at least 4 bits of
// check value after them.
func PhraseLen(n int) int { return (8*n + 4 + 10) / 11 }

// Phrase is the phrase of bytes, as numbers of words.
func Phrase(b []byte) []int {
	n := PhraseLen(len(b))
	check := 11*n - 8*len(b)
	var out []int
	acc, bits := uint64(0), 0
	put := func(v uint64, k int) {
		acc = acc<<k | v&(1<<k-1)
		bits += k
		for bits >= 11 {
			out = append(out, int(acc>>(bits-11)&0x7ff))
			bits -= 11
		}
		acc &= 1<<bits - 1
	}
	for _, c := range b {
		put(uint64(c), 8)
	}
	put(uint64(CRC8(b)), check)
	return out
}

// PhraseWords is the phrase of bytes.
func PhraseWords(b []byte) []string {
	var out []string
	for _, i := range Phrase(b) {
		out = append(out, English[i])
	}
	return out
}

// FromPhrase is the shortest byte string with a phrase.
func FromPhrase(w []int) ([]byte, bool) {
	var all []byte
	acc, bits := 0, 0
	for _, i := range w {
		acc = acc<<11 | i
		bits += 11
		for bits >= 8 {
			all = append(all, byte(acc>>(bits-8)))
			bits -= 8
		}
		acc &= 1<<bits - 1
	}
	for n := len(all) - 2; n <= len(all); n++ {
		if n < 0 || PhraseLen(n) != len(w) {
			continue
		}
		b := all[:n:n]
		p := Phrase(b)
		same := true
		for i := range p {
			same = same && p[i] == w[i]
		}
		if same {
			return b, true
		}
	}
	return nil, false
}

// FromWords is the shortest byte string with a phrase.
func FromWords(w []string) ([]byte, bool) {
	n := make([]int, len(w))
	for i := range w {
		if n[i] = WordIndex(w[i]); n[i] < 0 {
			return nil, false
		}
	}
	return FromPhrase(n)
}

// Prefix lists the words with a prefix.
func Prefix(prefix string, max int) string {
	var l []string
	for _, w := range English {
		if len(w) >= len(prefix) && w[:len(prefix)] == prefix {
			l = append(l, w)
		}
	}
	if max > 0 && len(l) > max {
		l = l[:max]
	}
	return strings.Join(l, " ")
}
