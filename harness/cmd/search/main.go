// search finds rare values (leading zero bytes) for the corpus in hd. It is not
// part of any check; its output is witness.json.
package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"sync"

	"github.com/btcsuite/btcd/btcec"

	"verif/harness/hd"
	"verif/harness/ref"
)

func zeros(b []byte) int {
	n := 0
	for n < len(b) && b[n] == 0 {
		n++
	}
	return n
}

var mu sync.Mutex
var out = map[string][]hd.Witness{}

func put(kind string, limit int, w hd.Witness) {
	mu.Lock()
	defer mu.Unlock()
	if len(out[kind]) < limit {
		out[kind] = append(out[kind], w)
	}
}

func par(n uint32, f func(i uint32)) {
	var wg sync.WaitGroup
	for c := uint32(0); c < 8; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := c; i < n; i += 8 {
				f(i)
			}
		}()
	}
	wg.Wait()
}

func main() {
	par(1<<24, func(i uint32) {
		h := hmac.New(sha512.New, []byte("ndau seed"))
		h.Write(hd.Seed(i))
		s := h.Sum(nil)
		for o, name := range []string{"master key", "master chain"} {
			if z := zeros(s[32*o : 32*o+32]); z >= 2 {
				put(fmt.Sprintf("%s %d", name, z), 3, hd.Witness{Seed: i})
			}
		}
	})
	for seed := uint32(0); seed < 2; seed++ {
		k, _ := ref.Master(hd.Seed(seed))
		kn := new(big.Int).SetBytes(k.Key)
		for _, hard := range []uint32{0, 1 << 31} {
			par(1<<24, func(i uint32) {
				h := hmac.New(sha512.New, k.Chain)
				var d [37]byte
				if hard != 0 {
					copy(d[1:], k.Key)
				} else {
					copy(d[:], k.Pub())
				}
				binary.BigEndian.PutUint32(d[33:], i+hard)
				h.Write(d[:])
				s := h.Sum(nil)
				if z := zeros(s[:32]); z >= 2 {
					put(fmt.Sprintf("il %d hard %d", z, hard), 3, hd.Witness{Seed: seed, Index: i + hard})
				}
				if z := zeros(s[32:]); z >= 2 {
					put(fmt.Sprintf("chain %d hard %d", z, hard), 3, hd.Witness{Seed: seed, Index: i + hard})
				}
				n := new(big.Int).SetBytes(s[:32])
				n.Add(n, kn)
				if n.Cmp(ref.N) >= 0 {
					n.Sub(n, ref.N)
				}
				c := ref.Ser32(n)
				if z := zeros(c); z >= 2 {
					put(fmt.Sprintf("key %d hard %d", z, hard), 4, hd.Witness{Seed: seed, Index: i + hard})
				}
			})
		}
		par(1<<21, func(i uint32) {
			h := hmac.New(sha512.New, k.Chain)
			var d [37]byte
			copy(d[:], k.Pub())
			binary.BigEndian.PutUint32(d[33:], i)
			h.Write(d[:])
			s := h.Sum(nil)
			n := new(big.Int).SetBytes(s[:32])
			n.Add(n, kn).Mod(n, ref.N)
			x, y := btcec.S256().ScalarBaseMult(ref.Ser32(n))
			if z := zeros(ref.Ser32(x)); z >= 1 {
				put(fmt.Sprintf("pub %d", z), 4, hd.Witness{Seed: seed, Index: i})
			}
			if z := zeros(ref.Ser32(y)); z >= 2 {
				put(fmt.Sprintf("puby %d", z), 2, hd.Witness{Seed: seed, Index: i})
			}
			f := sha256.Sum256(append([]byte{2 + byte(y.Bit(0))}, ref.Ser32(x)...))
			f = sha256.Sum256(f[:])
			if z := zeros(f[:]); z >= 2 {
				put(fmt.Sprintf("fingerprint %d", z), 3, hd.Witness{Seed: seed, Index: i})
			}
		})
		priv, _ := btcec.PrivKeyFromBytes(btcec.S256(), k.Key)
		par(1<<21, func(i uint32) {
			h := sha256.Sum256(hd.Message(i))
			s, _ := priv.Sign(h[:])
			if z := zeros(ref.Ser32(s.R)); z >= 1 {
				put(fmt.Sprintf("sig r %d", z), 4, hd.Witness{Seed: seed, Message: i})
			}
			if z := zeros(ref.Ser32(s.S)); z >= 1 {
				put(fmt.Sprintf("sig s %d", z), 4, hd.Witness{Seed: seed, Message: i})
			}
			if z := zeros(h[:]); z >= 2 {
				put(fmt.Sprintf("sig hash %d", z), 2, hd.Witness{Seed: seed, Message: i})
			}
		})
		fmt.Fprintln(os.Stderr, "seed", seed)
	}
	for _, l := range out {
		sort.Slice(l, func(i, j int) bool { return l[i].Index+l[i].Seed+l[i].Message < l[j].Index+l[j].Seed+l[j].Message })
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(b)
}
