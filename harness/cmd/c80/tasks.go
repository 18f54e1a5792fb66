package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"time"

	"github.com/tinylib/msgp/msgp"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/signed"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"github.com/ndau/ndaumath/pkg/words"

	"verif/harness/eaigen"
	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/ref"
	"verif/harness/sk"
)

// A task is one deterministic use of the library: what it returns is compared.
// A cold task uses no value made by the library before.
type task struct {
	kind string
	cold bool
	f    func() string
}

func show(v ...any) string { return fmt.Sprintf("%v", v) }

// errs is whether there is an error: its text may be anything.
func errs(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// wipe overwrites what belongs to the caller.
func wipe(b []byte) string {
	s := fmt.Sprintf("%x", b)
	for i := range b {
		b[i] ^= 0xa5
	}
	return s
}

func num(r *rand.Rand) int64   { return int64(r.Uint64() >> r.IntN(64)) }
func nat(r *rand.Rand) int64   { return int64(r.Uint64() >> (1 + r.IntN(63))) }
func unum(r *rand.Rand) uint64 { return r.Uint64() >> r.IntN(64) }

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}

// the random bytes of a deterministic reader
type reader struct{ r *rand.Rand }

func (r reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.r.Uint64())
	}
	return len(p), nil
}

func xkey(r *rand.Rand) *ref.XKey {
	return &ref.XKey{Private: true, Key: ref.Ser32(hd.Scalar(gen.R{Rand: r})), Chain: rbytes(r, 32), Depth: byte(r.IntN(250)), FP: rbytes(r, 3), Num: r.Uint32()}
}

func steps(r *rand.Rand) []ref.Step {
	var t []ref.Step
	from := int64(r.IntN(3)) * gen.Month
	for n := 1 + r.IntN(8); n > 0; n-- {
		t = append(t, ref.Step{From: from, Rate: int64(r.IntN(20)) * gen.RateD / 100})
		from += int64(1+r.IntN(200)) * gen.Day
	}
	return t
}

func path(r *rand.Rand) string {
	p := ""
	for n := 1 + r.IntN(3); n > 0; n-- {
		p += "/" + fmt.Sprint(r.IntN(1000)) + []string{"", "'"}[r.IntN(2)]
	}
	return p
}

// world is what a run shares between its goroutines: it is made once, and
// changed by nobody.
type world struct {
	pub    []*key.ExtendedKey
	priv   []*ref.XKey
	pubT   []string
	spub   []*signature.PublicKey
	spriv  []*signature.PrivateKey
	sigs   []*signature.Signature
	msgs   [][]byte
	addrs  []address.Address
	sets   []*bitset256.Bitset256
	tables []eai.RateTable
	locks  []*ref.Lock
	list   []string
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newWorld(seed uint64) *world {
	r := rand.New(rand.NewPCG(seed, 80))
	w := &world{}
	for i := 0; i < 4; i++ {
		x := xkey(r)
		w.priv = append(w.priv, x)
		t := x.Public().Text()
		w.pubT = append(w.pubT, t)
		k := new(key.ExtendedKey)
		must(k.UnmarshalText([]byte(t)))
		w.pub = append(w.pub, k)
		g := gen.R{Rand: r}
		p := sk.Ed(g)
		if i%2 == 0 {
			p = sk.Secp(g)
		}
		extra := rbytes(r, r.IntN(30))
		pub, err := signature.RawPublicKey(p.Al, p.Pub, extra)
		must(err)
		priv, err := signature.RawPrivateKey(p.Al, p.Priv, extra)
		must(err)
		msg := rbytes(r, r.IntN(100))
		sig, err := signature.RawSignature(p.Al, p.Sign(msg))
		must(err)
		w.spub, w.spriv, w.sigs, w.msgs = append(w.spub, pub), append(w.spriv, priv), append(w.sigs, sig), append(w.msgs, msg)
		a, err := address.Generate('a', rbytes(r, 33))
		must(err)
		w.addrs = append(w.addrs, a)
		w.sets = append(w.sets, bitset256.New(rbytes(r, r.IntN(60))...))
		w.tables = append(w.tables, eaigen.Table(steps(r)))
		l := &ref.Lock{Notice: int64(1+r.IntN(24)) * gen.Month, Bonus: int64(r.IntN(5)) * gen.RateD / 100}
		w.locks = append(w.locks, l)
		w.list = append(w.list, ref.PhraseWords(rbytes(r, 16))...)
	}
	return w
}

// tasks makes the tasks of a run; those which use the shared values take them
// from w when they run.
func tasks(seed uint64, w *world, n int) []task {
	var l []task
	add := func(kind string, cold bool, mk func(r *rand.Rand) func() string) {
		for i := 0; i < n; i++ {
			h := sha256.Sum256([]byte(fmt.Sprint(kind, seed, i)))
			r := rand.New(rand.NewChaCha8(h))
			l = append(l, task{kind, cold, mk(r)})
		}
	}
	cold := func(kind string, mk func(r *rand.Rand) func() string) { add(kind, true, mk) }
	warm := func(kind string, mk func(r *rand.Rand) func() string) { add(kind, false, mk) }

	// arithmetic
	cold("signed", func(r *rand.Rand) func() string {
		a, b, c := num(r), num(r), num(r)
		return func() string {
			var out []any
			for _, f := range []func(int64, int64) (int64, error){signed.Add, signed.Sub, signed.Mul, signed.Div, signed.Mod} {
				x, err := f(a, b)
				out = append(out, x, errs(err))
			}
			q, m, err := signed.DivMod(a, b)
			out = append(out, q, m, errs(err))
			x, err := signed.MulDiv(a, b, c)
			out = append(out, x, errs(err))
			x, err = signed.ExpFrac(a%1000000, 1000000)
			return show(append(out, x, errs(err))...)
		}
	})
	cold("unsigned", func(r *rand.Rand) func() string {
		a, b, c := unum(r), unum(r), unum(r)
		return func() string {
			var out []any
			for _, f := range []func(uint64, uint64) (uint64, error){unsigned.Add, unsigned.Sub, unsigned.Mul, unsigned.Div, unsigned.Mod} {
				x, err := f(a, b)
				out = append(out, x, errs(err))
			}
			q, m, err := unsigned.DivMod(a, b)
			out = append(out, q, m, errs(err))
			x, err := unsigned.MulDiv(a, b, c)
			return show(append(out, x, errs(err))...)
		}
	})
	cold("LnInt", func(r *rand.Rand) func() string {
		a := unum(r)
		return func() string { return show(unsigned.LnInt(a), unsigned.LnInt(a/3)) }
	})
	cold("ExpFrac", func(r *rand.Rand) func() string {
		a := r.Uint64N(3 * gen.RateD)
		return func() string {
			x, err := unsigned.ExpFrac(a, gen.RateD)
			return show(x, errs(err))
		}
	})
	// amounts, durations, times
	cold("ndau", func(r *rand.Rand) func() string {
		a, b := num(r), num(r)
		return func() string {
			x, y := types.Ndau(a), types.Ndau(b)
			s := x.String()
			p, err := types.ParseNdau(strings.TrimPrefix(s, "-"))
			q, err2 := types.ParseNdau("1.2.3")
			sum, err3 := x.Add(y)
			d, err4 := x.Sub(y)
			return show(s, p, errs(err), q, errs(err2), sum, errs(err3), d, errs(err4), x.Abs(), x.Compare(y))
		}
	})
	cold("duration", func(r *rand.Rand) func() string {
		a, s := num(r), []string{"1y2m3dt4h5m6s7us", "-t5m", "7y", "x", "t"}[r.IntN(5)]
		return func() string {
			d := types.Duration(a)
			p, err := types.ParseDuration(d.String())
			q, err2 := types.ParseDuration(s)
			b, err3 := d.MarshalText()
			var u types.Duration
			err4 := u.UnmarshalText(b)
			return show(d, p, errs(err), q, errs(err2), wipe(b), errs(err3), u, errs(err4), d.TimeDuration(), types.DurationFrom(time.Duration(a)))
		}
	})
	cold("timestamp", func(r *rand.Rand) func() string {
		a, b := r.Int64N(9000*gen.Year), num(r)
		return func() string {
			t := types.Timestamp(a)
			b1, err := t.MarshalText()
			p, err2 := types.ParseTimestamp(string(b1))
			var u types.Timestamp
			err3 := u.UnmarshalText(b1)
			f, err4 := types.TimestampFrom(t.AsTime())
			return show(t, wipe(b1), errs(err), p, errs(err2), u, errs(err3), f, errs(err4), t.Add(types.Duration(b)), t.Sub(types.Duration(b)), t.Since(types.Timestamp(b)), t.Compare(types.Timestamp(b)))
		}
	})
	cold("weighted average age", func(r *rand.Rand) func() string {
		d, s, a, b := r.Int64N(20*gen.Year), r.Int64N(20*gen.Year), r.Int64N(1e15)-1e14, r.Int64N(1e15)
		return func() string {
			x := types.Duration(d)
			err := x.UpdateWeightedAverageAge(types.Duration(s), types.Ndau(a), types.Ndau(b))
			return show(x, errs(err))
		}
	})
	// EAI
	cold("rate", func(r *rand.Rand) func() string {
		a := nat(r)
		return func() string {
			x := eai.Rate(a)
			p, err := eai.ParseRate(x.String())
			_, err2 := eai.ParseRate("1.%")
			row := eai.RTRow{From: types.Duration(a / 3), Rate: x}
			b, err3 := row.MarshalText()
			var u eai.RTRow
			err4 := u.UnmarshalText(b)
			return show(x, p, errs(err), errs(err2), wipe(b), errs(err3), u, errs(err4), eai.RateFromPercent(uint64(a%100)))
		}
	})
	cold("rate table", func(r *rand.Rand) func() string {
		t := steps(r)
		f, to, off, fr := r.Int64N(3*gen.Year), r.Int64N(4*gen.Year), r.Int64N(gen.Year), r.Int64N(2*gen.Year)
		return func() string { return tableText(eaigen.Table(t), f, f+to, off, fr) }
	})
	warm("shared rate table", func(r *rand.Rand) func() string {
		i := r.IntN(4)
		f, to, off, fr := r.Int64N(3*gen.Year), r.Int64N(4*gen.Year), r.Int64N(gen.Year), r.Int64N(2*gen.Year)
		return func() string { return tableText(w.tables[i], f, f+to, off, fr) }
	})
	account := func(r *rand.Rand) (bal, block, last, waa int64, l *ref.Lock, fix bool) {
		last = r.Int64N(20 * gen.Year)
		block = last + r.Int64N(5*gen.Year)
		waa = r.Int64N(4 * gen.Year)
		if k := r.IntN(3); k > 0 {
			l = &ref.Lock{Notice: int64(1+r.IntN(24)) * gen.Month, Bonus: int64(r.IntN(5)) * gen.RateD / 100}
			if k > 1 {
				u := last + r.Int64N(3*gen.Year)
				l.Unlocks = &u
			}
		}
		return r.Int64N(1e15), block, last, waa, l, r.IntN(2) == 0
	}
	calc := func(t eai.RateTable, bal, block, last, waa int64, l *ref.Lock, fix bool) string {
		x, err := eai.Calculate(types.Ndau(bal), types.Timestamp(block), types.Timestamp(last), types.Duration(waa), eaigen.Iface(l), t, fix)
		rate := eai.CalculateEAIRate(types.Duration(waa), eaigen.Iface(l), t, types.Timestamp(block))
		return show(x, errs(err), rate)
	}
	cold("EAI", func(r *rand.Rand) func() string {
		t := steps(r)
		a, b, c, d, l, f := account(r)
		return func() string { return calc(eaigen.Table(t), a, b, c, d, l, f) }
	})
	warm("EAI with a shared table", func(r *rand.Rand) func() string {
		i := r.IntN(4)
		a, b, c, d, l, f := account(r)
		if l != nil && r.IntN(2) == 0 {
			l = nil
		}
		return func() string { return calc(w.tables[i], a, b, c, d, l, f) }
	})
	cold("EAI with the default tables", func(r *rand.Rand) func() string {
		a, b, c, d, l, f := account(r)
		return func() string {
			return calc(eai.DefaultUnlockedEAI, a, b, c, d, l, f) + show(eai.DefaultLockBonusEAI.RateAt(types.Duration(d)))
		}
	})
	cold("rate table messages", func(r *rand.Rand) func() string {
		t := steps(r)
		return func() string {
			rt := eaigen.Table(t)
			b, err := rt.MarshalMsg(nil)
			var u eai.RateTable
			rest, err2 := u.UnmarshalMsg(b)
			var buf bytes.Buffer
			en := msgp.NewWriter(&buf)
			err3 := rt.EncodeMsg(en)
			en.Flush()
			return show(wipe(b), errs(err), u, len(rest), errs(err2), wipe(buf.Bytes()), errs(err3))
		}
	})
	// prices
	cold("price", func(r *rand.Rand) func() string {
		n := r.Int64N(35000 * 1000 * gen.Napu)
		return func() string {
			x, err := pricecurve.PriceAtUnit(types.Ndau(n))
			y, err2 := pricecurve.PriceAtUnit10000(types.Ndau(n))
			return show(x, errs(err), y, errs(err2), pricecurve.ApproxPriceAtUnit(types.Ndau(n)), pricecurve.ApproxUnitAtPrice(float64(x)/1e11))
		}
	})
	cold("total price", func(r *rand.Rand) func() string {
		n, k := r.Int64N(30000*1000*gen.Napu), r.Int64N(9000*gen.Napu)
		return func() string { return show(pricecurve.ApproxTotalPriceFor(types.Ndau(k), types.Ndau(n))) }
	})
	cold("dollars", func(r *rand.Rand) func() string {
		s := []string{fmt.Sprintf("$%d.%02d", nat(r)>>20, r.IntN(100)), "-1,234.56789", "12_3", "x", "1.2"}[r.IntN(5)]
		return func() string {
			x, err := pricecurve.ParseDollars(s)
			return show(x, errs(err))
		}
	})
	// encodings
	cold("base32", func(r *rand.Rand) func() string {
		b := rbytes(r, 5*r.IntN(12))
		return func() string {
			s := b32.Encode(b)
			d, err := b32.Decode(s)
			_, err2 := b32.Decode(s + "!")
			return show(s, wipe(d), errs(err), errs(err2), b32.Index("x"))
		}
	})
	cold("checksum", func(r *rand.Rand) func() string {
		b := rbytes(r, r.IntN(60))
		return func() string {
			c16, c24 := b32.Checksum16(b), b32.Checksum24(b)
			k := append(append([]byte{}, b...), c16...)
			s := show(b32.Check(b, c16), b32.Check(b, c24[:2]))
			x := signature.AddChecksum(b)
			m, ok := signature.CheckChecksum(x)
			s += show(m, ok, k, wipe(append([]byte{}, x...)))
			return s + wipe(c16) + wipe(c24)
		}
	})
	cold("address", func(r *rand.Rand) func() string {
		b, kind := rbytes(r, 33), "anexbm"[r.IntN(6)]
		return func() string {
			a, err := address.Generate(kind, b)
			if err != nil {
				return "error"
			}
			v, err := address.Validate(strings.ToUpper(a.String()))
			_, err2 := address.Validate(a.String()[1:])
			t, err3 := a.MarshalText()
			var u address.Address
			err4 := u.UnmarshalText(t)
			k, err5 := address.ParseKind("user")
			return show(a, v, errs(err), errs(err2), wipe(t), errs(err3), u, errs(err4), a.Kind(), a.Revalidate(), k, errs(err5), address.IsValidKind(kind))
		}
	})
	warm("shared address", func(r *rand.Rand) func() string {
		i := r.IntN(4)
		return func() string {
			a := w.addrs[i]
			b, err := a.MarshalMsg(nil)
			var u address.Address
			_, err2 := u.UnmarshalMsg(b)
			t, err3 := a.MarshalText()
			return show(a, a.Kind(), a.Revalidate(), wipe(b), errs(err), u, errs(err2), wipe(t), errs(err3))
		}
	})
	// sets
	cold("set", func(r *rand.Rand) func() string {
		x, y := rbytes(r, r.IntN(40)), rbytes(r, r.IntN(40))
		return func() string {
			a, b := bitset256.New(x...), bitset256.New(y...)
			s := setText(a, b)
			c := a.Clone().Set(y1(y)).Toggle(7).Clear(y1(x))
			h, err := bitset256.FromHex(c.AsHex())
			f, err2 := bitset256.FromBytes(c.AsBytes())
			return s + show(c, h, errs(err), f, errs(err2))
		}
	})
	warm("shared sets", func(r *rand.Rand) func() string {
		i, j := r.IntN(4), r.IntN(4)
		return func() string {
			return setText(w.sets[i], w.sets[j])
		}
	})
	// words
	cold("words", func(r *rand.Rand) func() string {
		b := rbytes(r, r.IntN(40))
		p := ref.PhraseWords(rbytes(r, 16))
		return func() string {
			l, err := words.FromBytes("en", b)
			s := strings.Join(l, " ")
			for i := range l {
				l[i] = "overwritten"
			}
			d, err2 := words.ToBytes("en", p)
			_, err3 := words.ToBytes("en", append(p[:11:11], "nonsense"))
			_, err4 := words.FromBytes("xx", b)
			return show(s, errs(err), wipe(d), errs(err2), errs(err3), errs(err4))
		}
	})
	cold("prefix", func(r *rand.Rand) func() string {
		p, n := ref.English[r.IntN(2048)][:1+r.IntN(2)], r.IntN(10)
		return func() string { return words.FromPrefix("en", p, n) + words.FromPrefix("en", p, 0) }
	})
	warm("shared phrase", func(r *rand.Rand) func() string {
		i := r.IntN(4)
		return func() string {
			d, err := words.ToBytes("en", w.list[12*i:12*i+12])
			return show(wipe(d), errs(err))
		}
	})
	// extended keys
	cold("master", func(r *rand.Rand) func() string {
		b, p := rbytes(r, 16+r.IntN(48)), path(r)
		return func() string {
			k, err := key.NewMaster(b)
			if err != nil {
				return "error"
			}
			c, err := k.DeriveFrom("/", p)
			if err != nil {
				return "error"
			}
			return keyText(k) + keyText(c)
		}
	})
	cold("private key", func(r *rand.Rand) func() string {
		t, i := xkey(r).Text(), uint32(r.IntN(1000))
		return func() string {
			k := new(key.ExtendedKey)
			if k.UnmarshalText([]byte(t)) != nil {
				return "error"
			}
			c, err := k.Child(i)
			h, err2 := k.HardenedChild(i)
			if err != nil || err2 != nil {
				return "error"
			}
			s := keyText(c) + keyText(h) + keyText(k)
			k.Zero()
			return s + keyText(c)
		}
	})
	cold("public key", func(r *rand.Rand) func() string {
		t, i := xkey(r).Public().Text(), r.Uint32()
		return func() string {
			k := new(key.ExtendedKey)
			if k.UnmarshalText([]byte(t)) != nil {
				return "error"
			}
			c, err := k.Child(i)
			if err != nil {
				return keyText(k) + "error"
			}
			return keyText(c) + keyText(k)
		}
	})
	warm("shared public key", func(r *rand.Rand) func() string {
		j, i := r.IntN(4), r.Uint32()>>1
		return func() string {
			k := w.pub[j]
			c, err := k.Child(i)
			if err != nil {
				return "error"
			}
			_, err = k.HardenedChild(i)
			p, err2 := k.Public()
			d, err3 := k.DeriveFrom("/", "/1/2")
			if err2 != nil || err3 != nil {
				return "error"
			}
			e, err4 := k.ECPubKey()
			_, err5 := k.ECPrivKey()
			sp, err6 := k.SPubKey()
			if err4 != nil || err6 != nil {
				return "error"
			}
			return show(keyText(c), errs(err), keyText(p), keyText(d), e.SerializeCompressed(), errs(err5), sp.FullString(), k.Depth(), k.ParentFingerprint(), k.PubKeyBytes(), keyText(k))
		}
	})
	cold("old key", func(r *rand.Rand) func() string {
		x := xkey(r)
		b := append([]byte{99, 103, 31, x.Depth}, x.FP...)
		b = append(b, byte(x.Num>>24), byte(x.Num>>16), byte(x.Num>>8), byte(x.Num))
		b = append(b, x.Chain...)
		b = append(append(b, 0), x.Key...)
		t := ref.OldText(b)
		return func() string {
			k, err := key.FromOldSerialization(t)
			if err != nil {
				return "error"
			}
			_, err = key.FromOldSerialization(t[1:])
			return keyText(k) + errs(err)
		}
	})
	// signatures
	cold("signature", func(r *rand.Rand) func() string {
		p := sk.New(gen.R{Rand: r})
		msg, extra := rbytes(r, r.IntN(200)), rbytes(r, r.IntN(20))
		return func() string {
			pub, err := signature.RawPublicKey(p.Al, p.Pub, extra)
			priv, err2 := signature.RawPrivateKey(p.Al, p.Priv, extra)
			if err != nil || err2 != nil {
				return "error"
			}
			return signText(pub, priv, msg)
		}
	})
	cold("generate", func(r *rand.Rand) func() string {
		al := []signature.Algorithm{signature.Ed25519, signature.Secp256k1}[r.IntN(2)]
		a, b, src := r.Uint64(), r.Uint64(), r.IntN(2)
		return func() string {
			var rd io.Reader
			if src == 0 {
				rd = reader{rand.New(rand.NewPCG(a, b))}
			}
			pub, priv, err := signature.Generate(al, rd)
			if err != nil {
				return "error"
			}
			sig := priv.Sign([]byte("m"))
			return show(pub.Verify([]byte("m"), sig), pub.Verify([]byte("n"), sig), signature.Match(pub, priv), len(pub.KeyBytes()))
		}
	})
	warm("shared signature keys", func(r *rand.Rand) func() string {
		i := r.IntN(4)
		return func() string {
			s := signText(w.spub[i], w.spriv[i], w.msgs[i])
			return s + show(w.spub[i].Verify(w.msgs[i], *w.sigs[i]), w.sigs[i].Verify(w.msgs[i], *w.spub[i]), w.spub[i].Verify([]byte("other"), *w.sigs[i]))
		}
	})
	warm("shared signature", func(r *rand.Rand) func() string {
		i := r.IntN(4)
		return func() string {
			g := w.sigs[i]
			b, err := g.Marshal()
			t, err2 := g.MarshalText()
			ms, err3 := g.MarshalString()
			mm, err4 := g.MarshalMsg(nil)
			return show(wipe(b), errs(err), wipe(t), errs(err2), ms, errs(err3), wipe(mm), errs(err4), g.Bytes(), g.Size(), g.Msgsize() > 0, signature.NameOf(g.Algorithm()))
		}
	})
	cold("parse key", func(r *rand.Rand) func() string {
		p := sk.New(gen.R{Rand: r})
		x := rbytes(r, r.IntN(20))
		pt, vt, st := "npub"+ref.KeyText(p.ID, p.Pub, x), "npvt"+ref.KeyText(p.ID, p.Priv, x), ref.SigText(p.ID, p.Sign(x))
		return func() string {
			a, err := signature.ParseKey(pt)
			b, err2 := signature.ParseKey(vt)
			c, err3 := signature.ParseSignature(st)
			if err != nil || err2 != nil || err3 != nil {
				return "error"
			}
			_, err4 := signature.ParseKey(pt[:30])
			pu, err5 := signature.ParsePublicKey(pt)
			_, err6 := signature.ParsePrivateKey(pt)
			if err5 != nil {
				return "error"
			}
			s := show(fullText(a), a, fullText(b), c.Bytes(), errs(err4), pu.FullString(), errs(err6), signature.IsPublic(a), signature.IsPrivate(b), signature.MaybePrivate(vt), signature.MaybePublic(vt), signature.SameAlgorithm(a.Algorithm(), c.Algorithm()))
			pu.Truncate()
			s += pu.FullString()
			pu.Zeroize()
			return s + show(fullText(a), pu.IsZero())
		}
	})
	cold("key messages", func(r *rand.Rand) func() string {
		p := sk.New(gen.R{Rand: r})
		kb := ref.KeyBinary(p.ID, p.Pub, rbytes(r, r.IntN(30)))
		return func() string {
			var k signature.PublicKey
			if k.Unmarshal(kb) != nil {
				return "error"
			}
			b, err := k.Marshal()
			m, err2 := k.MarshalMsg(nil)
			var u signature.PublicKey
			_, err3 := u.UnmarshalMsg(m)
			err4 := u.Unmarshal(kb[1:])
			return show(wipe(b), errs(err), wipe(m), errs(err2), errs(err3), errs(err4), k.FullString())
		}
	})
	// string API
	cold("key text", func(r *rand.Rand) func() string {
		t, p, n := xkey(r).Text(), path(r), int32(r.IntN(1000))
		msg := base64.StdEncoding.EncodeToString(rbytes(r, 20))
		seed := base64.StdEncoding.EncodeToString(rbytes(r, 32))
		return func() string {
			k, err := keyaddr.FromString(t)
			if err != nil {
				return "error"
			}
			m, err := keyaddr.NewKey(seed)
			d, err2 := keyaddr.DeriveFrom(t, "/", p)
			c, err3 := k.Child(n)
			h, err4 := k.HardenedChild(n)
			s, err5 := k.Sign(msg)
			if err != nil || err2 != nil || err3 != nil || err4 != nil || err5 != nil {
				return "error"
			}
			return m.Key + d.Key + c.Key + h.Key + s.Signature + addrText(k)
		}
	})
	warm("shared key text", func(r *rand.Rand) func() string {
		i, n := r.IntN(4), int32(r.IntN(1000))
		return func() string {
			k := &keyaddr.Key{Key: w.pubT[i]}
			c, err := k.Child(n)
			if err != nil {
				return "error"
			}
			return addrText(k) + addrText(c)
		}
	})
	cold("word text", func(r *rand.Rand) func() string {
		s := base64.StdEncoding.EncodeToString(rbytes(r, r.IntN(40)))
		return func() string {
			t, err := keyaddr.WordsFromBytes("en", s)
			b, err2 := keyaddr.WordsToBytes("en", t)
			return show(t, errs(err), b, errs(err2), keyaddr.WordsFromPrefix("en", "zo", 3))
		}
	})
	cold("seed", func(r *rand.Rand) func() string {
		n := uint8(r.IntN(80))
		return func() string {
			b, err := key.GenerateSeed(n)
			if err == nil {
				noteSeed(b)
			}
			return show(len(b), errs(err))
		}
	})
	return l
}

func y1(b []byte) byte {
	if len(b) == 0 {
		return 3
	}
	return b[0]
}

func tableText(t eai.RateTable, from, to, off, freeze int64) string {
	a := t.Slice(types.Duration(from), types.Duration(to), types.Duration(off))
	b := t.SliceF(types.Duration(from), types.Duration(to), types.Duration(off), types.Duration(freeze))
	s := show(a, b, t.RateAt(types.Duration(from)), t.RateAt(types.Duration(to)))
	for _, l := range []eai.RateSlice{a, b} {
		for i := range l {
			l[i].Rate, l[i].Duration = -1, -1
		}
	}
	return s + show(t)
}

func setText(a, b *bitset256.Bitset256) string {
	ab, ix := a.AsBytes(), a.Indices()
	return show(a.Equals(b), a.Less(b), a.Intersect(b), a.Union(b), a.IsSubsetOf(b), a.Count(), a.AsHex(), a.String(), a.Get(9), a.Clone(), wipe(ab), wipe(ix))
}

func keyText(k *key.ExtendedKey) string {
	t, err := k.MarshalText()
	s, err2 := k.AsSignatureKey()
	if err != nil || err2 != nil {
		return "error"
	}
	f := fullText(s)
	e, err := key.FromSignatureKey(s)
	if err != nil {
		return "error"
	}
	u, err := e.MarshalText()
	return show(wipe(t), f, k.IsPrivate(), wipe(u), errs(err))
}

func signText(pub *signature.PublicKey, priv *signature.PrivateKey, msg []byte) string {
	sig := priv.Sign(msg)
	b, err := sig.Marshal()
	var u signature.Signature
	err2 := u.Unmarshal(b)
	t, err3 := pub.MarshalText()
	v, err4 := priv.MarshalText()
	m, err5 := pub.MarshalMsg(nil)
	return show(sig.Bytes(), pub.Verify(msg, sig), sig.Verify(append([]byte("x"), msg...), *pub), pub.Verify(msg, u), wipe(b), errs(err), errs(err2), wipe(t), errs(err3), wipe(v), errs(err4), wipe(m), errs(err5),
		pub.FullString(), priv.String(), pub.Size(), priv.Size(), pub.Msgsize() > 0, signature.Match(*pub, *priv), pub.IsZero(), pub.KeyBytes(), priv.ExtraBytes(), signature.NameOf(pub.Algorithm()))
}

func addrText(k *keyaddr.Key) string {
	a, err := k.NdauAddress()
	p, err2 := k.ToPublic()
	v, err3 := k.IsPrivate()
	if err != nil || err2 != nil || err3 != nil {
		return "error"
	}
	return show(a.Address, p.Key, v)
}

func fullText(k signature.Key) string {
	b, err := k.MarshalText()
	return string(b) + errs(err)
}
