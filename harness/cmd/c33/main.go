// C33: the binary codecs.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"

	"github.com/tinylib/msgp/msgp"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/pricecurve"
	"github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

const rule = "values of every serializable type (numbers of every magnitude, tables of 0 to 70000 rows, data up to 70000 bytes) through both encoders, both decoders and an independent decoder; after other data and followed by other data, from streams which deliver byte by byte or in pieces, into fresh and used receivers; " +
	"every proper prefix, and streams and sinks which fail after every number of bytes; every width of every number; non-trivial when the encoding has more than one byte; distinct by type and encoding"

type codec interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
	msgp.Sizer
}

type kind struct {
	name  string
	fresh func() codec
	make  func(r gen.R) codec
	tree  func(v codec) any // what an independent decoder must read
}

func num(n int64) any { return big.NewInt(n) }

func rows(n int, f func(i int) (a, b int64)) any {
	l := []any{}
	for i := 0; i < n; i++ {
		a, b := f(i)
		l = append(l, []any{num(a), num(b)})
	}
	return l
}

func count(r gen.R) int {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return 14 + r.IntN(4)
	case 2:
		return r.IntN(300)
	case 3:
		if r.IntN(60) == 0 {
			return gen.Pick(r, 65535, 65536, 70000)
		}
	}
	return r.IntN(8)
}

func kinds() []kind {
	return []kind{
		{"Ndau", func() codec { return new(types.Ndau) }, func(r gen.R) codec { x := types.Ndau(r.Int64()); return &x }, func(v codec) any { return num(int64(*v.(*types.Ndau))) }},
		{"Duration", func() codec { return new(types.Duration) }, func(r gen.R) codec { x := types.Duration(r.Int64()); return &x }, func(v codec) any { return num(int64(*v.(*types.Duration))) }},
		{"Timestamp", func() codec { return new(types.Timestamp) }, func(r gen.R) codec { x := types.Timestamp(r.Int64()); return &x }, func(v codec) any { return num(int64(*v.(*types.Timestamp))) }},
		{"Nanocent", func() codec { return new(pricecurve.Nanocent) }, func(r gen.R) codec { x := pricecurve.Nanocent(r.Int64()); return &x }, func(v codec) any { return num(int64(*v.(*pricecurve.Nanocent))) }},
		{"Rate", func() codec { return new(eai.Rate) }, func(r gen.R) codec { x := eai.Rate(r.Int64()); return &x }, func(v codec) any { return num(int64(*v.(*eai.Rate))) }},
		{"AlgorithmID", func() codec { return new(signature.AlgorithmID) }, func(r gen.R) codec { x := signature.AlgorithmID(r.Gen()); return &x }, func(v codec) any { return num(int64(*v.(*signature.AlgorithmID))) }},
		{"RTRow", func() codec { return new(eai.RTRow) }, func(r gen.R) codec { return &eai.RTRow{From: types.Duration(r.Int64()), Rate: eai.Rate(r.Int64())} }, func(v codec) any {
			x := v.(*eai.RTRow)
			return []any{num(int64(x.From)), num(int64(x.Rate))}
		}},
		{"RSRow", func() codec { return new(eai.RSRow) }, func(r gen.R) codec {
			return &eai.RSRow{Duration: types.Duration(r.Int64()), Rate: eai.Rate(r.Int64())}
		}, func(v codec) any {
			x := v.(*eai.RSRow)
			return []any{num(int64(x.Duration)), num(int64(x.Rate))}
		}},
		{"RateTable", func() codec { return new(eai.RateTable) }, func(r gen.R) codec {
			t := eai.RateTable{}
			for n := count(r); n > 0; n-- {
				t = append(t, eai.RTRow{From: types.Duration(r.Int64()), Rate: eai.Rate(r.Int64())})
			}
			return &t
		}, func(v codec) any {
			t := *v.(*eai.RateTable)
			return rows(len(t), func(i int) (int64, int64) { return int64(t[i].From), int64(t[i].Rate) })
		}},
		{"RateSlice", func() codec { return new(eai.RateSlice) }, func(r gen.R) codec {
			t := eai.RateSlice{}
			for n := count(r); n > 0; n-- {
				t = append(t, eai.RSRow{Duration: types.Duration(r.Int64()), Rate: eai.Rate(r.Int64())})
			}
			return &t
		}, func(v codec) any {
			t := *v.(*eai.RateSlice)
			return rows(len(t), func(i int) (int64, int64) { return int64(t[i].Duration), int64(t[i].Rate) })
		}},
		{"Address", func() codec { return new(address.Address) }, func(r gen.R) codec {
			a := address.Address{}
			if r.IntN(6) > 0 {
				var err error
				if a, err = address.Generate(gen.Pick(r, []byte(ref.AddressKinds)...), r.Bytes(12+r.IntN(30))); err != nil {
					panic(err)
				}
			}
			return &a
		}, func(v codec) any { return []any{v.(*address.Address).String()} }},
		{"IdentifiedData", func() codec { return new(signature.IdentifiedData) }, func(r gen.R) codec {
			n := r.IntN(400)
			if r.IntN(60) == 0 {
				n = gen.Pick(r, 255, 256, 65535, 65536, 70000)
			}
			return &signature.IdentifiedData{Algorithm: signature.AlgorithmID(r.Gen()), Data: r.Bytes(n)}
		}, func(v codec) any {
			x := v.(*signature.IdentifiedData)
			return []any{num(int64(x.Algorithm)), append([]byte{}, x.Data...)}
		}},
	}
}

func same(a, b any) bool {
	switch x := a.(type) {
	case *big.Int:
		y, ok := b.(*big.Int)
		return ok && x.Cmp(y) == 0
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return a == b
}

var errSink = errors.New("no room")

// sink takes some bytes and then fails.
type sink struct {
	left  int
	short bool
}

func (s *sink) Write(p []byte) (int, error) {
	if len(p) <= s.left {
		s.left -= len(p)
		return len(p), nil
	}
	n := s.left
	s.left = 0
	if s.short {
		return n, io.ErrShortWrite
	}
	return n, errSink
}

// hiccup fails once.
type hiccup struct {
	at  int
	got []byte
}

func (s *hiccup) Write(p []byte) (int, error) {
	s.at--
	if s.at == -1 {
		return 0, errSink
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// stream delivers data in pieces and then fails.
type stream struct {
	data []byte
	end  error
	r    gen.R
	mode int
}

func (s *stream) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := len(p)
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.r.IntN(len(p))
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	return n, nil
}

func check(m *mon.M, r gen.R, k kind) {
	v := k.make(r)
	in, err := v.MarshalMsg(nil)
	m.Do(k.name, func() {
		if len(in) > 1 {
			m.NonTrivial()
		}
		m.Event(k.name)
		if !m.Check(err == nil, "MarshalMsg", "%v", err) {
			return
		}
		want := k.tree(v)
		eq := func(what string, o codec) { m.Check(same(k.tree(o), want), what, "got %v", shorten(o)) }
		// encoders
		tree, rest, err := ref.ReadMsgpack(in)
		m.Check(err == nil && len(rest) == 0 && same(tree, want), "format", "an independent decoder reads %v, %x, %v", shorten(tree), rest, err)
		m.Check(len(in) <= v.Msgsize(), "size bound", "%d > %d", len(in), v.Msgsize())
		before := r.Bytes(r.IntN(20))
		buf := make([]byte, len(before), len(before)+r.IntN(100))
		copy(buf, before)
		b, err := v.MarshalMsg(buf)
		m.Check(err == nil && bytes.HasPrefix(b, before) && bytes.Equal(b[len(before):], in), "MarshalMsg", "after %x: %x", before, b)
		var w bytes.Buffer
		err = msgp.Encode(&w, v)
		m.Check(err == nil && bytes.Equal(w.Bytes(), in), "EncodeMsg", "%x, %v", w.Bytes(), err)
		w.Reset()
		mw := msgp.NewWriterSize(&w, gen.Pick(r, 18, 19, 20, 31, 64, 1000))
		e1, e2, e3 := v.EncodeMsg(mw), v.EncodeMsg(mw), mw.Flush()
		m.Check(e1 == nil && e2 == nil && e3 == nil && bytes.Equal(w.Bytes(), append(append([]byte{}, in...), in...)), "EncodeMsg", "twice: %x", w.Bytes())
		eq("changed by encoding", v)
		// decoders
		after := r.Bytes(r.IntN(20))
		all := append(append([]byte{}, in...), after...)
		receiver := func() codec {
			if r.IntN(2) == 0 {
				return k.make(r)
			}
			return k.fresh()
		}
		o := receiver()
		left, err := o.UnmarshalMsg(m.Arg(all))
		m.Check(err == nil && bytes.Equal(left, after), "UnmarshalMsg", "%x left, %v", left, err)
		m.Reclaim()
		eq("UnmarshalMsg", o)
		src := &stream{data: all, end: io.EOF, r: r, mode: r.IntN(3)}
		rd := msgp.NewReaderSize(src, gen.Pick(r, 18, 20, 50, 2048))
		o = receiver()
		err = o.DecodeMsg(rd)
		m.Check(err == nil && rd.Buffered()+len(src.data) == len(after), "DecodeMsg", "%d bytes left of %d, %v", rd.Buffered()+len(src.data), len(after), err)
		eq("DecodeMsg", o)
		// a sequence of values in one stream
		src = &stream{data: append(append(append([]byte{}, in...), in...), in...), end: io.EOF, r: r, mode: r.IntN(3)}
		rd = msgp.NewReader(src)
		for i := 0; i < 3; i++ {
			o = receiver()
			m.Check(o.DecodeMsg(rd) == nil, "DecodeMsg", "value %d of a sequence", i)
			eq("DecodeMsg", o)
		}
		o = k.fresh()
		m.Check(o.DecodeMsg(rd) != nil, "DecodeMsg", "a value after the end")
		// failures
		cuts := len(in)
		for i := 0; i < cuts; i++ {
			n := i
			if cuts > 300 {
				n = r.IntN(len(in))
				if i > 100 {
					break
				}
			}
			m.Event("cut")
			o = receiver()
			_, err := o.UnmarshalMsg(in[:n:n])
			m.Check(err != nil, "UnmarshalMsg", "no error for the first %d bytes", n)
			o = receiver()
			end := gen.Pick(r, io.EOF, errSink, io.ErrUnexpectedEOF)
			err = o.DecodeMsg(msgp.NewReader(&stream{data: in[:n], end: end, r: r, mode: r.IntN(3)}))
			m.Check(err != nil, "DecodeMsg", "no error for the first %d bytes and %v", n, end)
			err = msgp.Encode(&sink{left: n, short: r.IntN(2) == 0}, v)
			m.Check(err != nil, "EncodeMsg", "no error for room of %d", n)
			mw := msgp.NewWriterSize(&sink{left: n}, 18)
			e1, e2 := v.EncodeMsg(mw), mw.Flush()
			m.Check(e1 != nil || e2 != nil, "EncodeMsg", "no error for room of %d in a small buffer", n)
			// after others, in a buffer which is full
			pad := r.IntN(40)
			mw = msgp.NewWriterSize(&sink{left: r.IntN(n + pad + 1)}, 18)
			_, e0 := mw.Write(make([]byte, pad))
			e1, e2 = v.EncodeMsg(mw), mw.Flush()
			m.Check(e0 != nil || e1 != nil || e2 != nil, "EncodeMsg", "no error after %d others", pad)
			// a sink which fails once
			h := &hiccup{at: r.IntN(1 + len(in)/18)}
			mw = msgp.NewWriterSize(h, 18)
			_, e0 = mw.Write(make([]byte, pad))
			e1, e2 = v.EncodeMsg(mw), mw.Flush()
			if e0 == nil && e1 == nil && e2 == nil {
				m.Check(bytes.Equal(h.got, append(make([]byte, pad), in...)), "EncodeMsg", "no error, but wrote %x", h.got)
			} else {
				m.Event("sink failed once")
			}
		}
	}, func() string { return fmt.Sprintf("%x", in[:min(len(in), 200)]) })
}

func shorten(x any) string {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && !v.IsNil() {
		x = v.Elem().Interface()
	}
	s := fmt.Sprint(x)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// widths: numbers are read from every width, if they fit.
func widths(m *mon.M, r gen.R, k kind) {
	n := new(big.Int).SetInt64(r.Int64())
	if r.IntN(3) == 0 {
		n.SetUint64(r.Gen())
	}
	lo, hi := big.NewInt(-1<<63), big.NewInt(1<<63-1)
	if k.name == "AlgorithmID" {
		lo, hi = big.NewInt(0), big.NewInt(255)
		if r.IntN(2) == 0 {
			n.SetInt64(int64(r.IntN(300) - 20))
		}
	}
	fits := n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
	for _, b := range ref.IntMsgpacks(n) {
		m.Do("widths", func() {
			m.NonTrivial()
			m.Event("widths")
			for i := 0; i < 2; i++ {
				o := k.fresh()
				var err error
				if i == 0 {
					_, err = o.UnmarshalMsg(m.Arg(b))
				} else {
					err = o.DecodeMsg(msgp.NewReader(bytes.NewReader(b)))
				}
				m.Check((err == nil) == fits, "verdict", "%v for %s", err, n)
				if err == nil && fits {
					m.Check(same(k.tree(o), n), "value", "%s for %s", shorten(o), n)
				}
			}
		}, k.name, b)
	}
}

// shapes: other numbers of fields, other types.
func shapes(m *mon.M, r gen.R, k kind) {
	v := k.make(r)
	in, err := v.MarshalMsg(nil)
	if err != nil || len(in) == 0 || len(in) > 3000 {
		return
	}
	t, isList := k.tree(v).([]any)
	var bad [][]byte
	if isList {
		fixed := k.name != "RateTable" && k.name != "RateSlice"
		for n := 0; n < 16; n++ {
			if n != len(t) && in[0]&0xf0 == 0x90 {
				b := append([]byte{byte(0x90 | n)}, in[1:]...)
				if n > len(t) {
					bad = append(bad, b)
				}
				if fixed {
					bad = append(bad, append(b, bytes.Repeat([]byte{1}, 20)...))
				}
			}
		}
		bad = append(bad, append([]byte{0x80 | in[0]&15}, in[1:]...), []byte{0xc0}, []byte{1}, append([]byte{0xc4, byte(len(in))}, in...))
		if !fixed && len(t) > 0 {
			// a row of another width
			for _, n := range []byte{0x90, 0x91, 0x93, 0x82} {
				for i := range in {
					if in[i] == 0x92 && i >= 1 {
						b := append([]byte{}, in...)
						b[i] = n
						if _, rest, err := ref.ReadMsgpack(b); n != 0x82 && (err != nil || len(rest) > 0) {
							bad = append(bad, b[:i+1]) // ends at the row, whatever it is
						}
						break
					}
				}
			}
		}
		if !fixed {
			// whole rows, one of which has another number of fields or is no row
			rows := max(1, min(len(t), 15))
			which := gen.Pick(r, 0, rows-1, r.IntN(rows))
			b := []byte{byte(0x90 | rows)}
			for i := 0; i < rows; i++ {
				n, kind := 2, byte(0x90)
				if i == which {
					n = gen.Pick(r, 0, 1, 3, 3, 4, 2)
					if n == 2 {
						kind = 0x80
					}
				}
				b = append(b, kind|byte(n))
				for k := 0; k < n+n*int(0x90-kind)/0x10; k++ {
					ns := ref.IntMsgpacks(big.NewInt(r.Int64() >> r.IntN(64)))
					b = append(b, ns[r.IntN(len(ns))]...)
				}
			}
			m.Event("rows of another width")
			bad = append(bad, b, append(append([]byte{}, b...), r.Bytes(r.IntN(20))...))
		}
	} else {
		bad = append(bad, []byte{0xc0}, []byte{0xc2}, []byte{0xc3}, []byte{0x90}, append([]byte{0x91}, in...), []byte{0xa1, '1'}, []byte{0xc4, 1, 1}, binary.BigEndian.AppendUint64([]byte{0xcb}, 0x3ff0000000000000), []byte{0x80}, []byte{0xc1})
	}
	for _, b := range bad {
		m.Do("shapes", func() {
			m.NonTrivial()
			m.Event("shapes")
			o := k.fresh()
			_, err := o.UnmarshalMsg(m.Arg(b))
			m.Check(err != nil, "UnmarshalMsg", "accepts %s", shorten(o))
			o = k.fresh()
			err = o.DecodeMsg(msgp.NewReader(bytes.NewReader(b)))
			m.Check(err != nil, "DecodeMsg", "accepts %s", shorten(o))
		}, k.name, b)
	}
}

func main() {
	mon.Main("C33", rule, func(m *mon.M) {
		ks := kinds()
		for _, k := range ks {
			m.Require(k.name, 1000)
		}
		m.Require("cut", 100000)
		m.Require("widths", 20000)
		m.Require("shapes", 10000)
		m.Require("rows of another width", 5000)
		m.Par("random", 16, func(m *mon.M, shard int) {
			r := gen.R{Rand: m.Rand}
			for j := m.N(450, 5000); j > 0; j-- {
				for _, k := range ks {
					check(m, r, k)
					if k.name != "Address" && k.name != "IdentifiedData" && k.name[:1] != "R" || k.name == "Rate" {
						widths(m, r, k)
					}
					shapes(m, r, k)
				}
			}
		})
		m.Par("exact sizes", 4, func(m *mon.M, shard int) {
			// every length of data around the changes of header
			k := ks[len(ks)-1]
			for n := shard; n < 600; n += 4 {
				r := gen.R{Rand: m.Rand}
				x := &signature.IdentifiedData{Algorithm: signature.AlgorithmID(r.Gen()), Data: r.Bytes(n)}
				check(m, r, kind{k.name, k.fresh, func(gen.R) codec { c := *x; c.Data = append([]byte{}, x.Data...); return &c }, k.tree})
			}
			for n := shard; n < 100; n += 4 {
				r := gen.R{Rand: m.Rand}
				t := eai.RateTable{}
				for i := 0; i < n; i++ {
					t = append(t, eai.RTRow{From: types.Duration(r.Int64()), Rate: eai.Rate(r.Int64())})
				}
				check(m, r, kind{"RateTable", ks[8].fresh, func(gen.R) codec { c := append(eai.RateTable{}, t...); return &c }, ks[8].tree})
			}
		})
	})
}
