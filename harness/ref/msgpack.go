package ref

import (
	"encoding/binary"
	"errors"
	"math/big"
)

// ErrMsgpack is the error of ReadMsgpack.
var ErrMsgpack = errors.New("not MessagePack")

// ReadMsgpack reads one value: *big.Int, string, []byte, []any; and what follows it.
func ReadMsgpack(b []byte) (v any, rest []byte, err error) {
	take := func(n uint64) ([]byte, bool) {
		if uint64(len(b)) < n {
			return nil, false
		}
		p := b[:n]
		b = b[n:]
		return p, true
	}
	num := func(w uint64) (uint64, bool) {
		p, ok := take(w)
		n := uint64(0)
		for _, c := range p {
			n = n<<8 | uint64(c)
		}
		return n, ok
	}
	p, ok := take(1)
	if !ok {
		return nil, nil, ErrMsgpack
	}
	c := p[0]
	array := func(n uint64) (any, []byte, error) {
		l := []any{}
		for ; n > 0; n-- {
			x, r, err := ReadMsgpack(b)
			if err != nil {
				return nil, nil, err
			}
			l, b = append(l, x), r
		}
		return l, b, nil
	}
	str := func(n uint64, ok bool) (any, []byte, error) {
		p, ok2 := take(n)
		if !ok || !ok2 {
			return nil, nil, ErrMsgpack
		}
		return string(p), b, nil
	}
	switch {
	case c < 0x80:
		return big.NewInt(int64(c)), b, nil
	case c >= 0xe0:
		return big.NewInt(int64(int8(c))), b, nil
	case c&0xf0 == 0x90:
		return array(uint64(c & 15))
	case c&0xe0 == 0xa0:
		return str(uint64(c&31), true)
	case c >= 0xcc && c <= 0xcf:
		n, ok := num(1 << (c - 0xcc))
		if !ok {
			return nil, nil, ErrMsgpack
		}
		return new(big.Int).SetUint64(n), b, nil
	case c >= 0xd0 && c <= 0xd3:
		w := uint(8) << (c - 0xd0)
		n, ok := num(uint64(w / 8))
		if !ok {
			return nil, nil, ErrMsgpack
		}
		return big.NewInt(int64(n<<(64-w)) >> (64 - w)), b, nil
	case c >= 0xc4 && c <= 0xc6:
		n, ok := num(1 << (c - 0xc4))
		p, ok2 := take(n)
		if !ok || !ok2 {
			return nil, nil, ErrMsgpack
		}
		return append([]byte{}, p...), b, nil
	case c >= 0xd9 && c <= 0xdb:
		return str(num(1 << (c - 0xd9)))
	case c == 0xdc || c == 0xdd:
		n, ok := num(2 << (c - 0xdc))
		if !ok {
			return nil, nil, ErrMsgpack
		}
		return array(n)
	}
	return nil, nil, ErrMsgpack
}

// IntMsgpacks are all the encodings of a number.
func IntMsgpacks(n *big.Int) [][]byte {
	var l [][]byte
	be := func(head byte, w int) {
		v := n.Uint64()
		if n.Sign() < 0 {
			v = uint64(n.Int64())
		}
		b := binary.BigEndian.AppendUint64(nil, v)
		l = append(l, append([]byte{head}, b[8-w:]...))
	}
	if n.IsInt64() {
		i := n.Int64()
		if i >= -32 && i < 128 {
			l = append(l, []byte{byte(i)})
		}
		for k := 0; k < 4; k++ {
			w := 8 << k
			if i>>(w-1) == 0 || i>>(w-1) == -1 {
				be(byte(0xd0+k), w/8)
			}
		}
	}
	if n.IsUint64() {
		for k := 0; k < 4; k++ {
			w := 8 << k
			if w == 64 || n.Uint64()>>w == 0 {
				be(byte(0xcc+k), w/8)
			}
		}
	}
	return l
}
