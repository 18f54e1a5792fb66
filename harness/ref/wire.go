package ref

import (
	"strings"
)

// Verdict on an encoding.
type Verdict int

// Verdicts: free means that the documented format does not settle it.
const (
	Reject Verdict = iota
	Accept
	Free
)

// Decoded is a decoded key or signature.
type Decoded struct {
	ID         byte
	Key, Extra []byte // Key is the data of a signature
}

// uintMsg reads an unsigned MessagePack number of any width.
func uintMsg(b []byte) (n uint64, minimal bool, rest []byte, ok bool) {
	if len(b) == 0 {
		return
	}
	w := 0
	switch c := b[0]; {
	case c < 0x80:
		return uint64(c), true, b[1:], true
	case c >= 0xcc && c <= 0xcf:
		w = 1 << (c - 0xcc)
	case c >= 0xd0 && c <= 0xd3:
		w = 1 << (c - 0xd0)
	default:
		return
	}
	if len(b) < 1+w {
		return
	}
	for _, c := range b[1 : 1+w] {
		n = n<<8 | uint64(c)
	}
	return n, b[0] == 0xcc && n >= 128, b[1+w:], true
}

// ReadContainer reads a container and what follows it; a container which is
// MessagePack but not in its shortest form is Free.
func ReadContainer(b []byte) (id byte, data, rest []byte, v Verdict) {
	canonical := true
	switch {
	case len(b) > 0 && b[0] == 0x92:
		b = b[1:]
	case len(b) > 2 && b[0] == 0xdc && b[1] == 0 && b[2] == 2:
		b, canonical = b[3:], false
	case len(b) > 4 && b[0] == 0xdd && b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 2:
		b, canonical = b[5:], false
	default:
		return
	}
	n, minimal, b, ok := uintMsg(b)
	if !ok || n > 255 {
		return 0, nil, nil, Reject
	}
	canonical = canonical && minimal
	if len(b) == 0 {
		return 0, nil, nil, Reject
	}
	w := 0
	switch b[0] {
	case 0xc4:
		w = 1
	case 0xc5:
		w = 2
	case 0xc6:
		w = 4
	default:
		return 0, nil, nil, Reject
	}
	if len(b) < 1+w {
		return 0, nil, nil, Reject
	}
	l := uint64(0)
	for _, c := range b[1 : 1+w] {
		l = l<<8 | uint64(c)
	}
	if w == 2 && l < 256 || w == 4 && l < 65536 {
		canonical = false
	}
	b = b[1+w:]
	if l > uint64(len(b)) {
		return 0, nil, nil, Reject
	}
	v = Free
	if canonical {
		v = Accept
	}
	return byte(n), b[:l], b[l:], v
}

// KeySize of an algorithm; -1: unknown algorithm.
func KeySize(id byte, private bool) int {
	switch id {
	case 0:
		return 0
	case 1:
		if private {
			return 64
		}
		return 32
	case 2:
		if private {
			return 32
		}
		return 33
	}
	return -1
}

// ReadKey judges the binary form of a key, and what follows it.
func ReadKey(b []byte, private bool) (d Decoded, rest []byte, v Verdict) {
	id, data, rest, v := ReadContainer(b)
	if v == Reject {
		return
	}
	n := KeySize(id, private)
	if len(data) == 0 && n == 0 {
		return Decoded{ID: id}, rest, Free
	}
	if n < 0 || len(data) == 0 || int(data[0]) != n || len(data) < 1+n {
		return d, nil, Reject
	}
	return Decoded{id, data[1 : 1+n], data[1+n:]}, rest, v
}

// ReadSignature judges the binary form of a signature, and what follows it.
func ReadSignature(b []byte) (d Decoded, rest []byte, v Verdict) {
	id, data, rest, v := ReadContainer(b)
	if v == Reject {
		return
	}
	if id > 2 || id == 0 && len(data) != 0 || id == 1 && len(data) != 64 {
		return d, nil, Reject
	}
	return Decoded{ID: id, Key: data}, rest, v
}

// textBody is the checksummed contents of a text.
func textBody(s string) ([]byte, Verdict) {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 || s[i] == '=' {
			return nil, Free
		}
	}
	b, ok := B32Decode(strings.NewReplacer("\r", "", "\n", "").Replace(s))
	if !ok {
		return nil, Reject
	}
	b, ok = Unchecksum(b)
	if !ok {
		return nil, Reject
	}
	return b, Accept
}

// ReadKeyText judges the text of a key.
func ReadKeyText(s string, private bool) (d Decoded, v Verdict) {
	p := "npub"
	if private {
		p = "npvt"
	}
	free := false
	if !strings.HasPrefix(s, p) {
		if len(s) < 4 || lowerASCII(s[:4]) != p {
			return d, Reject
		}
		free = true // the case of the prefix
	}
	b, v := textBody(s[4:])
	if v != Accept {
		return d, v
	}
	d, rest, v := ReadKey(b, private)
	if v == Reject || len(rest) > 0 {
		return d, Reject
	}
	if free {
		v = Free
	}
	return d, v
}

// ReadSignatureText judges the text of a signature.
func ReadSignatureText(s string) (d Decoded, v Verdict) {
	b, v := textBody(s)
	if v != Accept {
		return d, v
	}
	d, rest, v := ReadSignature(b)
	if v == Reject || len(rest) > 0 {
		return d, Reject
	}
	return d, v
}

// ReadExtended judges the text of an extended key.
func ReadExtended(s string) (x *XKey, v Verdict) {
	private := len(s) >= 4 && lowerASCII(s[:4]) == "npvt"
	d, v := ReadKeyText(s, private)
	if v == Reject || v == Free && d.Key == nil {
		return nil, v
	}
	if d.ID != 2 || len(d.Extra) < 40 {
		return nil, Reject
	}
	if len(d.Extra) > 40 {
		v = Free
	}
	e := d.Extra
	return &XKey{Private: private, Key: d.Key, Depth: e[0], FP: e[1:4], Num: uint32(e[4])<<24 | uint32(e[5])<<16 | uint32(e[6])<<8 | uint32(e[7]), Chain: e[8:40]}, v
}
