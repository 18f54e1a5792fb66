package ref

import (
	"crypto/sha256"
	"strings"
)

// Alphabet is ndau's base32 alphabet: no l, o, 0, 1.
const Alphabet = "abcdefghijkmnpqrstuvwxyz23456789"

// B32 encodes by RFC 4648 with ndau's alphabet and padding.
func B32(b []byte) string {
	var sb strings.Builder
	for i := 0; i < len(b); i += 5 {
		var v uint64
		n := min(5, len(b)-i)
		for j := 0; j < 5; j++ {
			v <<= 8
			if j < n {
				v |= uint64(b[i+j])
			}
		}
		chars := (n*8 + 4) / 5
		for j := 0; j < 8; j++ {
			if j < chars {
				sb.WriteByte(Alphabet[v>>(35-5*j)&31])
			} else {
				sb.WriteByte('=')
			}
		}
	}
	return sb.String()
}

// B32Decode decodes text which B32 could have written, in any case: without
// padding inside, of a length divisible by 8.
func B32Decode(s string) ([]byte, bool) {
	s = lowerASCII(s)
	if len(s)%8 != 0 {
		return nil, false
	}
	body := strings.TrimRight(s, "=")
	pad := len(s) - len(body)
	n, ok := map[int]int{0: 5, 1: 4, 3: 3, 4: 2, 6: 1}[pad]
	if !ok || pad > 0 && len(s) == 0 {
		return nil, false
	}
	var out []byte
	var v uint64
	bits := 0
	for i := 0; i < len(body); i++ {
		x := strings.IndexByte(Alphabet, body[i])
		if x < 0 {
			return nil, false
		}
		v = v<<5 | uint64(x)
		bits += 5
		if bits >= 8 {
			out = append(out, byte(v>>(bits-8)))
			bits -= 8
			v &= 1<<bits - 1
		}
	}
	if len(s) > 0 && len(out) != len(s)/8*5-5+n {
		return nil, false
	}
	return out, true
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// CRC16 is the CRC16/AUG-CCITT of b, bit by bit.
func CRC16(b []byte) uint16 {
	crc := uint16(0x1D0F)
	for _, c := range b {
		for i := 7; i >= 0; i-- {
			bit := uint16(c>>i)&1 ^ crc>>15
			crc <<= 1
			if bit == 1 {
				crc ^= 0x1021
			}
		}
	}
	return crc
}

// AddressKinds are the kinds of addresses.
const AddressKinds = "anexbm"

// Address is the address of some data: "nd", the kind, and 1 + 26*8 bits of the
// hash, with a checksum of 16 bits.
func Address(kind byte, data []byte) (string, bool) {
	k := strings.IndexByte(AddressKinds, kind)
	if k < 0 || len(data) < 12 {
		return "", false
	}
	h := sha256.Sum256(data)
	// 15 bits of prefix and a 0 bit
	v := strings.IndexByte(Alphabet, 'n')<<10 | strings.IndexByte(Alphabet, 'd')<<5 | strings.IndexByte(Alphabet, kind)
	v <<= 1
	b := append([]byte{byte(v >> 8), byte(v)}, h[6:]...)
	c := CRC16(b)
	return B32(append(b, byte(c>>8), byte(c))), true
}

// ValidAddress decides whether s is a valid address, and returns its canonical form.
func ValidAddress(s string) (string, bool) {
	l := lowerASCII(s)
	if len(l) != 48 || strings.IndexByte(AddressKinds, l[2]) < 0 || strings.ContainsAny(l, "=\r\n") {
		return "", false
	}
	b, ok := B32Decode(l)
	if !ok || len(b) != 30 {
		return "", false
	}
	c := CRC16(b[:28])
	return l, b[28] == byte(c>>8) && b[29] == byte(c)
}

// Checksummed is the message with the width of the checksum before and the
// checksum after it.
func Checksummed(msg []byte) []byte {
	// 3 to 7 bytes of checksum make the length a multiple of 5
	w := 3
	for (1+len(msg)+w)%5 != 0 {
		w++
	}
	h := sha256.Sum224(msg)
	b := append([]byte{byte(w)}, msg...)
	return append(b, h[28-w:]...)
}

// Unchecksum is the inverse of Checksummed.
func Unchecksum(b []byte) ([]byte, bool) {
	if len(b) < 4 {
		return nil, false
	}
	w := int(b[0])
	if w < 3 || w > 7 || 1+w > len(b) {
		return nil, false
	}
	msg := b[1 : len(b)-w]
	return msg, string(Checksummed(msg)) == string(b)
}

// Container is the MessagePack of an algorithm's id and data.
func Container(id byte, data []byte) []byte {
	b := []byte{0x92}
	if id < 128 {
		b = append(b, id)
	} else {
		b = append(b, 0xcc, id)
	}
	switch n := len(data); {
	case n < 256:
		b = append(b, 0xc4, byte(n))
	case n < 65536:
		b = append(b, 0xc5, byte(n>>8), byte(n))
	default:
		b = append(b, 0xc6, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return append(b, data...)
}

// KeyBinary is the binary format of a key.
func KeyBinary(id byte, key, extra []byte) []byte {
	d := append([]byte{byte(len(key))}, key...)
	return Container(id, append(d, extra...))
}

// KeyText is the text of a key, without its prefix.
func KeyText(id byte, key, extra []byte) string {
	return B32(Checksummed(KeyBinary(id, key, extra)))
}

// SigText is the text of a signature.
func SigText(id byte, data []byte) string {
	return B32(Checksummed(Container(id, data)))
}

// Sum224 is the SHA-224 of b.
func Sum224(b []byte) []byte {
	h := sha256.Sum224(b)
	return h[:]
}

// OldText is the text of a payload in the format before 2018.
func OldText(p []byte) string {
	h := sha256.Sum256(p)
	h = sha256.Sum256(h[:])
	return B32(append(append([]byte{}, p...), h[:4]...))
}
