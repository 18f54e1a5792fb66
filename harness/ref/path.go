package ref

import (
	"errors"
	"strings"
)

// PathStep is a step of a path.
type PathStep struct {
	N    uint64
	Hard bool
}

// ErrPath is the error of paths.
var ErrPath = errors.New("path")

// ParsePath reads a path.
func ParsePath(s string) ([]PathStep, error) {
	s = strings.ReplaceAll(s, " ", "")
	if s == "/" {
		return nil, nil
	}
	if s == "" || s[0] != '/' {
		return nil, ErrPath
	}
	var out []PathStep
	for _, e := range strings.Split(s[1:], "/") {
		h := strings.HasSuffix(e, "'")
		e = strings.TrimSuffix(e, "'")
		if e == "" {
			return nil, ErrPath
		}
		var n uint64
		for _, c := range []byte(e) {
			if c < '0' || c > '9' {
				return nil, ErrPath
			}
			if n = n*10 + uint64(c-'0'); n > 1<<32-1 {
				n = 1 << 40 // too large, and stays so
			}
		}
		if n > 1<<32-1 {
			return nil, ErrPath
		}
		out = append(out, PathStep{n, h})
	}
	return out, nil
}

// Derive is step by step derivation; free says that the outcome may also be an
// error (numbers of unhardened steps from 2^31 on).
func Derive(x *XKey, parent, child string) (y *XKey, free bool, err error) {
	p, err := ParsePath(parent)
	if err != nil {
		return nil, false, err
	}
	c, err := ParsePath(child)
	if err != nil {
		return nil, false, err
	}
	if len(c) <= len(p) {
		return nil, false, ErrPath
	}
	for i := range p {
		if p[i] != c[i] {
			return nil, false, ErrPath
		}
	}
	for _, s := range append(append([]PathStep{}, p...), c...) {
		if s.N >= 1<<31 && !s.Hard {
			free = true
		}
	}
	for _, s := range c[len(p):] {
		n := s.N
		if s.Hard {
			if n >= 1<<31 {
				return nil, free, ErrPath
			}
			n += 1 << 31
		}
		x, err = x.Child(uint32(n))
		if err != nil {
			return nil, free, err
		}
	}
	return x, free, nil
}
