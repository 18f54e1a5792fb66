package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/ndau/ndaumath/pkg/signature"

	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sk"
)

// entry is an algorithm which has an id, with a key pair and a signature as
// they were written when it got it.
type entry struct {
	id        byte
	name      string
	al        signature.Algorithm
	pub, priv []byte // binary
	pubText   string
	sig       []byte
	sigText   string
	msg       []byte
}

type history struct {
	gen.R
	rep     report
	known   []*entry
	refused int
	made    map[string]byte
}

func (h *history) event(e string) { h.rep.Events[e]++ }

func (h *history) fail(class, format string, args ...any) {
	if len(h.rep.Violations) < 3 {
		h.rep.Violations = append(h.rep.Violations, [2]string{class, fmt.Sprintf("after %d steps: ", len(h.rep.Trace)) + fmt.Sprintf(format, args...)})
	}
}

func (h *history) check(ok bool, class, format string, args ...any) bool {
	if !ok {
		h.fail(class, format, args...)
	}
	return ok
}

func (h *history) byID(id byte) *entry {
	for _, e := range h.known {
		if e.id == id {
			return e
		}
	}
	return nil
}

func (h *history) byName(n string) *entry {
	for _, e := range h.known {
		if e.name == n {
			return e
		}
	}
	return nil
}

// write makes a pair and a signature and their encodings.
func (h *history) write(id byte, name string, al signature.Algorithm) *entry {
	e := &entry{id: id, name: name, al: al, msg: h.Bytes(h.IntN(40))}
	var pub, priv []byte
	switch id {
	case 0:
		pub, priv = []byte{}, []byte{}
	default:
		var err error
		pub, priv, err = al.Generate(bytes.NewReader(h.Bytes(512)))
		if err != nil {
			h.fail("Generate", "%v", err)
			return nil
		}
	}
	extra := h.Bytes(h.IntN(6))
	pk, err := signature.RawPublicKey(al, pub, extra)
	if !h.check(err == nil, "RawPublicKey", "%s: %v", name, err) {
		return nil
	}
	vk, err := signature.RawPrivateKey(al, priv, extra)
	if !h.check(err == nil, "RawPrivateKey", "%s: %v", name, err) {
		return nil
	}
	sig := vk.Sign(e.msg)
	e.pub, err = pk.Marshal()
	h.check(err == nil && bytes.Equal(e.pub, ref.KeyBinary(id, pub, extra)), "own key", "%s id %d: %x, %v", name, id, e.pub, err)
	e.priv, err = vk.Marshal()
	h.check(err == nil && bytes.Equal(e.priv, ref.KeyBinary(id, priv, extra)), "own key", "%s id %d: %x, %v", name, id, e.priv, err)
	e.sig, err = sig.Marshal()
	h.check(err == nil && bytes.Equal(e.sig, ref.Container(id, sig.Bytes())), "own signature", "%s id %d: %x, %v", name, id, e.sig, err)
	t, err := pk.MarshalText()
	e.pubText = string(t)
	h.check(err == nil && e.pubText == "npub"+ref.KeyText(id, pub, extra), "own key", "%s id %d: %s, %v", name, id, t, err)
	t, err = sig.MarshalText()
	e.sigText = string(t)
	h.check(err == nil && e.sigText == ref.SigText(id, sig.Bytes()), "own signature", "%s id %d: %s, %v", name, id, t, err)
	return e
}

// typeName is the name of the type of al, or of what it points to.
func typeName(al signature.Algorithm) string {
	t := reflect.TypeOf(al)
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t.Name()
}

// read decodes what was written and uses it.
func (h *history) read(e *entry) {
	defer func() {
		if r := recover(); r != nil {
			h.fail("panic", "reading keys of %s: %v", e.name, r)
		}
	}()
	h.event("decoded again")
	pk, vk, sig := new(signature.PublicKey), new(signature.PrivateKey), new(signature.Signature)
	var err error
	switch h.IntN(3) {
	case 0:
		err = pk.Unmarshal(e.pub)
	case 1:
		_, err = pk.UnmarshalMsg(e.pub)
	case 2:
		pk, err = signature.ParsePublicKey(e.pubText)
	}
	if !h.check(err == nil, "old key", "%s id %d: %v", e.name, e.id, err) {
		return
	}
	err = vk.Unmarshal(e.priv)
	if !h.check(err == nil, "old key", "%s id %d: %v", e.name, e.id, err) {
		return
	}
	switch h.IntN(3) {
	case 0:
		err = sig.Unmarshal(e.sig)
	case 1:
		_, err = sig.UnmarshalMsg(e.sig)
	case 2:
		sig, err = signature.ParseSignature(e.sigText)
	}
	if !h.check(err == nil, "old signature", "%s id %d: %v", e.name, e.id, err) {
		return
	}
	for what, al := range map[string]signature.Algorithm{"public key": pk.Algorithm(), "private key": vk.Algorithm(), "signature": sig.Algorithm()} {
		h.check(signature.NameOf(al) == signature.NameOf(e.al), "algorithm", "%s of %s id %d decodes to %s", what, e.name, e.id, signature.NameOf(al))
		h.check(signature.NameOf(al) == typeName(al), "name", "%s, not %s", signature.NameOf(al), typeName(al))
		h.check(signature.SameAlgorithm(al, e.al), "algorithm", "%s of %s id %d: not the same", what, e.name, e.id)
		h.check(al.PublicKeySize() == e.al.PublicKeySize() && al.PrivateKeySize() == e.al.PrivateKeySize() && al.SignatureSize() == e.al.SignatureSize(), "algorithm", "%s of %s id %d: sizes", what, e.name, e.id)
	}
	if e.id != 0 {
		h.check(pk.Verify(e.msg, *sig), "old signature", "%s id %d no longer verifies", e.name, e.id)
		h.check(!pk.Verify(append([]byte("x"), e.msg...), *sig) || len(e.sig) < 12, "old signature", "%s id %d verifies any message", e.name, e.id)
		h.check(bytes.Equal(pk.Algorithm().Public(vk.KeyBytes()), pk.KeyBytes()), "old key", "%s id %d: public key", e.name, e.id)
		s2 := vk.Sign(e.msg)
		b, err := s2.Marshal()
		h.check(err == nil && bytes.Equal(b, e.sig), "old key", "%s id %d signs %x, %v", e.name, e.id, b, err)
	}
	b, err := pk.Marshal()
	h.check(err == nil && bytes.Equal(b, e.pub), "written again", "%s id %d: %x, %v", e.name, e.id, b, err)
	b, err = vk.MarshalMsg(nil)
	h.check(err == nil && bytes.Equal(b, e.priv), "written again", "%s id %d: %x, %v", e.name, e.id, b, err)
	b, err = sig.Marshal()
	h.check(err == nil && bytes.Equal(b, e.sig), "written again", "%s id %d: %x, %v", e.name, e.id, b, err)
	// what a caller does to the algorithm of a decoded key stays there
	switch a := pk.Algorithm().(type) {
	case *params:
		a.Salt += 77
	case *onPointer:
		a.s += 77
	case *number:
		*a += 77
	case *large:
		a.s += 77
	case *array:
		a[2] += 77
	case *small:
		a.toy = toy{}
	}
}

func (h *history) all(deep bool) {
	for _, e := range h.known {
		if deep || h.IntN(4) == 0 || e.id < 3 {
			h.read(e)
		}
	}
	for i, a := range h.known {
		b := h.known[h.IntN(len(h.known))]
		h.check(signature.SameAlgorithm(a.al, b.al) == (a == b), "SameAlgorithm", "%s and %s", a.name, b.name)
		if deep && i%5 == 0 {
			for _, b := range h.known {
				h.check(signature.SameAlgorithm(a.al, b.al) == (a == b), "SameAlgorithm", "%s and %s", a.name, b.name)
			}
		}
	}
	// ids without an algorithm
	for id := 0; id < 256; id++ {
		if h.byID(byte(id)) == nil && (deep || h.IntN(16) == 0) {
			err := new(signature.PublicKey).Unmarshal(ref.KeyBinary(byte(id), nil, nil))
			h.check(err != nil, "unknown id", "%d decodes", id)
			err = new(signature.Signature).Unmarshal(ref.Container(byte(id), nil))
			h.check(err != nil, "unknown id", "%d decodes", id)
		}
	}
	// algorithms without an id
	for _, n := range names {
		if h.byName(n) == nil && (deep || h.IntN(8) == 0) {
			al := kind(n, 3, h.IntN(2) == 0)
			h.check(!signature.SameAlgorithm(al, al), "unregistered", "%s is the same as itself", n)
			for _, e := range h.known {
				h.check(!signature.SameAlgorithm(al, e.al) && !signature.SameAlgorithm(e.al, al), "unregistered", "%s is the same as %s", n, e.name)
			}
			k, err := signature.RawPublicKey(al, make([]byte, al.PublicKeySize()), nil)
			if h.check(err == nil, "unregistered", "%s: %v", n, err) {
				b, err := k.Marshal()
				h.check(err != nil, "unregistered", "%s is written as %x", n, b)
				h.unwritten("unregistered", n, k)
			}
			v, err := signature.RawPrivateKey(al, make([]byte, al.PrivateKeySize()), []byte{1})
			if h.check(err == nil, "unregistered", "%s: %v", n, err) {
				h.unwritten("unregistered", n, v)
				h.unsigned(n, v.Sign([]byte("message")))
				for _, e := range h.known {
					g := v.Sign(e.msg)
					p := new(signature.PublicKey)
					if p.Unmarshal(e.pub) == nil {
						h.check(!p.Verify(e.msg, g), "unregistered", "a signature of %s verifies with a key of %s", n, e.name)
						h.check(!signature.Match(*p, *v), "unregistered", "a key of %s matches one of %s", n, e.name)
					}
				}
			}
		}
	}
}

// unwritten: a key which has no form is not written, in whole or in part.
func (h *history) unwritten(class, name string, k signature.Key) {
	defer func() {
		if r := recover(); r != nil {
			h.fail("panic", "%s key of %s: %v", class, name, r)
		}
	}()
	h.event("unwritten")
	t, err := k.MarshalText()
	h.check(err != nil, class, "%s is written as %s", name, t)
	b, err := k.MarshalMsg([]byte("before"))
	h.check(err != nil, class, "%s is written as %x", name, b)
	b, err = json.Marshal(k)
	h.check(err != nil, class, "%s is written as %s", name, b)
	s, err := k.(interface{ MarshalString() (string, error) }).MarshalString()
	h.check(err != nil, class, "%s is written as %s", name, s)
	_ = k.String() + k.(interface{ FullString() string }).FullString()
	h.check(k.Msgsize() >= 0 && len(k.KeyBytes()) == k.(interface{ Size() int }).Size(), class, "sizes of %s", name)
}

// unsigned: neither is the signature of an algorithm without an id.
func (h *history) unsigned(name string, g signature.Signature) {
	defer func() {
		if r := recover(); r != nil {
			h.fail("panic", "signature of %s: %v", name, r)
		}
	}()
	t, err := g.MarshalText()
	h.check(err != nil, "unregistered", "a signature of %s is written as %s", name, t)
	b, err := g.MarshalMsg(nil)
	h.check(err != nil, "unregistered", "a signature of %s is written as %x", name, b)
	b, err = g.Marshal()
	h.check(err != nil, "unregistered", "a signature of %s is written as %x", name, b)
	s, err := g.MarshalString()
	h.check(err != nil, "unregistered", "a signature of %s is written as %s", name, s)
	b, err = json.Marshal(g)
	h.check(err != nil, "unregistered", "a signature of %s is written as %s", name, b)
}

// large: keys of more than 255 bytes have no form.
func (h *history) large() {
	id := byte(128 + h.IntN(128))
	for h.byID(id) != nil {
		id = byte(128 + h.IntN(128))
	}
	al := huge{one(9, gen.Pick(h.R, 256, 257, 300, 511, 512, 1000, 70000), gen.Pick(h.R, 256, 288, 320, 65536+32), gen.Pick(h.R, 256, 65535, 65536, 70000))}
	err := signature.RegisterAlgorithm(signature.AlgorithmID(id), al)
	h.rep.Trace = append(h.rep.Trace, fmt.Sprintf("large keys %d %d as %d: %v", al.pub, al.priv, id, err == nil))
	if !h.check(err == nil, "refused", "large keys as %d: %v", id, err) {
		return
	}
	pub, priv, err := signature.Generate(al, bytes.NewReader(h.Bytes(al.priv)))
	if !h.check(err == nil, "Generate", "%v", err) {
		return
	}
	h.unwritten("large", "large public key", &pub)
	h.unwritten("large", "large private key", &priv)
	msg := h.Bytes(h.IntN(50))
	g := priv.Sign(msg)
	h.check(pub.Verify(msg, g) && !pub.Verify(append(msg, 1), g) && signature.Match(pub, priv), "large", "signature")
	// the signatures have
	b, err := g.Marshal()
	h.check(err == nil && bytes.Equal(b, ref.Container(id, g.Bytes())), "large", "signature of %d: %v", al.sig, err)
	t, err := g.MarshalText()
	h.check(err == nil && string(t) == ref.SigText(id, g.Bytes()), "large", "signature of %d: %v", al.sig, err)
	s, err := signature.ParseSignature(string(t))
	h.check(err == nil && pub.Verify(msg, *s), "large", "decoded signature of %d: %v", al.sig, err)
	var d signature.Signature
	left, err := d.UnmarshalMsg(append(b, 1, 2))
	h.check(err == nil && len(left) == 2 && pub.Verify(msg, d), "large", "decoded signature of %d: %v", al.sig, err)
}

// fill gives every id an algorithm.
func (h *history) fill() {
	h.known = append(h.known, h.write(0, "null", signature.Null), h.write(sk.EdID, "ed25519", signature.Ed25519), h.write(sk.SecpID, "secp256k1", signature.Secp256k1))
	ids, types := h.Perm(128), h.Perm(wideTypes)
	if h.IntN(3) == 0 {
		for i := range ids {
			ids[i] = i
		}
	}
	for i := 0; i < wideTypes && len(h.rep.Violations) == 0; i++ {
		id := byte(h.IntN(256))
		if i < 128 {
			id = byte(128 + ids[i])
		}
		al := func(j int) signature.Algorithm {
			return wide(j, one(byte(j+1), 20+j%5, 10, 16+j%3), h.IntN(2) == 0)
		}
		h.register(id, fmt.Sprintf("t%d", types[i]), al(types[i]))
		if h.IntN(3) == 0 {
			// refused: another id, or another's
			j := types[h.IntN(i+1)]
			h.register(byte(128+h.IntN(128)), fmt.Sprintf("t%d", j), al(j))
		}
		h.all(i%25 == 24)
	}
	h.all(true)
	if len(h.known) == 3+128 {
		h.event("every id taken")
	}
}

// register takes one step, and compares it with the model.
func (h *history) register(id byte, name string, al signature.Algorithm) {
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				h.fail("panic", "registering %s as %d: %v", name, id, r)
				err = fmt.Errorf("panic")
			}
		}()
		err = signature.RegisterAlgorithm(signature.AlgorithmID(id), al)
	}()
	h.rep.Trace = append(h.rep.Trace, fmt.Sprintf("%s(%T) as %d: %v", name, al, id, err == nil))
	why := ""
	switch {
	case al == nil:
		why = "nil"
	case name == "":
		why = "anonymous"
	case id < 128:
		why = "reserved"
	case h.byID(id) != nil && h.byID(id).name != name:
		why = "in use"
	case h.byName(name) != nil && h.byName(name).id != id:
		why = "second id"
		if h.byName(name).id < 128 {
			why = "built-in"
		}
	}
	if why != "" {
		h.event("refused " + why)
		h.refused++
		h.check(err != nil, "not refused", "%s as %d (%s)", name, id, why)
		return
	}
	if h.byID(id) != nil {
		h.event("repeated")
		return
	}
	if !h.check(err == nil, "refused", "%s as %d: %v", name, id, err) {
		return
	}
	h.event("accepted")
	if h.refused > 0 {
		h.event("accepted after refused")
	}
	if e := h.write(id, name, al); e != nil {
		h.known = append(h.known, e)
	}
}

func (h *history) run(steps int) {
	h.known = append(h.known, h.write(0, "null", signature.Null), h.write(sk.EdID, "ed25519", signature.Ed25519), h.write(sk.SecpID, "secp256k1", signature.Secp256k1))
	if len(h.rep.Violations) > 0 {
		return
	}
	h.all(true)
	salt := map[string]byte{}
	for i := 0; i < steps && len(h.rep.Violations) == 0; i++ {
		id := byte(128 + h.IntN(128))
		switch h.IntN(6) {
		case 0:
			id = byte(h.IntN(256))
		case 1:
			id = gen.Pick(h.R, byte(0), 1, 2, 3, 126, 127, 128, 129, 254, 255)
		case 2:
			id = h.known[h.IntN(len(h.known))].id
		}
		name := names[h.IntN(len(names))]
		switch h.IntN(12) {
		case 0:
			h.register(id, "ed25519", gen.Pick[signature.Algorithm](h.R, signature.Ed25519, &signature.Ed25519))
		case 1:
			h.register(id, gen.Pick(h.R, "null"), gen.Pick[signature.Algorithm](h.R, signature.Null, &signature.Null))
		case 2:
			h.register(id, "secp256k1", gen.Pick[signature.Algorithm](h.R, signature.Secp256k1, &signature.Secp256k1))
		case 3:
			v := struct{ small }{}
			h.register(id, "", gen.Pick[signature.Algorithm](h.R, v, &v, struct{ signature.Algorithm }{signature.Ed25519}))
		case 4:
			h.register(id, "", nil)
		default:
			if e := h.known[h.IntN(len(h.known))]; h.IntN(4) == 0 && e.id >= 128 {
				name = e.name // again, as itself or elsewhere
				if h.IntN(2) == 0 {
					id = e.id
				}
			}
			s, ok := salt[name]
			if !ok {
				s = byte(1 + h.IntN(100))
				salt[name] = s
			}
			h.register(id, name, kind(name, s, h.IntN(2) == 0))
		}
		h.all(i%10 == 9 || i == steps-1)
	}
	if len(h.rep.Violations) == 0 && h.IntN(4) == 0 && len(h.known) < 120 {
		h.large()
		for _, e := range h.known {
			h.read(e)
		}
	}
}
