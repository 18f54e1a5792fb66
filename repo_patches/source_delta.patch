From ba79b814e24a53136af12818c222bde1775d7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 01/38] fix: normalize the case of addresses unmarshaled from
 text

UnmarshalText kept the raw text, so the same address read from upper-case
text compared unequal to the one Validate returns.
---
 pkg/address/address.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..7e8becd 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -46,11 +46,10 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
-	s := string(text)
-	_, err := Validate(s)
+	v, err := Validate(string(text))
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = v
 	return nil
 }
-- 
2.43.0


From 032b87f5a4b7c8957c75be277fdb1e7dafc4e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 02/38] fix: reject addresses containing base32 padding or
 newlines

The decoder tolerates both, so 48-character strings which are not addresses
validated, and a short enough decoding panicked.
---
 pkg/address/address_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..b2a4117 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -190,6 +190,11 @@ func Validate(addr string) (Address, error) {
 	if err != nil {
 		return emptyA(), err
 	}
+	// the base32 decoder skips newlines and accepts padding; neither is part of
+	// an address, and only without them do we get the full number of bytes
+	if len(h) != AddrLength*5/8 {
+		return emptyA(), newError(fmt.Sprintf("not a valid address '%s'", addr))
+	}
 	// now check the two bytes of the checksum
 	if !b32.Check(h[:len(h)-2], h[len(h)-2:]) {
 		// uncomment these lines if you want to regenerate a key
-- 
2.43.0


From fdb8369c51f0f874802cf07d70844d452ee1267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 03/38] fix: reject checksum widths which AddChecksum never
 produces

A width of 0 disabled the checksum altogether, and one over 28 panicked.
---
 pkg/signature/checksum.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..4639d64 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -84,6 +84,10 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 	if end < 1 {
 		return nil, false
 	}
+	// the number of checksum bytes is determined by the length of the message
+	if n != checksumWidth(end-1) {
+		return nil, false
+	}
 	message = checked[1:end]
 
 	sumActual := checked[end:]
-- 
2.43.0


From f2f4841ed41552b6774d6df07c41c01e61989843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 04/38] fix: return an error when unmarshaling malformed keys
 and signatures

An unknown algorithm id, and any malformed serialized signature, panicked.
---
 pkg/signature/algorithm.go | 12 ++++++++++--
 pkg/signature/signature.go |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..8b70d60 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -95,7 +95,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	example, known := idMap[container.Algorithm]
+	if !known {
+		return nil, nil, errors.Errorf("unknown algorithm id %d", container.Algorithm)
+	}
+	return cloneAl(example), container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +108,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	example, known := idMap[container.Algorithm]
+	if !known {
+		return nil, nil, nil, errors.Errorf("unknown algorithm id %d", container.Algorithm)
+	}
+	return cloneAl(example), container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..3edb6b3 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,8 +64,11 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
+	if err != nil {
+		return err
+	}
 	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
+	if ss >= 0 && len(b) != ss {
 		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
 	}
 	if err == nil {
-- 
2.43.0


From c05c5b5f9e4461b5bb6d5a10c0cd459aab4d87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 05/38] fix: do not panic when parsing a key from too short a
 text

---
 pkg/signature/private_key.go | 8 ++++++--
 pkg/signature/public_key.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..398ff60 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,8 +124,12 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		got := text
+		if len(got) > lep {
+			got = got[:lep]
+		}
+		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, got)
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..50f8687 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,8 +136,12 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		got := text
+		if len(got) > lep {
+			got = got[:lep]
+		}
+		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, got)
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
-- 
2.43.0


From a28be476c54c5fa46910f5f49331fa4782714411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 06/38] fix: treat a signature without algorithm as a Null
 signature

Verifying the zero signature, or asking for its size, panicked.
---
 pkg/signature/public_key.go | 2 +-
 pkg/signature/signature.go  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 50f8687..c9d1227 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -83,7 +83,7 @@ func (key PublicKey) Size() int {
 
 // Verify the supplied message with the given signature
 func (key PublicKey) Verify(message []byte, sig Signature) bool {
-	if NameOf(key.Algorithm()) != NameOf(sig.algorithm) {
+	if NameOf(key.Algorithm()) != NameOf(sig.Algorithm()) {
 		return false
 	}
 	return key.Algorithm().Verify(key.key, message, sig.data)
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 3edb6b3..047546a 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -31,6 +31,10 @@ type Signature struct {
 
 // Algorithm gets the signature's algorithm
 func (signature Signature) Algorithm() Algorithm {
+	// as for keys, a missing algorithm is the Null algorithm
+	if signature.algorithm == nil {
+		return Null
+	}
 	return signature.algorithm
 }
 
@@ -52,7 +56,7 @@ func RawSignature(al Algorithm, data []byte) (*Signature, error) {
 
 // Size returns the size of this signature
 func (signature Signature) Size() int {
-	return signature.algorithm.SignatureSize()
+	return signature.Algorithm().SignatureSize()
 }
 
 // Marshal marshals the signature into a serialized binary format
-- 
2.43.0


From e27754d7e27cf3514ab2cb82713c477e6175898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 07/38] fix: clear the previous key when unmarshaling an empty
 one

A key which is reused to unmarshal empty key data kept its previous bytes,
under the new algorithm.
---
 pkg/signature/keybase.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..0283875 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -55,6 +55,7 @@ func (key keyBase) pack() ([]byte, error) {
 
 func (key *keyBase) unpack(data []byte) error {
 	if len(data) == 0 {
+		key.key, key.extra = nil, nil
 		return nil
 	}
 	lk := int(data[0])
-- 
2.43.0


From eb800409d11b42fe3012c9dd42e2a71ce79e3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 08/38] fix: count the packed length and extra data in the size
 bound of keys

---
 pkg/signature/keybase.go     | 2 +-
 pkg/signature/private_key.go | 4 +---
 pkg/signature/public_key.go  | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 0283875..8605f8e 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -132,7 +132,7 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index 398ff60..5f30a3b 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -14,8 +14,6 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
-
-	"github.com/tinylib/msgp/msgp"
 )
 
 // PrivateKeyPrefix always prefixes Ndau private keys in text serialization
@@ -106,7 +104,7 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = key.keyBase.Msgsize()
 	return
 }
 
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index c9d1227..b33983f 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,7 +118,7 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = key.keyBase.Msgsize()
 	return
 }
 
-- 
2.43.0


From f492c0c4c3ec8a38826e631622cb78f2a09b6044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 09/38] fix: do not register one algorithm under two ids

The name map then held whichever id map iteration produced last, so the id
written into serialized keys and signatures changed from run to run.
---
 pkg/signature/id_map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..5e3f554 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -53,6 +53,9 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 			return fmt.Errorf("ID %d already in use by %s", id, existingName)
 		}
 	}
+	if existing, exists := idNameMap[NameOf(al)]; exists && existing != id {
+		return fmt.Errorf("%s already registered with ID %d", NameOf(al), existing)
+	}
 
 	idMap[id] = al
 	buildNameMap()
-- 
2.43.0


From dd9ad3a4319d2badb4e8d75edaef0aca0c5e96d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 10/38] fix: find the id of algorithms registered as pointers

their name in the map was empty, so their keys could not be serialized.
---
 pkg/signature/id_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e3f554..6a27deb 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -68,7 +68,7 @@ func buildNameMap() {
 	var example Algorithm
 	idNameMap = make(map[string]AlgorithmID)
 	for id, example = range idMap {
-		idNameMap[reflect.TypeOf(example).Name()] = id
+		idNameMap[NameOf(example)] = id
 	}
 }
 
-- 
2.43.0


From 12c20ac8d50bd99440195b02487de0055aac359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 11/38] fix: forget the memoized public key when zeroing an
 extended key

A key unmarshaled into a used ExtendedKey reported the zeroed public key of
its predecessor.
---
 pkg/key/extendedkey.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..212e1be 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -516,6 +516,7 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	k.pubKey = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
-- 
2.43.0


From a9db1457714cd0bd1715996eb270413a4324ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 12/38] fix: do not share memory between an extended key and
 keys made from it

Zero is documented to clear only that particular key, but it also cleared the
keys which Public, SPrivKey, AsSignatureKey and FromSignatureKey returned.
---
 pkg/key/extendedkey.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 212e1be..7cb6e81 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -389,7 +389,8 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 	// key will simply be the pubkey of the current extended private key.
 	//
 	// This is the function N((k,c)) -> (K, c) from [BIP32].
-	return NewExtendedKey(k.PubKeyBytes(), k.chainCode, k.parentFP,
+	// The fields are copied, so zeroing one of the two keys leaves the other.
+	return NewExtendedKey(clone(k.PubKeyBytes()), clone(k.chainCode), clone(k.parentFP),
 		k.depth, k.childNum, false), nil
 }
 
@@ -497,6 +498,11 @@ func (k *ExtendedKey) parseExtra(data []byte) error {
 	return nil
 }
 
+// clone returns a copy of the passed slice.
+func clone(b []byte) []byte {
+	return append([]byte{}, b...)
+}
+
 // zero sets all bytes in the passed slice to zero.  This is used to
 // explicitly clear private key material from memory.
 func zero(b []byte) {
@@ -570,8 +576,8 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
-	err = k.parseExtra(key.ExtraBytes())
+	k.key = clone(key.KeyBytes())
+	err = k.parseExtra(clone(key.ExtraBytes()))
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
 	}
@@ -591,11 +597,11 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, clone(k.key), k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, clone(k.key), k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From 373a7a835c46bfb3928ae45709e0224506fb7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 13/38] fix: reject hardened child indices which wrap to normal
 ones

For n >= 2^31 the sum overflowed, and HardenedChild returned the normal child
n - 2^31, even of a public key.
---
 pkg/key/extendedkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 7cb6e81..938dafb 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -400,6 +400,9 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	if n >= HardenedKeyStart {
+		return nil, errors.New("hardened child index out of range")
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From c5ece66e996be7c1b3df6223b0ea69000efc5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 14/38] fix: check the words of phrases with no room for a
 checksum

ToBytes accepted any phrase of 8, 16 or 24 words, and others with checksums of
less than 4 bits, which FromBytes does not generate; the empty one panicked.
---
 pkg/words/words.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..ac4405c 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -199,6 +199,10 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
 		runlen := nbits - rb*8
+		// the checksums we generate have from 4 to 14 bits (see padData)
+		if rb < 0 || runlen < 4 || runlen > 14 {
+			continue
+		}
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
 		ckfound := getRun(rb*8, runlen, result)
-- 
2.43.0


From fe00beb25a3e61e11b8cce9b3b2daf108fc10579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 15/38] fix: do not overflow the factorial in ExpFrac

For fractions from about 0.64 (at the rate denominator) the loop ran until the
factorial was 0 modulo 2^64, and divided by it.
---
 pkg/signed/exp.go   | 6 +++++-
 pkg/unsigned/exp.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..e2766fa 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -20,6 +20,10 @@ import (
 // This frees us from the use of big math and it is also literally 25 times faster than the
 // big package and has no memory allocation.
 
+// maxTerm is the last term of the expansion whose factorial fits in 64 bits.
+// As the product never exceeds the scaled denominator, further terms are 0.
+const maxTerm = 20
+
 // ExpFrac calculates e^x, where x is a fraction numerator/denominator between
 // 0 and 1. We use a Taylor Series expansion of e^x that converges well in the target range.
 // This expansion is
@@ -60,7 +64,7 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 	product := numerator
 	fact := int64(1)
 	var err error
-	for i := int64(2); product != 0; i++ {
+	for i := int64(2); product != 0 && i <= maxTerm; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..101ed57 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -20,6 +20,10 @@ import (
 // This frees us from the use of big math and it is also literally 25 times faster than the
 // big package and has no memory allocation.
 
+// maxTerm is the last term of the expansion whose factorial fits in 64 bits.
+// As the product never exceeds the scaled denominator, further terms are 0.
+const maxTerm = 20
+
 // ExpFrac calculates e^x, where x is a fraction numerator/denominator between
 // 0 and 1. We use a Taylor Series expansion of e^x that converges well in the target range.
 // This expansion is
@@ -60,7 +64,7 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	product := numerator
 	fact := uint64(1)
 	var err error
-	for i := uint64(2); product != 0; i++ {
+	for i := uint64(2); product != 0 && i <= maxTerm; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 8d43506dad973524a986cde5f4ad56aca7840a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 16/38] fix: detect overflow of the scaled fraction and of the
 sum in ExpFrac

Denominators were checked only after the multiplication which might overflow,
the sum can exceed twice the denominator, and 0/0 was taken for a fraction.
---
 pkg/signed/exp.go   | 13 +++++++++----
 pkg/unsigned/exp.go | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index e2766fa..1e1d0fd 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -43,14 +43,15 @@ const maxTerm = 20
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
+	// check before scaling, which must not overflow
+	if denominator > (math.MaxInt64/2)/rounder {
 		return 0, errors.New("denominator too large")
 	}
-	if numerator > denominator || numerator < 0 || denominator < 0 {
+	if numerator > denominator || numerator < 0 || denominator <= 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -72,5 +73,9 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 		fact *= i
 		sum += product / fact
 	}
+	// the sum is at most e times the denominator: if it wrapped, it is less
+	if sum+rounder/2 < denominator {
+		return 0, errors.New("denominator too large")
+	}
 	return (sum + rounder/2) / rounder, nil
 }
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index 101ed57..86f3cf4 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -43,14 +43,15 @@ const maxTerm = 20
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
+	// check before scaling, which must not overflow
+	if denominator > (math.MaxUint64/2)/rounder {
 		return 0, errors.New("denominator too large")
 	}
-	if numerator > denominator {
+	if numerator > denominator || denominator == 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -72,5 +73,9 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 		fact *= i
 		sum += product / fact
 	}
+	// the sum is at most e times the denominator: if it wrapped, it is less
+	if sum+rounder/2 < denominator {
+		return 0, errors.New("denominator too large")
+	}
 	return (sum + rounder/2) / rounder, nil
 }
-- 
2.43.0


From ce5ef240e8afc1397445d6f112a1111018c04ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 17/38] fix: correct the larger bounds in the table of integer
 logarithms

They were computed with floats, which cannot represent them.
---
 pkg/unsigned/log.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pkg/unsigned/log.go b/pkg/unsigned/log.go
index c082186..60ee700 100644
--- a/pkg/unsigned/log.go
+++ b/pkg/unsigned/log.go
@@ -13,25 +13,24 @@ package unsigned
 var bounds []uint64
 
 func init() {
-	// Table was constructed in python:
+	// Table was constructed in python; floats are not precise enough for it:
 	//
-	// >>> from math import ceil, exp
+	// >>> from mpmath import mp, ceil, exp
+	// >>> mp.dps = 60
 	// >>> i = 0
 	// >>> bounds = []
 	// >>> while exp(i) <= 2**64:
-	// ...     bounds.append(ceil(exp(i))-1)
+	// ...     bounds.append(int(ceil(exp(i)))-1)
 	// ...     i += 1
-	// ...
-	// True
 	bounds = []uint64{
 		0, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413,
 		1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195,
 		1318815734, 3584912846, 9744803446, 26489122129, 72004899337, 195729609428,
 		532048240601, 1446257064291, 3931334297144, 10686474581524, 29048849665247,
 		78962960182680, 214643579785916, 583461742527454, 1586013452313430,
-		4311231547115194, 11719142372802611, 31855931757113755, 86593400423993743,
-		235385266837019999, 639843493530054911, 1739274941520500991,
-		4727839468229346303, 12851600114359308287, ^uint64(0),
+		4311231547115195, 11719142372802611, 31855931757113756, 86593400423993746,
+		235385266837019985, 639843493530054949, 1739274941520501047,
+		4727839468229346561, 12851600114359308275, ^uint64(0),
 	}
 }
 
-- 
2.43.0


From 30f58fa0b3e4a2c18d506dd67c2eca4174108f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 18/38] fix: keep the sign of small negative quantities of ndau
 in text

---
 pkg/types/ndau.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..3a9ea9b 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -71,17 +71,18 @@ func (n Ndau) Compare(rhs Ndau) int {
 // decimal value of ndau. The full napu value is displayed, but trailing zeros
 // are suppressed.
 func (n Ndau) String() string {
-	var sign int64 = 1
+	sign := ""
+	na := uint64(n)
 	if n < 0 {
-		sign = -1
+		sign = "-"
+		na = -na
 	}
-	na := n.Abs()
 	ndau := na / constants.NapuPerNdau
 	napu := na % constants.NapuPerNdau
 	if napu == 0 {
-		return strconv.FormatInt(int64(sign*int64(ndau)), 10)
+		return sign + strconv.FormatUint(ndau, 10)
 	}
-	s := fmt.Sprintf("%d.%08d", sign*int64(ndau), napu)
+	s := fmt.Sprintf("%s%d.%08d", sign, ndau, napu)
 	t := len(s)
 	// trim off trailing zeros
 	for ; s[t-1] == '0'; t-- {
-- 
2.43.0


From 08744e6b7ceffa0301a6d49d12388683f17b1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 19/38] fix: return an error when a quantity of ndau in text
 overflows

184467440737.09551616 ndau used to be parsed as 0.
---
 pkg/types/ndau.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index 3a9ea9b..7ab8a3b 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -17,6 +17,7 @@ import (
 	"strconv"
 
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	"github.com/ndau/ndaumath/pkg/signed"
 	"github.com/pkg/errors"
 )
@@ -130,6 +131,9 @@ func ParseNdau(s string) (Ndau, error) {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
+	if whole > gomath.MaxInt64/constants.NapuPerNdau {
+		return 0, ndauerr.ErrOverflow
+	}
 	out := Ndau(whole) * constants.NapuPerNdau
 
 	fracs, ok := result["frac"]
@@ -147,7 +151,9 @@ func ParseNdau(s string) (Ndau, error) {
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
+		if out, err = out.Add(Ndau(frac)); err != nil {
+			return 0, errors.Wrap(err, "adding frac component")
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From e816b4364b3185faac321d8045d653ce07c900a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 20/38] fix: return an error when a duration in text overflows

---
 pkg/types/duration.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..2e08832 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -18,6 +18,7 @@ import (
 	"time"
 
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	"github.com/ndau/ndaumath/pkg/signed"
 )
 
@@ -67,14 +68,23 @@ func ParseDuration(s string) (Duration, error) {
 		}
 	}
 
-	duration := Duration(0)
+	// accumulate the magnitude, which for the smallest duration is one more
+	// than for the largest
+	magnitude := uint64(0)
+	limit := uint64(constants.MaxDuration)
+	if result["neg"] != "" {
+		limit++
+	}
 	addTime := func(name string, unit uint64) error {
 		if result[name] != "" {
 			value, err := strconv.ParseUint(result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			if value > (limit-magnitude)/unit {
+				return ndauerr.ErrOverflow
+			}
+			magnitude += value * unit
 		}
 		return nil
 	}
@@ -101,6 +111,7 @@ func ParseDuration(s string) (Duration, error) {
 		return Duration(0), err
 	}
 
+	duration := Duration(magnitude)
 	if result["neg"] != "" {
 		duration = -duration
 	}
-- 
2.43.0


From b016b32a23344386815ea708c611e0e117b46b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 21/38] fix: format the smallest duration

Its magnitude does not fit an int64, so its text was a bare minus sign.
---
 pkg/types/duration.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index 2e08832..22a039c 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -121,17 +121,17 @@ func ParseDuration(s string) (Duration, error) {
 
 // String represents a Duration as a human-readable string
 func (d Duration) String() string {
-	value := int64(d)
+	value := uint64(d)
 	out := ""
-	if value < 0 {
+	if d < 0 {
 		out = "-"
 		value = -value
 	}
-	divmod := func(divisor, dividend int64) (int64, int64) {
+	divmod := func(divisor, dividend uint64) (uint64, uint64) {
 		return divisor / dividend, divisor % dividend
 	}
-	extract := func(symbol string, unit int64) {
-		var units int64
+	extract := func(symbol string, unit uint64) {
+		var units uint64
 		units, value = divmod(value, unit)
 		if units > 0 {
 			out += fmt.Sprintf("%d%s", units, symbol)
-- 
2.43.0


From a2b6320fbadb457697f785d7aed2078ff7171b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 22/38] fix: return an error when a rate in text overflows

---
 pkg/eai/rate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9bdc2b4..6d2e0a7 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -20,6 +20,7 @@ import (
 	"unicode/utf8"
 
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/pkg/errors"
 )
@@ -104,6 +105,9 @@ func ParseRate(s string) (Rate, error) {
 	if err != nil {
 		return Rate(0), errors.Wrap(err, "parsing pct")
 	}
+	if pct > uint64(gomath.MaxInt64/RateFromPercent(1)) {
+		return Rate(0), ndauerr.ErrOverflow
+	}
 	out := RateFromPercent(1) * Rate(pct)
 
 	fracs, ok := result["frac"]
@@ -121,6 +125,9 @@ func ParseRate(s string) (Rate, error) {
 		if err != nil {
 			return Rate(0), errors.Wrap(err, "parsing frac")
 		}
+		if Rate(frac) > gomath.MaxInt64-out {
+			return Rate(0), ndauerr.ErrOverflow
+		}
 		out += Rate(frac)
 	}
 
-- 
2.43.0


From 27008c1c24b72679b30fd3f2fe4da472b6200d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 23/38] fix: return an error when an amount of dollars in text
 overflows

---
 pkg/pricecurve/nanocent.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/pricecurve/nanocent.go b/pkg/pricecurve/nanocent.go
index 32a42ed..aabce06 100644
--- a/pkg/pricecurve/nanocent.go
+++ b/pkg/pricecurve/nanocent.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/ndau/ndaumath/pkg/signed"
 	"github.com/pkg/errors"
 )
 
@@ -81,7 +82,14 @@ func ParseDollars(dollars string) (Nanocent, error) {
 	}
 
 	// add it all up
-	nc := Nanocent(d*Dollar + c)
+	d, err = signed.Mul(d, Dollar)
+	if err == nil {
+		d, err = signed.Add(d, c)
+	}
+	if err != nil {
+		return 0, errors.Wrap(err, "converting dollars to nanocents")
+	}
+	nc := Nanocent(d)
 
 	// handle negatives
 	if submatches["neg"] == "-" {
-- 
2.43.0


From 852a3e62b73f3beb725656a4a9eb263a9c74c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 24/38] fix: compute what is left of a partially sold block

The quantity already sold from the block was taken for what is available.
---
 pkg/pricecurve/pricecurve.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index fc3c328..56672da 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -94,10 +94,7 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 	var totalPrice float64
 	for {
 		var price = ApproxPriceAtUnit(alreadySold)
-		var availableInThisBlock = alreadySold % numPerBlock
-		if availableInThisBlock == 0 {
-			availableInThisBlock = numPerBlock
-		}
+		var availableInThisBlock = numPerBlock - alreadySold%numPerBlock
 
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
-- 
2.43.0


From 488f1c51fff684f1218070d31201b02f7d8e1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 25/38] fix: convert timestamps beyond the range of
 time.Duration

Timestamps more than 292 years after the epoch were formatted as other dates,
and later dates all parsed as the same timestamp.
---
 pkg/types/timestamp.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/types/timestamp.go b/pkg/types/timestamp.go
index 83ff2fa..2d2c20e 100644
--- a/pkg/types/timestamp.go
+++ b/pkg/types/timestamp.go
@@ -51,22 +51,24 @@ func ParseTimestamp(s string) (Timestamp, error) {
 
 // TimestampFrom creates a Timestamp given a time.Time object
 func TimestampFrom(t time.Time) (Timestamp, error) {
-	// because this uses the standard library, it will overflow
-	// some 290 years after the epoch
-	//
-	// TODO: implement this in a way which ensures its monotonic properties
-	durationSinceEpoch := t.Sub(constants.Epoch)
-	if durationSinceEpoch < 0 {
+	if t.Before(constants.Epoch) {
 		return Timestamp(0), errors.New("date is before Epoch start")
 	}
-	return Timestamp(int64(durationSinceEpoch / time.Microsecond)), nil
+	// time.Duration would overflow some 290 years after the epoch
+	seconds := t.Unix() - constants.Epoch.Unix()
+	micros := int64(t.Nanosecond()) / int64(time.Microsecond)
+	if seconds > (constants.MaxTimestamp-micros)/Second {
+		return Timestamp(0), errors.New("date is after the last Timestamp")
+	}
+	return Timestamp(seconds*Second + micros), nil
 }
 
 // AsTime converts a Timestamp into a time.Time object
-//
-// TODO: implement this in a way which ensures its monotonic properties
 func (t Timestamp) AsTime() time.Time {
-	return constants.Epoch.Add(time.Duration(int64(t)) * time.Microsecond)
+	// time.Duration would overflow some 290 years after the epoch
+	seconds := int64(t) / Second
+	micros := int64(t) % Second
+	return time.Unix(constants.Epoch.Unix()+seconds, micros*int64(time.Microsecond)).UTC()
 }
 
 // Compare implements comparison for Timestamp.
-- 
2.43.0


From c59dbd3385baa73021be044691b13d26a1112fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 26/38] fix: survive calls of the wasm API without arguments or
 with a limit which is no number

---
 cmd/keyaddr/handlers.go | 11 ++++++++++-
 cmd/keyaddr/helpers.go  |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 05b4689..f5ea693 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -40,7 +40,10 @@ func exit(this js.Value, args []js.Value) interface{} {
 
 // errorHandler is a javascript overrideable error handler that prints to the console.
 func errorHandler(this js.Value, args []js.Value) interface{} {
-	msg := args[0]
+	msg := js.Undefined()
+	if len(args) > 0 {
+		msg = args[0]
+	}
 	js.Global().Get("console").Call("log", fmt.Sprintf("WASM Keyaddr Error: %s", msg))
 	return nil
 }
@@ -151,6 +154,12 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 
 		lang := remainder[0].String()
 		prefix := remainder[1].String()
+
+		if remainder[2].Type() != js.TypeNumber {
+			jsLogReject(callback, "max must be of type Number")
+			return
+		}
+
 		max := remainder[2].Int()
 
 		// do work
diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 85ecbb4..d84a9b4 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -23,6 +23,13 @@ import (
 // when this function returns err != nil, the handler should end asap.
 func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Value, error) {
 
+	// check that there is a callback at all
+	if len(args) == 0 {
+		msg := fmt.Sprintf("couldn't parse %s arguments: no arguments given.", source)
+		dispatchError(msg)
+		return js.Value{}, []js.Value{}, errors.New(msg)
+	}
+
 	// check that callback is a function
 	cb := args[len(args)-1]
 	if cb.Type() != js.TypeFunction {
-- 
2.43.0


From d7448ae1662dd5bcf63b1fe4a2e4bbdd3523fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 27/38] fix: return an error when a weighted average age
 overflows

---
 pkg/types/duration.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index 22a039c..07e6de2 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -166,7 +166,10 @@ func (d *Duration) UpdateWeightedAverageAge(
 	transferQty Ndau,
 	previousBalance Ndau,
 ) error {
-	waa := int64(*d) + int64(sinceLastUpdate)
+	waa, err := signed.Add(int64(*d), int64(sinceLastUpdate))
+	if err != nil {
+		return errors.New("Duration overflow in UpdateWeightedAverageAge")
+	}
 	if int64(transferQty) >= 0 {
 		newBalance, err := previousBalance.Add(transferQty)
 		if err != nil {
-- 
2.43.0


From bb8f1594ae0782ce5f6f59fa62597db8f5695c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 28/38] fix: return an error when EAI overflows a quantity of
 ndau

---
 pkg/eai/eai.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 26bf77c..4879a44 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -12,6 +12,7 @@ package eai
 
 import (
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
@@ -63,6 +64,9 @@ func Calculate(
 	if err != nil {
 		return 0, err
 	}
+	if eai > constants.MaxQuantaPerAddress {
+		return 0, ndauerr.ErrOverflow
+	}
 	return math.Ndau(eai), nil
 }
 
-- 
2.43.0


From c406bdceb906101be77c4520dd03fafd971b2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 29/38] fix: return when looking up a price which is not a
 number

---
 pkg/pricecurve/pricecurve.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index 56672da..fffa2c0 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -75,11 +75,10 @@ func ApproxUnitAtPrice(price float64) int {
 	guess := 15000
 	for high-low > 1 {
 		p := ApproxPriceAtUnit(types.Ndau(guess * 1000 * constants.QuantaPerUnit))
-		if p >= price {
-			high = guess
-		}
 		if p < price {
 			low = guess
+		} else {
+			high = guess
 		}
 		guess = int((high + low) / 2)
 	}
-- 
2.43.0


From b5dd8c54abbcbe6537debb0fce1491c294ed23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 30/38] fix: a decoded empty key is zero

---
 pkg/signature/keybase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 8605f8e..3ea8e17 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -238,5 +238,5 @@ func (key *keyBase) Zeroize() {
 
 // IsZero is true when this key is the zero value
 func (key keyBase) IsZero() bool {
-	return (key.algorithm == nil || key.algorithm == Null) && len(key.key) == 0 && len(key.extra) == 0
+	return SameAlgorithm(key.algorithm, Null) && len(key.key) == 0 && len(key.extra) == 0
 }
-- 
2.43.0


From 8855a700e96c81fc71c6bdded9531623ca3f603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 31/38] fix: a malformed rate table no longer allocates what
 its header announces

---
 pkg/eai/rate_gen.go | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/pkg/eai/rate_gen.go b/pkg/eai/rate_gen.go
index dadf427..dfc97e1 100644
--- a/pkg/eai/rate_gen.go
+++ b/pkg/eai/rate_gen.go
@@ -273,12 +273,10 @@ func (z *RateSlice) DecodeMsg(dc *msgp.Reader) (err error) {
 		err = msgp.WrapError(err)
 		return
 	}
-	if cap((*z)) >= int(zb0002) {
-		(*z) = (*z)[:zb0002]
-	} else {
-		(*z) = make(RateSlice, zb0002)
-	}
-	for zb0001 := range *z {
+	// grow as rows arrive: the header of malformed data may announce any number
+	(*z) = (*z)[:0]
+	for zb0001 := uint32(0); zb0001 < zb0002; zb0001++ {
+		(*z) = append((*z), RSRow{})
 		var zb0003 uint32
 		zb0003, err = dc.ReadArrayHeader()
 		if err != nil {
@@ -359,12 +357,10 @@ func (z *RateSlice) UnmarshalMsg(bts []byte) (o []byte, err error) {
 		err = msgp.WrapError(err)
 		return
 	}
-	if cap((*z)) >= int(zb0002) {
-		(*z) = (*z)[:zb0002]
-	} else {
-		(*z) = make(RateSlice, zb0002)
-	}
-	for zb0001 := range *z {
+	// grow as rows arrive: the header of malformed data may announce any number
+	(*z) = (*z)[:0]
+	for zb0001 := uint32(0); zb0001 < zb0002; zb0001++ {
+		(*z) = append((*z), RSRow{})
 		var zb0003 uint32
 		zb0003, bts, err = msgp.ReadArrayHeaderBytes(bts)
 		if err != nil {
@@ -411,12 +407,10 @@ func (z *RateTable) DecodeMsg(dc *msgp.Reader) (err error) {
 		err = msgp.WrapError(err)
 		return
 	}
-	if cap((*z)) >= int(zb0002) {
-		(*z) = (*z)[:zb0002]
-	} else {
-		(*z) = make(RateTable, zb0002)
-	}
-	for zb0001 := range *z {
+	// grow as rows arrive: the header of malformed data may announce any number
+	(*z) = (*z)[:0]
+	for zb0001 := uint32(0); zb0001 < zb0002; zb0001++ {
+		(*z) = append((*z), RTRow{})
 		var zb0003 uint32
 		zb0003, err = dc.ReadArrayHeader()
 		if err != nil {
@@ -497,12 +491,10 @@ func (z *RateTable) UnmarshalMsg(bts []byte) (o []byte, err error) {
 		err = msgp.WrapError(err)
 		return
 	}
-	if cap((*z)) >= int(zb0002) {
-		(*z) = (*z)[:zb0002]
-	} else {
-		(*z) = make(RateTable, zb0002)
-	}
-	for zb0001 := range *z {
+	// grow as rows arrive: the header of malformed data may announce any number
+	(*z) = (*z)[:0]
+	for zb0001 := uint32(0); zb0001 < zb0002; zb0001++ {
+		(*z) = append((*z), RTRow{})
 		var zb0003 uint32
 		zb0003, bts, err = msgp.ReadArrayHeaderBytes(bts)
 		if err != nil {
-- 
2.43.0


From 73cae538be50f217da01451506997d368341d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 32/38] fix: verifying with an ed25519 key of the wrong size is
 false, not a panic

---
 pkg/signature/algorithms/ed25519/ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/algorithms/ed25519/ed25519.go b/pkg/signature/algorithms/ed25519/ed25519.go
index 0667bac..daea989 100644
--- a/pkg/signature/algorithms/ed25519/ed25519.go
+++ b/pkg/signature/algorithms/ed25519/ed25519.go
@@ -51,6 +51,10 @@ func (e ed25519) Sign(private, message []byte) []byte {
 
 // Verify implements Algorithm
 func (ed25519) Verify(public, message, sig []byte) bool {
+	// impl.Verify panics if the public key has the wrong size
+	if len(public) != impl.PublicKeySize {
+		return false
+	}
 	return impl.Verify(impl.PublicKey(public), message, sig)
 }
 
-- 
2.43.0


From 34affd2433e7e025a8557546dc371b7ff1afc969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 33/38] fix: refuse to register anonymous algorithms, whose
 keys cannot be serialized

---
 pkg/signature/id_map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 6a27deb..e37a844 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -47,6 +47,10 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 	if id < AlgorithmID(128) {
 		return fmt.Errorf("Reserved algorithm id %d < 128", id)
 	}
+	// algorithms are told apart by their names
+	if al == nil || len(NameOf(al)) == 0 {
+		return errors.New("anonymous types are not Algorithms")
+	}
 	if existing, exists := idMap[id]; exists {
 		existingName := NameOf(existing)
 		if existingName != NameOf(al) {
-- 
2.43.0


From e0a0749e92e3bdd3da52fc40cf3244255fe61097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 34/38] fix: decoded keys keep the parameters of a registered
 algorithm

---
 pkg/signature/algorithm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index 8b70d60..cdfc356 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -81,7 +81,9 @@ func cloneAl(original Algorithm) Algorithm {
 	if val.Kind() == reflect.Ptr {
 		val = reflect.Indirect(val)
 	}
-	return reflect.New(val.Type()).Interface().(Algorithm)
+	clone := reflect.New(val.Type())
+	clone.Elem().Set(val)
+	return clone.Interface().(Algorithm)
 }
 
 // Unmarshal the serialized binary data into an Algorithm instance and
-- 
2.43.0


From 210a2a74b2644b8042630e9a69630343abc8c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 35/38] fix: a BigInt argument is reported as an error, not a
 panic that stops the module

---
 cmd/keyaddr/helpers.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index d84a9b4..6e12bd3 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -32,7 +32,7 @@ func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Va
 
 	// check that callback is a function
 	cb := args[len(args)-1]
-	if cb.Type() != js.TypeFunction {
+	if !supported(cb) || cb.Type() != js.TypeFunction {
 		msg := fmt.Sprintf("couldn't parse %s arguments: last argument must be a callback function.", source)
 		dispatchError(msg)
 		return js.Value{}, []js.Value{}, errors.New(msg)
@@ -47,9 +47,24 @@ func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Va
 	}
 
 	remainder := args[:len(args)-1]
+	for _, arg := range remainder {
+		if !supported(arg) {
+			msg := fmt.Sprintf("couldn't parse %s arguments: unsupported type of argument", source)
+			cb.Invoke(msg, nil)
+			return js.Value{}, []js.Value{}, errors.New(msg)
+		}
+	}
 	return cb, remainder, nil
 }
 
+// supported returns whether a value has a type that syscall/js knows of.
+// A BigInt does not: asking for its type or its string panics.
+func supported(v js.Value) (ok bool) {
+	defer func() { ok = recover() == nil }()
+	_ = v.Type()
+	return true
+}
+
 // dispatchError passes an error message to the javascript overrideable error handler.
 func dispatchError(msg string) {
 	js.Global().Call("KeyaddrErrorHandler", msg)
-- 
2.43.0


From ce646d4d50931235cd3260cf5a92af77069bea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 36/38] fix: NaN is no number of a child key

---
 cmd/keyaddr/handlers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index f5ea693..d2ec5ba 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -339,6 +339,11 @@ func child(this js.Value, args []js.Value) interface{} {
 			return
 		}
 
+		if math.IsNaN(remainder[1].Float()) {
+			jsLogReject(callback, "n must not be NaN")
+			return
+		}
+
 		n := remainder[1].Int()
 		if n < math.MinInt32 || n > math.MaxInt32 {
 			jsLogReject(callback, "n must not overflow int32")
@@ -412,6 +417,11 @@ func hardenedChild(this js.Value, args []js.Value) interface{} {
 			return
 		}
 
+		if math.IsNaN(remainder[1].Float()) {
+			jsLogReject(callback, "n must not be NaN")
+			return
+		}
+
 		n := remainder[1].Int()
 		if n < math.MinInt32 || n > math.MaxInt32 {
 			jsLogReject(callback, "n must not overflow int32")
-- 
2.43.0


From 0102e8dd5e5f26600956756a839620903089a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 37/38] fix: look up units at a price where int has 32 bits

---
 pkg/pricecurve/pricecurve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index fffa2c0..2e7ba14 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -74,7 +74,7 @@ func ApproxUnitAtPrice(price float64) int {
 	low := 0
 	guess := 15000
 	for high-low > 1 {
-		p := ApproxPriceAtUnit(types.Ndau(guess * 1000 * constants.QuantaPerUnit))
+		p := ApproxPriceAtUnit(types.Ndau(guess) * 1000 * constants.QuantaPerUnit)
 		if p < price {
 			low = guess
 		} else {
-- 
2.43.0


From 7ba050741e55da51ad234b885ea7522902ac4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 38/38] fix: a negative EAI rate is an error, not a very large
 one

---
 pkg/eai/eai.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 4879a44..7201187 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -13,6 +13,7 @@ package eai
 import (
 	"github.com/ndau/ndaumath/pkg/constants"
 	"github.com/ndau/ndaumath/pkg/ndauerr"
+	"github.com/ndau/ndaumath/pkg/signed"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
@@ -168,6 +169,9 @@ func calculateEAIFactor(
 		rateSlice = unlockedTable.Slice(from, weightedAverageAge, offset)
 	}
 	for _, row := range rateSlice {
+		if row.Duration == 0 {
+			continue
+		}
 		// fmt.Printf("%s @ %s\n", row.Duration.String(), row.Rate.String())
 
 		// factor = e ^ (rate * time)
@@ -190,7 +194,15 @@ func calculateEAIFactor(
 
 		effectiveRate := row.Rate
 		if lock != nil {
-			effectiveRate += lock.GetBonusRate()
+			sum, err := signed.Add(int64(row.Rate), int64(lock.GetBonusRate()))
+			if err != nil {
+				return 0, err
+			}
+			effectiveRate = Rate(sum)
+		}
+		// MulDiv would take a negative rate for a very large one
+		if effectiveRate < 0 {
+			return 0, errors.New("EAI rate is negative")
 		}
 		divisor, err := unsigned.MulDiv(uint64(effectiveRate), uint64(row.Duration), math.Year)
 		if err != nil {
-- 
2.43.0

