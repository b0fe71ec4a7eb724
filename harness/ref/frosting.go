package ref

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/hex"
	"math/big"
)

// FrostRes is the model's frosting result.
type FrostRes struct {
	Clean, BadSig, BadDigest bool
	Key                      string
	Proto                    []byte
	Why                      string
}

type vcur struct {
	b   []byte
	pos int
}

// varint reads a 32 bit varint, as int32.
func (c *vcur) varint() (int, bool) {
	var v uint32
	for i := 0; i < 5; i++ {
		if c.pos >= len(c.b) {
			return 0, false
		}
		x := c.b[c.pos]
		c.pos++
		v |= uint32(x&0x7f) << (7 * i)
		if x < 0x80 {
			return int(int32(v)), true
		}
	}
	return 0, false
}

// item returns entry number n of a length-prefixed array of length-prefixed entries.
func (c *vcur) item(n int) ([]byte, bool) {
	size, ok := c.varint()
	if !ok || size <= 0 || size > len(c.b)-c.pos {
		return nil, false
	}
	end := c.pos + size
	for ; ; n-- {
		l, ok := c.varint()
		if !ok || l < 0 || c.pos+l > end {
			return nil, false
		}
		if n == 0 {
			return c.b[c.pos : c.pos+l], true
		}
		if c.pos+l == end {
			return nil, false
		}
		c.pos += l
	}
}

// Frost judges a frosting block; keys are DER public keys; digest the file's digest.
func Frost(b []byte, keys [][]byte, digest []byte) *FrostRes {
	r := &FrostRes{}
	bad := func(why string) *FrostRes {
		r.Why = why
		return r
	}
	c := &vcur{b: b}
	area, ok := c.varint()
	if !ok || area <= 0 || area > len(b)-c.pos {
		return bad("area size")
	}
	start := c.pos
	plen, ok := c.varint()
	if !ok || plen <= 0 || plen > area-(c.pos-start) {
		return bad("protobuf size")
	}
	proto := b[c.pos : c.pos+plen]
	c.pos += plen
	mlen, ok := c.varint()
	if !ok || mlen <= 0 || mlen > area-plen {
		return bad("metadata size")
	}
	limit := c.pos + mlen
	for i := 0; i < 32767 && c.pos < limit; i++ {
		n, ok := c.varint()
		end := c.pos + n
		if !ok || n < 0 || end > limit {
			return bad("entry size")
		}
		dis, ok := c.varint()
		if !ok || c.pos > end {
			return bad("disabled flag")
		}
		if dis != 0 {
			c.pos = end
			continue
		}
		k, ok := c.varint()
		if !ok || k < 0 || k >= len(keys) {
			return bad("key")
		}
		if end-c.pos != 32 || end > len(b) {
			return bad("digest size")
		}
		want := b[c.pos:end]
		s := &vcur{b: b, pos: start + area}
		sig, ok := s.item(i)
		if !ok {
			return bad("signature array")
		}
		pk, err := x509.ParsePKIXPublicKey(keys[k])
		if err != nil {
			return bad("key")
		}
		var rs struct{ R, S *big.Int }
		rest, err := asn1.Unmarshal(sig, &rs)
		if err != nil || len(rest) > 0 || rs.R.Sign() <= 0 || rs.S.Sign() <= 0 {
			return bad("signature encoding")
		}
		h := sha256.Sum256(b[start:end])
		if !ecdsa.Verify(pk.(*ecdsa.PublicKey), h[:], rs.R, rs.S) {
			r.BadSig = true
			return bad("signature")
		}
		if !bytes.Equal(want, digest) {
			r.BadDigest = true
			return bad("digest")
		}
		kh := sha256.Sum256(keys[k])
		r.Clean, r.Key, r.Proto = true, hex.EncodeToString(kh[:]), proto
		return r
	}
	return bad("no enabled entry")
}
