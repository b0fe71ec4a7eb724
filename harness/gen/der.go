// Package gen builds APKs, certificates and signatures from scratch. It shares no code with /repo.
package gen

import (
	"math/big"
	"strconv"
	"strings"
)

func cat(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := make([]byte, 0, n)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// Cat concatenates byte strings into a fresh slice.
func Cat(parts ...[]byte) []byte { return cat(parts...) }

// DerLen encodes a definite DER length.
func DerLen(n int) []byte {
	if n < 0x80 {
		return []byte{byte(n)}
	}
	var b []byte
	for x := n; x > 0; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// TLV encodes tag, length, value with a one-byte tag.
func TLV(tag byte, body ...[]byte) []byte {
	v := cat(body...)
	return cat([]byte{tag}, DerLen(len(v)), v)
}

func Seq(body ...[]byte) []byte { return TLV(0x30, body...) }
func Set(body ...[]byte) []byte { return TLV(0x31, body...) }
func Octets(b []byte) []byte    { return TLV(0x04, b) }
func Null() []byte              { return []byte{5, 0} }
func Bits(b []byte) []byte      { return TLV(0x03, []byte{0}, b) }
func Bool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}

func BigInt(n *big.Int) []byte {
	if n.Sign() == 0 {
		return []byte{2, 1, 0}
	}
	if n.Sign() > 0 {
		b := n.Bytes()
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return TLV(2, b)
	}
	// two's complement
	l := len(n.Bytes())
	for {
		m := new(big.Int).Lsh(big.NewInt(1), uint(8*l))
		m.Add(m, n)
		if m.Sign() >= 0 {
			b := m.FillBytes(make([]byte, l))
			if b[0]&0x80 != 0 {
				return TLV(2, b)
			}
		}
		l++
	}
}

func Int(n int64) []byte { return BigInt(big.NewInt(n)) }

func base128(n uint64) []byte {
	b := []byte{byte(n & 0x7f)}
	for n >>= 7; n > 0; n >>= 7 {
		b = append([]byte{byte(n&0x7f) | 0x80}, b...)
	}
	return b
}

// OID encodes a dotted object id.
func OID(s string) []byte {
	var arcs []uint64
	for _, p := range strings.Split(s, ".") {
		n, err := strconv.ParseUint(p, 10, 64)
		if err != nil {
			panic(err)
		}
		arcs = append(arcs, n)
	}
	out := base128(arcs[0]*40 + arcs[1])
	for _, a := range arcs[2:] {
		out = append(out, base128(a)...)
	}
	return TLV(6, out)
}

// AlgID encodes an AlgorithmIdentifier; params nil means absent.
func AlgID(oid string, params []byte) []byte { return Seq(OID(oid), params) }
