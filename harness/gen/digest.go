package gen

import (
	"crypto"
	"crypto/sha256"
	"crypto/sha512"
	"hash"
)

// Digest computes the APK content digest of a kind (1 chunked SHA-256, 2 chunked SHA-512, 3 verity SHA-256)
// from the specification text: https://source.android.com/docs/security/features/apksigning/v2 and /v3.
func (s Sections) Digest(kind int) []byte {
	eocd := append([]byte(nil), s.EOCD...)
	if len(eocd) >= 20 {
		copy(eocd[16:20], le32(uint32(len(s.Before))))
	}
	parts := [][]byte{s.Before, s.CD, eocd}
	switch kind {
	case 1:
		return chunked(crypto.SHA256, parts)
	case 2:
		return chunked(crypto.SHA512, parts)
	case 3:
		return Verity(parts)
	}
	return nil
}

func chunked(h crypto.Hash, parts [][]byte) []byte {
	nh := func() hash.Hash {
		if h == crypto.SHA256 {
			return sha256.New()
		}
		return sha512.New()
	}
	var list [][]byte
	for _, p := range parts {
		for len(p) > 0 {
			n := 1 << 20
			if n > len(p) {
				n = len(p)
			}
			hh := nh()
			hh.Write([]byte{0xa5})
			hh.Write(le32(uint32(n)))
			hh.Write(p[:n])
			list = append(list, hh.Sum(nil))
			p = p[n:]
		}
	}
	hh := nh()
	hh.Write([]byte{0x5a})
	hh.Write(le32(uint32(len(list))))
	for _, x := range list {
		hh.Write(x)
	}
	return hh.Sum(nil)
}

// Verity is the root hash of a SHA-256 Merkle tree with 8 zero bytes of salt over 4096-byte zero-padded blocks,
// followed by the little-endian total length.
func Verity(parts [][]byte) []byte {
	total := 0
	for _, p := range parts {
		total += len(p)
	}
	level := make([]byte, 0, (total/4096+1)*32)
	block := make([]byte, 0, 8+4096)
	block = append(block, make([]byte, 8)...)
	flush := func() {
		for len(block) < 8+4096 {
			block = append(block, 0)
		}
		d := sha256.Sum256(block)
		level = append(level, d[:]...)
		block = block[:8]
	}
	for _, p := range parts {
		for len(p) > 0 {
			n := 8 + 4096 - len(block)
			if n > len(p) {
				n = len(p)
			}
			block = append(block, p[:n]...)
			p = p[n:]
			if len(block) == 8+4096 {
				flush()
			}
		}
	}
	if len(block) > 8 {
		flush()
	}
	for len(level) > 4096 {
		cur := level
		level = make([]byte, 0, len(cur)/128+32)
		for len(cur) > 0 {
			n := 4096
			if n > len(cur) {
				n = len(cur)
			}
			block = append(block[:8], cur[:n]...)
			cur = cur[n:]
			flush()
		}
	}
	block = append(block[:8], level...)
	for len(block) < 8+4096 {
		block = append(block, 0)
	}
	root := sha256.Sum256(block)
	return cat(root[:], le64(uint64(total)))
}
