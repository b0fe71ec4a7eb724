package gen

import (
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"hash"
	"io"
)

// Sparse is a file with a long run of zero bytes before the signing block: Head, Gap zeros, Tail. Flip, if not
// negative, is the position of a changed byte.
type Sparse struct {
	Head []byte
	Gap  int64
	Tail []byte
	Flip int64
}

// Size of the file.
func (s *Sparse) Size() int64 { return int64(len(s.Head)) + s.Gap + int64(len(s.Tail)) }

// ReadAt implements io.ReaderAt.
func (s *Sparse) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= s.Size() {
		return 0, io.EOF
	}
	n := len(p)
	if left := s.Size() - off; int64(n) > left {
		n = int(left)
	}
	q := p[:n]
	clear(q)
	if off < int64(len(s.Head)) {
		copy(q, s.Head[off:])
	}
	if t := int64(len(s.Head)) + s.Gap; off+int64(n) > t {
		if off >= t {
			copy(q, s.Tail[off-t:])
		} else {
			copy(q[t-off:], s.Tail)
		}
	}
	if s.Flip >= off && s.Flip < off+int64(n) {
		q[s.Flip-off] ^= 0x10
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// Open returns a reader.
func (s *Sparse) Open() *io.SectionReader { return io.NewSectionReader(s, 0, s.Size()) }

// sparseEOCD is the record as it is digested.
func sparseEOCD(eocd []byte, before int64) []byte {
	e := append([]byte(nil), eocd...)
	copy(e[16:20], le32(uint32(before)))
	return e
}

// SparseDigest is the content digest of the kind when gap zeros follow the entries.
func (s Sections) SparseDigest(kind int, gap int64) []byte {
	before := int64(len(s.Before)) + gap
	eocd := sparseEOCD(s.EOCD, before)
	if kind == 3 {
		return sparseVerity(s.Before, gap, cat(s.CD, eocd))
	}
	nh := func() hash.Hash { return sha256.New() }
	if kind == 2 {
		nh = sha512.New
	}
	chunk := func(head []byte, n int64) []byte {
		x := nh()
		x.Write([]byte{0xa5})
		x.Write(le32(uint32(n)))
		x.Write(head)
		x.Write(make([]byte, n-int64(len(head))))
		return x.Sum(nil)
	}
	var list [][]byte
	head := s.Before
	if len(head) >= 1<<20 {
		panic("head too long")
	}
	var zero []byte
	for left := before; left > 0; {
		n := min(left, 1<<20)
		switch {
		case len(head) > 0:
			list = append(list, chunk(head[:min(int64(len(head)), n)], n))
			head = nil
		case n == 1<<20:
			if zero == nil {
				zero = chunk(nil, n)
			}
			list = append(list, zero)
		default:
			list = append(list, chunk(nil, n))
		}
		left -= n
	}
	for _, part := range [][]byte{s.CD, eocd} {
		for len(part) > 0 {
			n := min(len(part), 1<<20)
			list = append(list, chunk(part[:n], int64(n)))
			part = part[n:]
		}
	}
	x := nh()
	x.Write([]byte{0x5a})
	x.Write(le32(uint32(len(list))))
	for _, d := range list {
		x.Write(d)
	}
	return x.Sum(nil)
}

func sparseVerity(head []byte, gap int64, tail []byte) []byte {
	block := func(b []byte) [32]byte { return sha256.Sum256(cat(make([]byte, 8), b, make([]byte, 4096-len(b)))) }
	zero := block(nil)
	total := int64(len(head)) + gap + int64(len(tail))
	f := &Sparse{Head: head, Gap: gap, Tail: tail, Flip: -1}
	var level []byte
	buf := make([]byte, 4096)
	for off := int64(0); off < total; off += 4096 {
		if off >= int64(len(head)) && off+4096 <= int64(len(head))+gap {
			level = append(level, zero[:]...)
			continue
		}
		n, _ := f.ReadAt(buf, off)
		d := block(buf[:n])
		level = append(level, d[:]...)
	}
	for len(level) > 4096 {
		cur := level
		level = nil
		for len(cur) > 0 {
			n := min(len(cur), 4096)
			d := block(cur[:n])
			level = append(level, d[:]...)
			cur = cur[n:]
		}
	}
	root := block(level)
	return cat(root[:], le64(uint64(total)))
}

// SparseFrostDigest is the digest of frosting when gap zeros follow the entries.
func (s Sections) SparseFrostDigest(v2 []byte, gap int64) []byte {
	h := sha256.New()
	h.Write(s.Before)
	z := make([]byte, 1<<20)
	for left := gap; left > 0; {
		n := min(left, int64(len(z)))
		h.Write(z[:n])
		left -= n
	}
	if len(v2) > 0 {
		h.Write(le32(IDV2))
		h.Write(v2)
	}
	h.Write(s.CD)
	h.Write(sparseEOCD(s.EOCD, int64(len(s.Before))+gap))
	return h.Sum(nil)
}

// Sparse assembles the file with gap zeros before the block.
func (s Sections) Sparse(gap int64, block []byte) *Sparse {
	e := append([]byte(nil), s.EOCD...)
	copy(e[16:20], le32(uint32(int64(len(s.Before))+gap+int64(len(block)))))
	return &Sparse{Head: s.Before, Gap: gap, Tail: cat(block, s.CD, e), Flip: -1}
}
