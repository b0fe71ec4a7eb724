package gen

import (
	"crypto"
	"crypto/sha256"
)

// Varint is the frosting (protobuf, 32 bit) varint encoding.
func Varint(v uint32) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// FrostMeta is one metadata entry.
type FrostMeta struct {
	Disabled uint32
	KeyIdx   uint32
	Sha      []byte
	RawSize  *uint32 // overrides the size
	Tail     []byte
	RawKey   []byte // raw key index varint
}

// FrostSpec describes a frosting block.
type FrostSpec struct {
	Proto    []byte
	Metas    []FrostMeta
	Sigs     [][]byte // nil entries are signed with SignKeys
	SignKeys []*Key   // one per meta; nil: no signature bytes
	ProtoLen *uint32
	MetaLen  *uint32
	TotalLen *uint32
	SigsLen  *uint32
	Tail     []byte
	PreSig   []byte // bytes between metadata and the end of the signed area
	SignAll  bool   // sign through the end of all metadata instead of the own entry
	SigEdit  func(i int, sig []byte) []byte
	SignEdit func(i int, signed []byte) []byte
}

func (m FrostMeta) enc() []byte {
	k := Varint(m.KeyIdx)
	if m.RawKey != nil {
		k = m.RawKey
	}
	body := cat(Varint(m.Disabled), k, m.Sha, m.Tail)
	n := uint32(len(body))
	if m.RawSize != nil {
		n = *m.RawSize
	}
	return cat(Varint(n), body)
}

func ovr(p *uint32, n int) uint32 {
	if p != nil {
		return *p
	}
	return uint32(n)
}

// Encode renders and signs the block.
func (f FrostSpec) Encode() []byte {
	var metas []byte
	var ends []int
	for _, m := range f.Metas {
		metas = append(metas, m.enc()...)
		ends = append(ends, len(metas))
	}
	head := cat(Varint(ovr(f.ProtoLen, len(f.Proto))), f.Proto, Varint(ovr(f.MetaLen, len(metas))))
	area := cat(head, metas, f.PreSig)
	var sigs []byte
	for i := range f.Metas {
		var sig []byte
		if i < len(f.Sigs) && f.Sigs[i] != nil {
			sig = f.Sigs[i]
		} else if i < len(f.SignKeys) && f.SignKeys[i] != nil {
			end := ends[i]
			if f.SignAll {
				end = len(metas)
			}
			signed := cat(head, metas[:end])
			if f.SignEdit != nil {
				signed = f.SignEdit(i, signed)
			}
			sig = f.SignKeys[i].Sign(Natural, crypto.SHA256, signed)
		} else {
			sig = []byte("none")
		}
		if f.SigEdit != nil {
			sig = f.SigEdit(i, sig)
		}
		sigs = append(sigs, cat(Varint(uint32(len(sig))), sig)...)
	}
	return cat(Varint(ovr(f.TotalLen, len(area))), area, Varint(ovr(f.SigsLen, len(sigs))), sigs, f.Tail)
}

// FrostDigest is the file digest frosting records: the file before the signing block, the v2 block with its id (if any),
// the central directory, and the end record with the directory offset pointing at the signing block.
func (s Sections) FrostDigest(v2 []byte) []byte {
	h := sha256.New()
	h.Write(s.Before)
	if len(v2) > 0 {
		h.Write(le32(IDV2))
		h.Write(v2)
	}
	h.Write(s.CD)
	e := append([]byte(nil), s.EOCD...)
	copy(e[16:20], le32(uint32(len(s.Before))))
	h.Write(e)
	return h.Sum(nil)
}
