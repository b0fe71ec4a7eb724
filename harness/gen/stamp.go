package gen

import "sort"

// Stamp attribute ids and the ZIP entry.
const (
	StampAttrTime uint32 = 0xe43c5946
	StampAttrPoR  uint32 = 0x9d6303f7
	StampEntry           = "stamp-cert-sha256"
)

// StampScheme is the signature list of one signature scheme.
type StampScheme struct {
	ID   uint32
	Sigs []AlgBytes
}

// StampRec is a source stamp block with every field explicit.
type StampRec struct {
	Cert     []byte
	Schemes  []StampScheme
	HasAttrs bool
	Attrs    []Attr
	AttrData []byte // set when signing: length-prefixed attribute list
	AttrSigs []AlgBytes
	Tail     []byte
}

// StampSpec makes a stamp.
type StampSpec struct {
	Key   *Key
	Cert  []byte            // nil: SelfCert
	Algs  []uint32          // nil: DefaultAlg
	Over  map[uint32][]byte // scheme id -> signed digest encoding
	Order []uint32          // order of schemes, nil: ascending
	Attrs []Attr            // nil and !WithAttrs: no attribute part
	With  bool
	Pre   func(*StampRec)
}

// StampDigest is the encoding of content digests a stamp signs.
func StampDigest(d map[int][]byte) []byte {
	var ks []int
	for k := range d {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var out []byte
	for _, k := range ks {
		out = append(out, LP(le32(uint32(k)), LP(d[k]))...)
	}
	return out
}

// EncAttrs renders the length-prefixed attribute list that is signed.
func EncAttrs(as []Attr) []byte {
	var at []byte
	for _, a := range as {
		at = append(at, LP(le32(a.ID), a.Val)...)
	}
	return LP(at)
}

// Rec builds and signs the record.
func (s StampSpec) Rec() *StampRec {
	r := &StampRec{Cert: s.Cert, Attrs: s.Attrs, HasAttrs: s.With || s.Attrs != nil}
	if r.Cert == nil {
		r.Cert = SelfCert(s.Key)
	}
	algs := s.Algs
	if algs == nil {
		algs = []uint32{DefaultAlg(s.Key)}
	}
	order := s.Order
	if order == nil {
		for id := range s.Over {
			order = append(order, id)
		}
		sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	}
	if s.Pre != nil {
		s.Pre(r)
	}
	for _, id := range order {
		sc := StampScheme{ID: id}
		for _, a := range algs {
			sc.Sigs = append(sc.Sigs, AlgBytes{Alg: a, Bytes: s.Key.SignAlg(a, s.Over[id])})
		}
		r.Schemes = append(r.Schemes, sc)
	}
	if r.HasAttrs {
		r.AttrData = EncAttrs(r.Attrs)
		for _, a := range algs {
			r.AttrSigs = append(r.AttrSigs, AlgBytes{Alg: a, Bytes: s.Key.SignAlg(a, r.AttrData)})
		}
	}
	return r
}

func encSigs(l []AlgBytes) []byte {
	var out []byte
	for _, s := range l {
		out = append(out, s.enc()...)
	}
	return LP(out)
}

// Encode renders the pair value.
func (r *StampRec) Encode() []byte {
	var sch []byte
	for _, s := range r.Schemes {
		sch = append(sch, LP(le32(s.ID), encSigs(s.Sigs))...)
	}
	out := cat(LP(r.Cert), LP(sch))
	if r.HasAttrs {
		out = append(out, LP(r.AttrData)...)
		out = append(out, encSigs(r.AttrSigs)...)
	}
	return LP(out, r.Tail)
}

// Pair is the signing block pair.
func (r *StampRec) Pair() Pair { return Pair{ID: IDStampV2, Val: r.Encode()} }
