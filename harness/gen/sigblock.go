package gen

// Signing block pair ids.
const (
	IDV2       uint32 = 0x7109871a
	IDV3       uint32 = 0xf05368c0
	IDV31      uint32 = 0x1b93ad61
	IDPadding  uint32 = 0x42726577
	IDFrosting uint32 = 0x2146444e
	IDStampV2  uint32 = 0x6dff800d
	IDStampV1  uint32 = 0x2b09189e
	IDDepMeta  uint32 = 0x504b4453
	IDMeituan  uint32 = 0x71777777
	IDUnknown1 uint32 = 0x11223344
	IDUnknown2 uint32 = 0x55667788

	AttrStrip     uint32 = 0xbeeff00d
	AttrRotation  uint32 = 0x3ba06f8c
	AttrRotMinSDK uint32 = 0x559f8b02
	AttrRotOnDev  uint32 = 0xc2a6b3ba
)

// Pair is one ID-value pair; RawLen overrides the encoded length.
type Pair struct {
	ID     uint32
	Val    []byte
	RawLen *uint64
}

// EncodePairs renders pairs without the block frame.
func EncodePairs(pairs []Pair) []byte {
	var out []byte
	for _, p := range pairs {
		n := uint64(len(p.Val) + 4)
		if p.RawLen != nil {
			n = *p.RawLen
		}
		out = append(out, le64(n)...)
		out = append(out, le32(p.ID)...)
		out = append(out, p.Val...)
	}
	return out
}

// SigMagic ends a signing block.
const SigMagic = "APK Sig Block 42"

// FrameBlock wraps encoded pairs.
func FrameBlock(body []byte) []byte {
	n := le64(uint64(len(body) + 24))
	return cat(n, body, n, []byte(SigMagic))
}

// EncodeBlock renders a signing block.
func EncodeBlock(pairs ...Pair) []byte { return FrameBlock(EncodePairs(pairs)) }

// LP is a 32-bit length-prefixed byte string.
func LP(parts ...[]byte) []byte {
	v := cat(parts...)
	return cat(le32(uint32(len(v))), v)
}

// AlgBytes is a signature or digest record.
type AlgBytes struct {
	Alg   uint32
	Bytes []byte
	Raw   []byte // overrides the whole record content
}

func (a AlgBytes) enc() []byte {
	if a.Raw != nil {
		return LP(a.Raw)
	}
	return LP(le32(a.Alg), LP(a.Bytes))
}

// Attr is an additional attribute.
type Attr struct {
	ID  uint32
	Val []byte
}

// SignerRec is a signer with every field explicit.
type SignerRec struct {
	V3                   bool
	Digests              []AlgBytes
	Certs                [][]byte
	SignedMin, SignedMax uint32
	Attrs                []Attr
	SignedTail           []byte // junk at the end of signed data
	SignedData           []byte // set when signing
	OuterMin, OuterMax   uint32
	Sigs                 []AlgBytes
	PubKey               []byte
	Tail                 []byte // junk at the end of the signer
	Raw                  []byte // overrides everything
}

// SignerSpec says how to make a signer.
type SignerSpec struct {
	Key      *Key
	Algs     []uint32 // nil: DefaultAlg
	Certs    [][]byte // nil: SelfCert
	Attrs    []Attr
	Min, Max uint32 // v3
	PreSign  func(*SignerRec)
	Signed   func([]byte) []byte // edits the signed data
	PostSign func(*SignerRec)
}

func lpList(items [][]byte) []byte {
	var out []byte
	for _, i := range items {
		out = append(out, LP(i)...)
	}
	return LP(out)
}

// EncSignedData renders the signed-data part.
func (r *SignerRec) EncSignedData() []byte {
	var dg, at []byte
	for _, d := range r.Digests {
		dg = append(dg, d.enc()...)
	}
	for _, a := range r.Attrs {
		at = append(at, LP(le32(a.ID), a.Val)...)
	}
	var sdk []byte
	if r.V3 {
		sdk = cat(le32(r.SignedMin), le32(r.SignedMax))
	}
	return cat(LP(dg), lpList(r.Certs), sdk, LP(at), r.SignedTail)
}

// Encode renders the signer.
func (r *SignerRec) Encode() []byte {
	if r.Raw != nil {
		return r.Raw
	}
	var sg []byte
	for _, s := range r.Sigs {
		sg = append(sg, s.enc()...)
	}
	var sdk []byte
	if r.V3 {
		sdk = cat(le32(r.OuterMin), le32(r.OuterMax))
	}
	return cat(LP(r.SignedData), sdk, LP(sg), LP(r.PubKey), r.Tail)
}

// Build signs the sections and returns the encoded signer.
func (s SignerSpec) Build(sec Sections, v3 bool) []byte {
	return s.BuildRec(sec, v3).Encode()
}

// BuildRec signs the sections and returns the record.
func (s SignerSpec) BuildRec(sec Sections, v3 bool) *SignerRec {
	algs := s.Algs
	if algs == nil {
		algs = []uint32{DefaultAlg(s.Key)}
	}
	r := &SignerRec{V3: v3, Certs: s.Certs, Attrs: s.Attrs, SignedMin: s.Min, SignedMax: s.Max, OuterMin: s.Min, OuterMax: s.Max, PubKey: s.Key.SPKI}
	if r.Certs == nil {
		r.Certs = [][]byte{SelfCert(s.Key)}
	}
	for _, a := range algs {
		d := sec.Digest(DigestKind(a))
		if d == nil {
			d = []byte("digest of an unknown kind")
		}
		r.Digests = append(r.Digests, AlgBytes{Alg: a, Bytes: d})
	}
	if s.PreSign != nil {
		s.PreSign(r)
	}
	r.SignedData = r.EncSignedData()
	if s.Signed != nil {
		r.SignedData = s.Signed(r.SignedData)
	}
	for _, a := range algs {
		r.Sigs = append(r.Sigs, AlgBytes{Alg: a, Bytes: s.Key.SignAlg(a, r.SignedData)})
	}
	if s.PostSign != nil {
		s.PostSign(r)
	}
	return r
}

// SchemeBlock renders the value of a v2, v3 or v3.1 pair.
func SchemeBlock(signers ...[]byte) []byte { return lpList(signers) }

// V2 builds a v2 pair.
func V2(sec Sections, signers ...SignerSpec) Pair {
	var l [][]byte
	for _, s := range signers {
		l = append(l, s.Build(sec, false))
	}
	return Pair{ID: IDV2, Val: SchemeBlock(l...)}
}

// V3 builds a v3 pair.
func V3(sec Sections, signers ...SignerSpec) Pair { return v3pair(IDV3, sec, signers) }

// V31 builds a v3.1 pair.
func V31(sec Sections, signers ...SignerSpec) Pair { return v3pair(IDV31, sec, signers) }

func v3pair(id uint32, sec Sections, signers []SignerSpec) Pair {
	var l [][]byte
	for _, s := range signers {
		if s.Min == 0 && s.Max == 0 {
			s.Min, s.Max = 28, 0x7fffffff
		}
		l = append(l, s.Build(sec, true))
	}
	return Pair{ID: id, Val: SchemeBlock(l...)}
}

// LineageNode is one node of a rotation lineage (v3 or stamp).
type LineageNode struct {
	Cert      []byte
	Flags     uint32
	ParentAlg uint32 // inside the signed part
	Alg       uint32 // algorithm this node's key uses for the next node
	Sig       []byte
	RawSigned []byte // overrides the signed part
}

// SignedPart returns the bytes a parent signs.
func (n LineageNode) SignedPart() []byte {
	if n.RawSigned != nil {
		return n.RawSigned
	}
	return cat(LP(n.Cert), le32(n.ParentAlg))
}

// EncodeLineage renders a lineage attribute value.
func EncodeLineage(version uint32, nodes []LineageNode) []byte {
	out := le32(version)
	for _, n := range nodes {
		out = append(out, LP(LP(n.SignedPart()), le32(n.Flags), le32(n.Alg), LP(n.Sig))...)
	}
	return out
}

// MakeLineage builds an honest lineage over keys in order.
func MakeLineage(keys ...*Key) []LineageNode {
	var out []LineageNode
	for i, k := range keys {
		n := LineageNode{Cert: SelfCert(k), Flags: uint32(0x17 + i), Alg: DefaultAlg(k)}
		if i > 0 {
			p := keys[i-1]
			n.ParentAlg = DefaultAlg(p)
			n.Sig = p.SignAlg(n.ParentAlg, n.SignedPart())
		}
		if i == len(keys)-1 {
			n.Alg = 0
		}
		out = append(out, n)
	}
	return out
}

// RotAttr is a proof-of-rotation attribute.
func RotAttr(nodes []LineageNode) Attr { return Attr{AttrRotation, EncodeLineage(1, nodes)} }
