// Package ref is the reference model: an independent implementation of the Android rules for APK signing blocks,
// written from the scheme documentation. It judges raw bytes.
package ref

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509"
	"encoding/asn1"
	"encoding/binary"
	"errors"
	"math"
	"math/big"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
)

// Res is the model's verdict on the signing block of a file.
type Res struct {
	TooShort bool
	NotFound bool
	Why      string
	Accept   bool
	Scheme   int
	Certs    [][][]byte
	Lineage  []impl.Node
	V3Certs  [][][]byte
	V3Lin    []impl.Node
	Extra    map[uint32][]byte
	Digests  map[int][]byte
	Unsure   bool
	Stamp    []byte // stamp v2 block
	Frosting []byte // last frosting block
	Loc      *Location
	FrostV2  []byte
}

// Location of the block.
type Location struct {
	Block, CD, EOCD int
	Pairs           []gen.Pair
}

type cur []byte

var errShort = errors.New("short")

func (c *cur) u32() (uint32, error) {
	if len(*c) < 4 {
		return 0, errShort
	}
	v := binary.LittleEndian.Uint32(*c)
	*c = (*c)[4:]
	return v, nil
}

func (c *cur) lp() (cur, error) {
	n, err := c.u32()
	if err != nil {
		return nil, err
	}
	if n > math.MaxInt32 || int(n) > len(*c) {
		return nil, errShort
	}
	v := (*c)[:n]
	*c = (*c)[n:]
	return v, nil
}

// Locate finds the signing block the way Android does. nil: none.
func Locate(f []byte) (*Location, string) {
	le := binary.LittleEndian
	if len(f) < 22 {
		return nil, "too short for EOCD"
	}
	eocd := -1
	for c := 0; c <= 65535 && len(f)-22-c >= 0; c++ {
		p := len(f) - 22 - c
		if le.Uint32(f[p:]) == 0x06054b50 && int(le.Uint16(f[p+20:])) == c {
			eocd = p
			break
		}
	}
	if eocd < 0 {
		return nil, "no EOCD"
	}
	cd, cds := int(le.Uint32(f[eocd+16:])), int(le.Uint32(f[eocd+12:]))
	if cd >= eocd || cd+cds != eocd {
		return nil, "central directory not before EOCD"
	}
	if eocd >= 20 && le.Uint32(f[eocd-20:]) == 0x07064b50 {
		return nil, "zip64"
	}
	if cd < 32 {
		return nil, "no room"
	}
	if string(f[cd-16:cd]) != gen.SigMagic {
		return nil, "no magic"
	}
	size := le.Uint64(f[cd-24:])
	if size < 24 || size > math.MaxInt32-8 || int(size)+8 > cd {
		return nil, "size out of range"
	}
	blk := cd - int(size) - 8
	if le.Uint64(f[blk:]) != size {
		return nil, "sizes differ"
	}
	loc := &Location{Block: blk, CD: cd, EOCD: eocd}
	p := f[blk+8 : cd-24]
	for len(p) > 0 {
		if len(p) < 8 {
			return nil, "truncated pair size"
		}
		n := le.Uint64(p)
		p = p[8:]
		if n < 4 || n > math.MaxInt32 || n > uint64(len(p)) {
			return nil, "pair size out of range"
		}
		loc.Pairs = append(loc.Pairs, gen.Pair{ID: le.Uint32(p), Val: p[4:n]})
		p = p[n:]
	}
	return loc, ""
}

// Verdict judges the signing block of f for an SDK interval.
func Verdict(f []byte, min, max int32) *Res {
	r := &Res{Scheme: 1}
	if len(f) < 4 {
		r.TooShort = true
		r.Why = "too short"
		return r
	}
	loc, why := Locate(f)
	if loc == nil {
		r.NotFound = true
		r.Why = why
		return r
	}
	r.Loc = loc
	blocks := map[uint32][]byte{}
	extra := map[uint32][]byte{}
	for _, p := range loc.Pairs {
		switch p.ID {
		case gen.IDV2, gen.IDV3, gen.IDV31:
			need := map[uint32]int32{gen.IDV2: 24, gen.IDV3: 28, gen.IDV31: 33}[p.ID]
			if blocks[p.ID] != nil || extra[p.ID] != nil {
				break // the first one counts
			}
			if max >= need {
				blocks[p.ID] = nz(p.Val)
			}
			if max < need || (p.ID == gen.IDV3 && max >= 33) {
				extra[p.ID] = nz(p.Val)
			}
		case gen.IDPadding:
		case gen.IDFrosting:
			r.Frosting = nz(p.Val)
		case gen.IDStampV2:
			if r.Stamp == nil {
				r.Stamp = nz(p.Val)
			}
		default:
			extra[p.ID] = nz(p.Val)
		}
	}
	r.FrostV2 = blocks[gen.IDV2]
	if r.FrostV2 == nil {
		r.FrostV2 = extra[gen.IDV2]
	}
	r.Extra = extra
	if max < 24 {
		r.Accept = true
		return r
	}
	sec := gen.Sections{Before: f[:loc.Block], CD: f[loc.CD:loc.EOCD], EOCD: f[loc.EOCD:]}
	r.attempt(sec, blocks, min, max)
	if !r.Accept && !r.NotFound && r.Scheme >= 3 && min < 28 && blocks[gen.IDV2] != nil {
		if blocks[gen.IDV31] == nil {
			extra[gen.IDV3] = blocks[gen.IDV3]
			delete(blocks, gen.IDV3)
			r.attempt(sec, blocks, min, max)
		}
	}
	return r
}

func nz(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

func (r *Res) attempt(sec gen.Sections, blocks map[uint32][]byte, min, max int32) {
	r.Accept, r.Certs, r.Lineage, r.V3Certs, r.V3Lin, r.Digests, r.Why = false, nil, nil, nil, nil, nil, ""
	switch {
	case blocks[gen.IDV31] != nil:
		r.Scheme = 31
		r.v31(sec, blocks[gen.IDV31], r.Extra[gen.IDV3], min, max)
	case blocks[gen.IDV3] != nil:
		r.Scheme = 3
		b := parseBlock(blocks[gen.IDV3], true)
		r.Unsure = r.Unsure || b.unsure
		r.Digests = b.digests
		if b.err != "" {
			r.Why = b.err
			return
		}
		if max >= 33 && b.hasRotMin {
			r.Why = "rotation-min-sdk but no v3.1"
			return
		}
		if e := b.cover(maxi(min, 28), max); e != "" {
			r.Why = e
			return
		}
		lin, e := b.lineage()
		if e != "" {
			r.Why = e
			return
		}
		if e := checkContent(sec, b.digests); e != "" {
			r.Why = e
			return
		}
		r.Certs, r.Lineage, r.Accept = b.certs, lin, true
	case blocks[gen.IDV2] != nil:
		r.Scheme = 2
		b := parseBlock(blocks[gen.IDV2], false)
		r.Unsure = r.Unsure || b.unsure
		r.Digests = b.digests
		if b.err != "" {
			r.Why = b.err
			return
		}
		if len(b.signers) > 10 {
			r.Why = "too many signers"
			return
		}
		if max >= 28 {
			for _, s := range b.signers {
				for _, a := range s.attrs {
					if a.ID != gen.AttrStrip {
						continue
					}
					if len(a.Val) < 4 {
						r.Why = "short strip attr"
						return
					}
					id := map[uint32]uint32{2: gen.IDV2, 3: gen.IDV3, 31: gen.IDV31}[binary.LittleEndian.Uint32(a.Val)]
					if id == 0 {
						r.Why = "unknown stripped scheme"
						return
					}
					if r.Extra[id] == nil {
						r.Why = "stripped"
						return
					}
				}
			}
		}
		if e := checkContent(sec, b.digests); e != "" {
			r.Why = e
			return
		}
		r.Certs, r.Accept = b.certs, true
	default:
		r.Scheme = 1
		r.NotFound = true
		r.Why = "no scheme block"
	}
}

func maxi(a, b int32) int32 {
	if a > b {
		return a
	}
	return b
}

func (r *Res) v31(sec gen.Sections, b31, b3 []byte, min, max int32) {
	b := parseBlock(b31, true)
	r.Unsure = r.Unsure || b.unsure
	r.Digests = b.digests
	if b3 == nil {
		r.Why = "no v3 base"
		return
	}
	v3 := parseBlock(b3, true)
	r.Unsure = r.Unsure || v3.unsure
	r.Digests = v3.digests
	if b.err != "" {
		r.Why = "v31: " + b.err
		return
	}
	if v3.err != "" {
		r.Why = "v3: " + v3.err
		return
	}
	if b.hasRotMin {
		r.Why = "rotation-min-sdk in a v3.1 signer"
		return
	}
	rot := int32(math.MaxInt32)
	for _, s := range b.signers {
		if s.min < rot {
			rot = s.min
		}
	}
	for _, m := range v3.rotMins {
		if m != rot {
			r.Why = "rotation min sdk mismatch"
			return
		}
	}
	if e := b.cover(max, max); e != "" {
		r.Why = "v31 " + e
		return
	}
	if e := v3.cover(maxi(min, 28), rot-1); e != "" {
		r.Why = "v3 " + e
		return
	}
	l31, e := b.lineage()
	if e != "" {
		r.Why = e
		return
	}
	l3, e := v3.lineage()
	if e != "" {
		r.Why = e
		return
	}
	if e := checkContent(sec, b.digests); e != "" {
		r.Why = "v31 " + e
		return
	}
	if e := checkContent(sec, v3.digests); e != "" {
		r.Why = "v3 " + e
		return
	}
	r.Certs, r.Lineage, r.V3Certs, r.V3Lin, r.Accept = b.certs, l31, v3.certs, l3, true
}

var digestCache sync.Map

func checkContent(sec gen.Sections, want map[int][]byte) string {
	for k, d := range want {
		if k == 3 && len(sec.Before)%4096 != 0 {
			return "verity on unaligned file"
		}
		var got []byte
		if len(sec.Before) < 1<<16 {
			h := sha256.New()
			for _, p := range [][]byte{{byte(k)}, sec.Before, gen.LE32(uint32(len(sec.Before))), sec.CD, gen.LE32(uint32(len(sec.CD))), sec.EOCD} {
				h.Write(p)
			}
			key := [32]byte(h.Sum(nil))
			if v, ok := digestCache.Load(key); ok {
				got = v.([]byte)
			} else {
				got = sec.Digest(k)
				digestCache.Store(key, got)
			}
		} else {
			got = sec.Digest(k)
		}
		if !bytes.Equal(got, d) {
			return "content digest"
		}
	}
	return ""
}

type signer struct {
	min, max int32
	attrs    []gen.Attr
	lineage  []impl.Node
	certs    [][]byte
}

type block struct {
	err       string
	signers   []*signer
	certs     [][][]byte
	digests   map[int][]byte
	hasRotMin bool
	rotMins   []int32
	unsure    bool
}

func parseBlock(v []byte, v3 bool) *block {
	b := &block{digests: map[int][]byte{}}
	c := cur(v)
	list, err := c.lp()
	if err != nil {
		b.err = "signer list"
		return b
	}
	for len(list) > 0 {
		s, err := list.lp()
		if err != nil {
			b.err = "signer record"
			return b
		}
		if e := b.signer(s, v3); e != "" {
			b.err = e
			return b
		}
	}
	if len(b.signers) == 0 {
		b.err = "no signers"
	}
	return b
}

func rank(kind int) int { return map[int]int{1: 1, 3: 2, 2: 3}[kind] }

func (b *block) signer(s cur, v3 bool) string {
	sd, err := s.lp()
	if err != nil {
		return "signed data"
	}
	sg := &signer{}
	if v3 {
		mn, e1 := s.u32()
		mx, e2 := s.u32()
		if e1 != nil || e2 != nil {
			return "sdk range"
		}
		sg.min, sg.max = int32(mn), int32(mx)
		if sg.min < 1 || sg.min > sg.max {
			return "bad sdk range"
		}
	}
	sigs, err := s.lp()
	if err != nil {
		return "signatures"
	}
	var algs []uint32
	best, bestSig := uint32(0), []byte(nil)
	for len(sigs) > 0 {
		rec, err := sigs.lp()
		if err != nil || len(rec) < 8 {
			return "signature record"
		}
		a, _ := rec.u32()
		algs = append(algs, a)
		k := gen.DigestKind(a)
		if k == 0 {
			continue
		}
		if best == 0 || rank(k) > rank(gen.DigestKind(best)) {
			best = a
			sb, err := rec.lp()
			if err != nil {
				return "signature bytes"
			}
			bestSig = sb
		}
	}
	if best == 0 {
		return "no supported signature"
	}
	pk, err := s.lp()
	if err != nil {
		return "public key"
	}
	pub, err := x509.ParsePKIXPublicKey(pk)
	if err != nil {
		return "public key does not parse"
	}
	if !VerifySig(pub, best, sd, bestSig) {
		return "signature"
	}
	digs, err := sd.lp()
	if err != nil {
		return "digests"
	}
	cl, err := sd.lp()
	if err != nil {
		return "certs"
	}
	if v3 {
		mn, e1 := sd.u32()
		mx, e2 := sd.u32()
		if e1 != nil || e2 != nil {
			return "signed sdk range"
		}
		if int32(mn) != sg.min || int32(mx) != sg.max {
			return "sdk range mismatch"
		}
	}
	for len(cl) > 0 {
		cb, err := cl.lp()
		if err != nil {
			return "cert record"
		}
		ct, err := parseCert(cb)
		if err != nil {
			b.unsure = true
			return "cert"
		}
		if len(sg.certs) == 0 && !bytes.Equal(ct.RawSubjectPublicKeyInfo, pk) {
			return "key is not the certificate's"
		}
		sg.certs = append(sg.certs, cb)
	}
	if len(sg.certs) == 0 {
		return "no certs"
	}
	var dalgs []uint32
	var dg []byte
	for len(digs) > 0 {
		rec, err := digs.lp()
		if err != nil || len(rec) < 8 {
			return "digest record"
		}
		a, _ := rec.u32()
		dalgs = append(dalgs, a)
		if a == best {
			d, err := rec.lp()
			if err != nil {
				return "digest bytes"
			}
			dg = d
		}
	}
	if len(algs) != len(dalgs) {
		return "algorithm lists"
	}
	for i := range algs {
		if algs[i] != dalgs[i] {
			return "algorithm lists"
		}
	}
	k := gen.DigestKind(best)
	if p, ok := b.digests[k]; ok && !bytes.Equal(p, dg) {
		return "signers disagree on digest"
	}
	b.digests[k] = nz(dg)
	at, err := sd.lp()
	if err != nil {
		return "attributes"
	}
	for len(at) > 0 {
		a, err := at.lp()
		if err != nil {
			return "attribute"
		}
		id, err := a.u32()
		if err != nil {
			return "attribute id"
		}
		sg.attrs = append(sg.attrs, gen.Attr{ID: id, Val: a})
		if v3 && id == gen.AttrRotMinSDK {
			b.hasRotMin = true
			if len(a) < 4 {
				b.rotMins = append(b.rotMins, -1)
			} else {
				b.rotMins = append(b.rotMins, int32(binary.LittleEndian.Uint32(a)))
			}
		}
		if v3 && id == gen.AttrRotation && len(a) > 0 {
			lin, e := Lineage(a)
			if e != "" {
				return "lineage: " + e
			}
			if len(lin) > 0 {
				if !bytes.Equal(lin[len(lin)-1].Cert, sg.certs[0]) {
					return "lineage does not end in the signer"
				}
				sg.lineage = lin
			}
		}
	}
	b.signers = append(b.signers, sg)
	b.certs = append(b.certs, sg.certs)
	return ""
}

var certCache sync.Map

func parseCert(b []byte) (*x509.Certificate, error) {
	if v, ok := certCache.Load(string(b)); ok {
		return v.(*x509.Certificate), nil
	}
	c, err := x509.ParseCertificate(b)
	if err == nil {
		certCache.Store(string(b), c)
	}
	return c, err
}

// Lineage parses and authenticates a rotation lineage.
func Lineage(v []byte) ([]impl.Node, string) {
	c := cur(v)
	ver, err := c.u32()
	if err != nil || ver != 1 {
		return nil, "version"
	}
	var out []impl.Node
	var prev *x509.Certificate
	for len(c) > 0 {
		n, err := c.lp()
		if err != nil {
			return nil, "node"
		}
		sd, err := n.lp()
		if err != nil {
			return nil, "signed part"
		}
		fl, e1 := n.u32()
		alg, e2 := n.u32()
		sig, e3 := n.lp()
		if e1 != nil || e2 != nil || e3 != nil {
			return nil, "fields"
		}
		full := []byte(sd)
		cb, e4 := sd.lp()
		palg, e5 := sd.u32()
		if e4 != nil || e5 != nil {
			return nil, "signed fields"
		}
		if prev != nil {
			last := out[len(out)-1]
			if !VerifySig(prev.PublicKey, last.Alg, full, sig) {
				return nil, "signature"
			}
			if palg != last.Alg {
				return nil, "algorithm"
			}
		}
		ct, err := parseCert(cb)
		if err != nil {
			return nil, "cert"
		}
		for _, o := range out {
			if bytes.Equal(o.Cert, cb) {
				return nil, "duplicate"
			}
		}
		prev = ct
		out = append(out, impl.Node{Cert: cb, ParentAlg: palg, Alg: alg, Sig: sig, Flags: fl})
	}
	return out, ""
}

func (b *block) cover(lo, hi int32) string {
	s := append([]*signer(nil), b.signers...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].min < s[j].min })
	for i := 1; i < len(s); i++ {
		if int64(s[i].min) != int64(s[i-1].max)+1 {
			return "sdk ranges not contiguous"
		}
	}
	if s[0].min > lo || s[len(s)-1].max < hi {
		return "sdk range not covered"
	}
	return ""
}

func (b *block) lineage() ([]impl.Node, string) {
	s := append([]*signer(nil), b.signers...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].min < s[j].min })
	var longest []impl.Node
	last := 0
	for _, x := range s {
		if x.lineage == nil {
			continue
		}
		if len(x.lineage) < last {
			return nil, "lineage shrinks"
		}
		last = len(x.lineage)
		if len(x.lineage) > len(longest) {
			longest = x.lineage
		}
	}
	for _, x := range s {
		if x.lineage != nil && !impl.SameNodes(x.lineage, longest[:len(x.lineage)]) {
			return nil, "lineages diverge"
		}
	}
	return longest, ""
}

type sigCheck struct {
	pub string
	alg uint32
	d   [32]byte
}

var sigCache sync.Map
var sigCount atomic.Int64

// VerifySig checks a v2 signature algorithm (the pure function is memoised).
func VerifySig(pub any, alg uint32, data, sig []byte) bool {
	spki, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		return verifySig(pub, alg, data, sig)
	}
	k := sigCheck{string(spki), alg, sha256.Sum256(append(append([]byte{}, gen.LE32(uint32(len(data)))...), append(append([]byte{}, data...), sig...)...))}
	if v, ok := sigCache.Load(k); ok {
		return v.(bool)
	}
	v := verifySig(pub, alg, data, sig)
	if sigCount.Add(1) < 500000 {
		sigCache.Store(k, v)
	}
	return v
}

func verifySig(pub any, alg uint32, data, sig []byte) bool {
	var h crypto.Hash
	switch alg {
	case gen.AlgPSS512, gen.AlgRSA512, gen.AlgEC512:
		h = crypto.SHA512
	default:
		h = crypto.SHA256
	}
	hh := h.New()
	hh.Write(data)
	d := hh.Sum(nil)
	switch alg {
	case gen.AlgPSS256, gen.AlgPSS512:
		k, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPSS(k, h, d, sig, &rsa.PSSOptions{SaltLength: h.Size()}) == nil
	case gen.AlgRSA256, gen.AlgRSA512, gen.AlgVRSA256:
		k, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPKCS1v15(k, h, d, sig) == nil
	case gen.AlgEC256, gen.AlgEC512, gen.AlgVEC256:
		k, ok := pub.(*ecdsa.PublicKey)
		r, s := rs(sig)
		return ok && r != nil && ecdsa.Verify(k, d, r, s)
	case gen.AlgDSA256, gen.AlgVDSA256:
		k, ok := pub.(*dsa.PublicKey)
		r, s := rs(sig)
		if !ok || r == nil {
			return false
		}
		n := k.Q.BitLen() / 8
		if n > len(d) {
			n = len(d)
		}
		return dsa.Verify(k, d[:n], r, s)
	}
	return false
}

func rs(sig []byte) (*big.Int, *big.Int) {
	var l []*big.Int
	if _, err := asn1.Unmarshal(sig, &l); err != nil || len(l) < 2 {
		return nil, nil
	}
	return l[0], l[1]
}
