package ref

import (
	"bytes"
	"crypto/sha256"
	"math"
	"sort"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
)

// StampFiles are the archive entries a stamp depends on.
type StampFiles struct {
	CertFile []byte // stamp-cert-sha256, nil: absent
	Bad      bool   // it cannot be read
	Manifest []byte // META-INF/MANIFEST.MF
}

// StampRes is the model's stamp result.
type StampRes struct {
	Clean    bool
	Cert     []byte
	Time     int64
	HasTime  bool
	Lineage  []impl.Node
	Why      string
	Unsure   bool
	AnyCert  bool // the standard parser refuses the certificate
	Warnings bool
}

// Stamp judges the source stamp of an accepted APK. nil: there is none.
func Stamp(b *Res, scheme int, f StampFiles, min, max int32) *StampRes {
	r := &StampRes{}
	bad := func(why string) *StampRes {
		r.Clean, r.Why = false, why
		return r
	}
	if b.Stamp == nil {
		if f.CertFile != nil {
			return bad("no stamp block")
		}
		return nil
	}
	v := cur(b.Stamp)
	c, err := v.lp()
	if err != nil {
		return bad("block")
	}
	cert, err := c.lp()
	if err != nil {
		return bad("certificate")
	}
	ct, err := parseCert(cert)
	if err != nil {
		h := sha256.Sum256(cert)
		if f.CertFile == nil || !f.Bad && len(f.CertFile) < 64*1024 && bytes.Equal(h[:], f.CertFile) {
			r.Unsure = true
		}
		r.AnyCert = true
		return bad("certificate")
	}
	r.Cert = cert
	if f.CertFile == nil {
		r.Clean, r.Warnings = true, true
		return r
	}
	if f.Bad || len(f.CertFile) >= 64*1024 {
		return bad("certificate file")
	}
	if h := sha256.Sum256(cert); !bytes.Equal(h[:], f.CertFile) {
		return bad("certificate mismatch")
	}
	schemes, err := c.lp()
	if err != nil {
		return bad("schemes")
	}
	if scheme == 31 {
		scheme = 3
	}
	var sigs cur
	found := false
	for len(schemes) > 0 {
		s, err := schemes.lp()
		if err != nil {
			return bad("scheme record")
		}
		id, e1 := s.u32()
		l, e2 := s.lp()
		if e1 != nil || e2 != nil {
			return bad("scheme fields")
		}
		if id == uint32(scheme) {
			sigs, found = l, true
		}
	}
	if !found {
		return bad("scheme not signed")
	}
	dig := map[int][]byte{}
	for k, d := range b.Digests {
		dig[k] = d
	}
	if scheme == 1 {
		h := sha256.Sum256(f.Manifest)
		dig = map[int][]byte{4: h[:]}
		if f.Manifest == nil {
			dig[4] = nil
		}
	}
	if why := stampSigs(gen.StampDigest(dig), ct.PublicKey, sigs, min, max); why != "" {
		return bad("digest signature: " + why)
	}
	r.Clean = true
	if len(c) == 0 {
		return r
	}
	data, e1 := c.lp()
	asigs, e2 := c.lp()
	if e1 != nil || e2 != nil {
		return bad("attribute parts")
	}
	if why := stampSigs(data, ct.PublicKey, asigs, min, max); why != "" {
		return bad("attribute signature: " + why)
	}
	attrs, err := data.lp()
	if err != nil {
		return bad("attributes")
	}
	for len(attrs) > 0 {
		a, err := attrs.lp()
		if err != nil {
			return bad("attribute")
		}
		id, err := a.u32()
		if err != nil {
			return bad("attribute id")
		}
		switch id {
		case gen.StampAttrPoR:
			lin, why := Lineage(a)
			if why != "" || len(lin) == 0 {
				return bad("lineage " + why)
			}
			if !bytes.Equal(lin[len(lin)-1].Cert, cert) {
				return bad("lineage end")
			}
			r.Lineage = lin
		case gen.StampAttrTime:
			if len(a) < 8 {
				return bad("time")
			}
			lo, _ := a.u32()
			hi, _ := a.u32()
			if t := int64(uint64(hi)<<32 | uint64(lo)); t > 0 {
				r.Time, r.HasTime = t, true
			} else {
				bad("time")
			}
		default:
			r.Warnings = true
		}
	}
	return r
}

// stampSigs verifies the signatures a platform of the range would pick.
func stampSigs(data []byte, pub any, sigs cur, min, max int32) string {
	type sig struct {
		alg   uint32
		bytes []byte
	}
	var list []sig
	for len(sigs) > 0 {
		s, err := sigs.lp()
		if err != nil {
			return "record"
		}
		a, err := s.u32()
		if err != nil {
			return "algorithm"
		}
		if gen.DigestKind(a) == 0 {
			continue
		}
		b, err := s.lp()
		if err != nil {
			return "bytes"
		}
		dup := false
		for i := range list {
			if list[i].alg == a {
				list[i].bytes, dup = b, true
			}
		}
		if !dup {
			list = append(list, sig{a, b})
		}
	}
	best := map[int32]sig{}
	for _, s := range list {
		m := StampMin(s.alg)
		if m > max {
			continue
		}
		if o, ok := best[m]; !ok || rank(gen.DigestKind(s.alg)) > rank(gen.DigestKind(o.alg)) {
			best[m] = s
		}
	}
	var levels []int
	for m := range best {
		levels = append(levels, int(m))
	}
	sort.Ints(levels)
	if len(levels) == 0 || int32(levels[0]) > min {
		return "no usable algorithm"
	}
	for _, m := range levels {
		s := best[int32(m)]
		if !VerifySig(pub, s.alg, data, s.bytes) {
			return "wrong"
		}
	}
	return ""
}

// StampMin is the first Android version that supports an algorithm in the platform crypto API.
func StampMin(alg uint32) int32 {
	switch alg {
	case gen.AlgPSS256, gen.AlgPSS512:
		return 23
	case gen.AlgEC256, gen.AlgEC512, gen.AlgVEC256:
		return 11
	case gen.AlgRSA256, gen.AlgRSA512, gen.AlgVRSA256, gen.AlgDSA256, gen.AlgVDSA256:
		return 1
	}
	return math.MaxInt32
}
