package checks

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// c18Compare compares extraction with verification under unrestricted bounds. newest is the newest scheme with a block
// (1: none), leaves the leaf certificates of each scheme's signers.
func c18Compare(c *mc.Ctx, apk []byte, newest int, leaves map[int][][]byte, comparable bool) impl.Outcome {
	v := impl.Verify(apk, anyMin, anyMax)
	x := impl.Extract(apk)
	c.Trace(2)
	if x.Panic != "" || v.Panic != "" {
		c.Failf("%s %s", x.Panic, v.Panic)
		return x
	}
	c.Note("verify accept=%v scheme %d; extraction %v %s", v.Accept, v.Scheme, x.Accept, x.Err)
	switch {
	case v.Accept && v.Scheme == newest && comparable:
		mc.Outcome(fmt.Sprintf("verified with scheme %d, compared", newest))
	case v.Accept:
		mc.Outcome("verified otherwise")
	default:
		mc.Outcome("not verified")
	}
	if v.Accept && v.Scheme == newest && comparable {
		if !x.Accept {
			c.Failf("verified with scheme %d, but extraction fails: %s", v.Scheme, x.Err)
		} else if !impl.SameChains(v.Certs, x.Certs) {
			c.Failf("extraction returns %s, verification %s", showChains(x.Certs), showChains(v.Certs))
		}
	}
	for _, ch := range x.Certs {
		if len(ch) == 0 {
			c.Failf("empty chain extracted")
			continue
		}
		found := false
		for _, l := range leaves[newest] {
			found = found || bytes.Equal(l, ch[0])
		}
		if !found && leaves != nil {
			c.Failf("extracted a certificate that is not one of the scheme %d signers'", newest)
		}
	}
	if x.Accept && len(x.Certs) == 0 {
		c.Failf("nothing extracted and no error")
	}
	return x
}

// c18Schemes: every combination of present, absent and damaged signatures.
func c18Schemes(c *mc.Ctx) {
	m := multiAPK{app: mc.Pick(c, "app", gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}, gen.ManifestSpec{MinSDK: gen.IV(28)}, gen.ManifestSpec{})}
	m.st[0] = mc.Pick(c, "v1", stAbsent, stValid, stBadSig, stBadDigest)
	m.st[1] = c.Choose("v2", 6)
	m.st[2] = c.Choose("v3", 6)
	m.st[3] = c.Choose("v31", 6)
	if m.st[2] != stAbsent && c.Bool("v3 up to 32") {
		m.v3max = 32
	}
	m.order = c.Choose("order", 2)
	if m.st[1]+m.st[2]+m.st[3] > 0 {
		m.noBlock, m.magic = c.Bool("without the block"), false
		if !m.noBlock {
			m.magic = c.Bool("bad magic")
		}
	}
	apk, _ := m.build()
	c.Label("%s", m)
	c.State(apk)
	newest := 1
	if !m.noBlock && !m.magic {
		for i, s := range []int{2, 3, 31} {
			if m.st[i+1] != stAbsent {
				newest = s
			}
		}
	}
	self := gen.SelfCert
	x := c18Compare(c, apk, newest, map[int][][]byte{1: {self(gen.K("rsa1024-0"))}, 2: {self(gen.EC(2))}, 3: {self(gen.EC(3))}, 31: {self(gen.EC(4))}}, true)
	if newest == 1 && m.st[0] == stAbsent && x.Accept {
		c.Failf("extraction of an unsigned file succeeds")
	}
	if newest > 1 && (m.st[map[int]int{2: 1, 3: 2, 31: 3}[newest]] == stValid) && newest != 31 && (!x.Accept || len(x.Certs) != 1) {
		c.Failf("certificates of a valid scheme %d signature not extracted: %s", newest, x.Err)
	}
}

// c18Blocks: several signers with chains of certificates in blocks of every scheme.
func c18Blocks(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	n := 1 + c.Choose("signers", 3+b2i(c.Deep()))
	sec := tinySec
	var l []gen.SignerSpec
	var leaves [][]byte
	for i := 0; i < n; i++ {
		k := gen.K(mc.Pick(c, "key", "ec256-0", "ec256-1", "rsa1024-0", "dsa1024-0"))
		certs := [][]byte{gen.SelfCert(k)}
		for j := c.Choose("more certificates", 3); j > 0; j-- {
			certs = append(certs, gen.SelfCert(gen.EC(5+j)))
		}
		s := gen.SignerSpec{Key: k, Certs: certs}
		if scheme > 2 {
			lo := uint32(28)
			if scheme == 31 {
				lo = 33
			}
			s.Min, s.Max = ranges(lo, n, i)
		}
		l = append(l, s)
		leaves = append(leaves, certs[0])
	}
	if scheme > 2 && c.Bool("reversed") {
		for i, k := 0, n-1; i < k; i, k = i+1, k-1 {
			l[i], l[k] = l[k], l[i]
		}
	}
	var pairs []gen.Pair
	switch scheme {
	case 2:
		pairs = []gen.Pair{gen.V2(sec, l...)}
	case 3:
		pairs = []gen.Pair{gen.V3(sec, l...), gen.V2(sec, gen.SignerSpec{Key: gen.EC(9)})}
	case 31:
		pairs = []gen.Pair{gen.V31(sec, l...), gen.V3(sec, gen.SignerSpec{Key: gen.EC(8), Min: 28, Max: 32}), gen.V2(sec, gen.SignerSpec{Key: gen.EC(9)})}
	}
	if c.Bool("pairs reversed") {
		for i, k := 0, len(pairs)-1; i < k; i, k = i+1, k-1 {
			pairs[i], pairs[k] = pairs[k], pairs[i]
		}
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	c18Compare(c, apk, scheme, map[int][][]byte{scheme: leaves}, true)
	want := ref.Verdict(apk, 28, anyMax)
	if v := impl.SigBlock(apk, 28, anyMax); want.Accept && !want.Unsure {
		x := impl.Extract(apk)
		if !v.Accept || !x.Accept || !impl.SameChains(x.Certs, want.Certs) {
			c.Failf("extraction returns %s %s, the signers are %s", showChains(x.Certs), x.Err, showChains(want.Certs))
		}
	}
}

// c18Records: deviating signer records; an accepted one is extracted just the same, weaker schemes never.
func c18Records(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	sec := tinySec
	weak2, weak3 := gen.K("ec384-0"), gen.K("ec521-0")
	mk := func(who string, lo uint32, k *gen.Key) gen.SignerSpec {
		s := gen.SignerSpec{Key: k, Min: lo, Max: maxU}
		dg, ce, mi := preSignMuts(k)
		sg, re := postSignMuts(k)
		s.PreSign = func(r *gen.SignerRec) {
			devMut(c, who+" digests", r, dg)
			devMut(c, who+" certificates", r, ce)
			devMut(c, who+" signed data", r, mi)
		}
		s.PostSign = func(r *gen.SignerRec) {
			devMut(c, who+" signatures", r, sg)
			devMut(c, who+" record", r, re)
		}
		return s
	}
	var pairs []gen.Pair
	v2 := gen.V2(sec, gen.SignerSpec{Key: weak2})
	switch scheme {
	case 2:
		pairs = []gen.Pair{gen.V2(sec, mk("signer", 0, gen.EC(0)))}
	case 3:
		pairs = []gen.Pair{gen.V3(sec, mk("signer", 28, gen.EC(0))), v2}
	case 31:
		pairs = []gen.Pair{gen.V31(sec, mk("signer", 33, gen.EC(0))), gen.V3(sec, gen.SignerSpec{Key: weak3, Min: 28, Max: 32}), v2}
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	x := c18Compare(c, apk, scheme, nil, true)
	for _, ch := range x.Certs {
		if len(ch) > 0 && (bytes.Equal(ch[0], gen.SelfCert(weak2)) && scheme > 2 || bytes.Equal(ch[0], gen.SelfCert(weak3)) && scheme > 3) {
			c.Failf("certificate of a weaker scheme extracted")
		}
	}
	want := ref.Verdict(apk, 28, anyMax)
	if want.Accept && !want.Unsure && (!x.Accept || !impl.SameChains(x.Certs, want.Certs)) {
		c.Failf("extraction returns %s %s, the signers are %s", showChains(x.Certs), x.Err, showChains(want.Certs))
	}
}

// c18Cut: a block of two signers cut at every byte cannot be parsed, which is reported.
func c18Cut(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	sec := tinySec
	a, b := gen.SignerSpec{Key: gen.EC(0)}, gen.SignerSpec{Key: gen.EC(1)}
	weak := gen.V2(sec, gen.SignerSpec{Key: gen.EC(9)})
	pairs := []gen.Pair{weak}
	first := 0 // bytes of the first signer, after which the refitted block is complete
	switch scheme {
	case 2:
		pairs = []gen.Pair{gen.V2(sec, a, b)}
		first = len(gen.V2(sec, a).Val)
	case 3:
		a.Min, a.Max, b.Min, b.Max = 28, 30, 31, maxU
		pairs = append(pairs, gen.V3(sec, a, b))
		first = len(gen.V3(sec, a).Val)
	case 31:
		a.Min, a.Max, b.Min, b.Max = 33, 34, 35, maxU
		pairs = append(pairs, gen.V3(sec, gen.SignerSpec{Key: gen.EC(8), Min: 28, Max: 32}), gen.V31(sec, a, b))
		first = len(gen.V31(sec, a).Val)
	}
	p := &pairs[len(pairs)-1]
	n := c.Choose("cut to", len(p.Val))
	p.Val = clone(p.Val[:n])
	if c.Bool("length refitted") {
		if n < 4 || n == first {
			c.Skip()
		}
		binary.LittleEndian.PutUint32(p.Val, uint32(n-4))
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	x := impl.Extract(apk)
	c.Trace(1)
	if x.Panic != "" || x.Accept {
		c.Failf("a scheme %d block cut to %d bytes: extraction returns %s without an error %s", scheme, n, showChains(x.Certs), x.Panic)
	}
}

// c18V1: v1 signature files in every order, with chains, in several directories.
func c18V1(c *mc.Ctx) {
	n := 1 + c.Choose("signature files", 3)
	keys := []*gen.Key{gen.K("rsa1024-0"), gen.EC(0), gen.K("dsa1024-0"), gen.EC(1)}
	z := &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: c08App.AXML()}, {Name: "a", Data: []byte("a")}}}
	var ss []v1Signer
	var leaves [][]byte
	counted := true
	for i := 0; i < n; i++ {
		k := keys[c.Choose("key", len(keys))]
		s := v1Signer{Key: k, Base: fmt.Sprintf("S%d", i), Attrs: (n < 3 || c.Deep()) && c.Bool("signed attributes")}
		leaf := gen.SelfCert(k)
		switch c.Choose("certificates", 6) {
		case 1: // issued by a CA that is in the block
			ca := gen.CertSpec{Serial: big.NewInt(1), Issuer: gen.CN("ca"), Subject: gen.CN("ca"), Key: gen.EC(7)}.DER()
			leaf = gen.CertSpec{Serial: big.NewInt(2), Issuer: gen.CN("ca"), Subject: gen.CN("leaf"), Key: k, SignKey: gen.EC(7)}.DER()
			s.Make = c18P7(k, leaf, s.Attrs, leaf, ca)
		case 2:
			ca := gen.CertSpec{Serial: big.NewInt(1), Issuer: gen.CN("ca"), Subject: gen.CN("ca"), Key: gen.EC(7)}.DER()
			leaf = gen.CertSpec{Serial: big.NewInt(2), Issuer: gen.CN("ca"), Subject: gen.CN("leaf"), Key: k, SignKey: gen.EC(7)}.DER()
			s.Make = c18P7(k, leaf, s.Attrs, ca, leaf)
		case 3: // with strangers
			s.Make = c18P7(k, leaf, s.Attrs, gen.SelfCert(gen.EC(6)), leaf, gen.SelfCert(gen.EC(5)))
		case 4:
			s.Dir = "META-INF/sub/"
		case 5:
			s.SF.NoVersion = true
			counted = false
		}
		leaves = append(leaves, leaf)
		ss = append(ss, s)
	}
	if n == 3 && !c.Deep() {
		if s := ss[0]; s.Attrs || s.Make != nil {
			c.Skip()
		}
	}
	w := signV1(z, nil, "SHA1", ss...)
	if c.Bool("files reversed") {
		e := w.Zip.Entries
		for i, k := 0, len(e)-1; i < k; i, k = i+1, k-1 {
			e[i], e[k] = e[k], e[i]
		}
	}
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	x := c18Compare(c, apk, 1, map[int][][]byte{1: leaves}, counted)
	if len(x.Certs) != n && counted {
		c.Failf("%d of %d signers extracted: %s", len(x.Certs), n, x.Err)
	}
}

// c18P7 makes a block of k with given certificates.
func c18P7(k *gen.Key, leaf []byte, attrs bool, certs ...[]byte) func(sf []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
	return func(sf []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
		so := gen.SignerOf{Key: k, Cert: leaf, Hash: crypto.SHA1, Attrs: attrs}
		return gen.P7Spec{Certs: certs, Signers: []*gen.SI{so.Make(sf)}}.DER(), func(min, max int32) (bool, [][]byte) { return true, [][]byte{leaf} }
	}
}

// c18Content: content changes outside the signatures do not change what is extracted.
func c18Content(c *mc.Ctx) {
	m := multiAPK{app: gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}}
	scheme := mc.Pick(c, "scheme", 1, 2, 3, 31)
	m.st[0] = stValid
	for i := 1; i < 4 && scheme > 1; i++ {
		if []int{1, 2, 3, 31}[i] <= scheme {
			m.st[i] = stValid
		}
	}
	m.v3max = 32
	sec, pairs, _ := m.parts()
	var blk []byte
	if len(pairs) > 0 {
		blk = gen.EncodeBlock(pairs...)
	}
	apk := sec.Assemble(blk)
	was := impl.Extract(apk)
	i := c.Choose("byte", len(apk))
	lo, hi := len(sec.Before), len(sec.Before)+len(blk)
	if i >= lo && i < hi || i >= hi { // signatures, and the directory that locates things
		if i < hi {
			c.Skip()
		}
	}
	name, off := c18Where(sec, i, len(blk))
	if name == "" || len(name) > 8 && name[:8] == "META-INF" && scheme == 1 {
		c.Skip()
	}
	mut := flip(apk, i, byte(1)<<uint(c.Choose("bit", 8)))
	c.State(mut)
	c.Label("byte %d of %s", off, name)
	now := impl.Extract(mut)
	c.Trace(1)
	if now.Panic != "" || now.Accept != was.Accept || !impl.SameChains(now.Certs, was.Certs) {
		c.Failf("changing byte %d of %s changes the extracted certificates: %v %s, before %v %s", off, name, now.Accept, showChains(now.Certs)+now.Err+now.Panic, was.Accept, showChains(was.Certs))
	}
}

// c18Where names the entry whose data holds byte i.
func c18Where(sec gen.Sections, i, blk int) (string, int) {
	b := sec.Before
	for p := 0; p+30 <= len(b) && string(b[p:p+4]) == "PK\x03\x04"; {
		n := int(b[p+26]) | int(b[p+27])<<8
		x := int(b[p+28]) | int(b[p+29])<<8
		l := int(b[p+18]) | int(b[p+19])<<8 | int(b[p+20])<<16
		d := p + 30 + n + x
		if i >= d && i < d+l {
			return string(b[p+30 : p+30+n]), i - d
		}
		p = d + l
	}
	return "", 0
}

func init() {
	register(&Check{
		ID:   "C18",
		Rule: "all APKs of the spaces, extracted without verification and verified with unrestricted SDK bounds; a state is a distinct APK",
		Spaces: []*mc.Space{
			{Name: "schemes", Doc: "4 states of v1 x 6 of v2, v3 and v3.1 x 3 binary manifests x placements", Run: c18Schemes},
			{Name: "blocks", Doc: "1-3 (thorough 4) signers with 1-3 certificates each, in every scheme", Run: c18Blocks},
			{Name: "records", Doc: "all signer records within 2 (thorough 3) deviations of an authentic one", Dev: 2, DevDeep: 3, Run: c18Records},
			{Name: "cut", Doc: "blocks of two signers cut at every byte, the outer length left or refitted", Run: c18Cut},
			{Name: "v1", Doc: "1-3 v1 signature files x 4 keys x 6 kinds of blocks x signed attributes (thorough, or at most 2 files) x order", Run: c18V1},
			{Name: "content", Doc: "every bit of entry data outside the signatures flipped", Run: c18Content},
		},
	})
}
