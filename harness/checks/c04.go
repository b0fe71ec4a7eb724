package checks

import (
	"fmt"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// schemeState is the state of one signature in a multi-scheme APK.
const (
	stAbsent = iota
	stValid
	stBadSig
	stBadDigest
	stGarbage
	stEmpty
)

var stName = []string{"-", "ok", "badsig", "baddigest", "garbage", "nosigners"}

// multiAPK describes an APK with v1 to v3.1 signatures by different keys.
type multiAPK struct {
	st       [4]int // v1, v2, v3, v3.1
	v3max    uint32
	v31min   uint32
	attrMin  *uint32 // rotation-min-sdk attribute of the v3 signer
	strip    []gen.Attr
	apkSig   string // X-Android-APK-Signed
	app      gen.ManifestSpec
	order    int // order of the pairs
	v1keys   []*gen.Key
	prefix   []byte
	v1Alg    string
	rename   [3]uint32 // other pair ids for v2, v3, v3.1
	noBlock  bool
	magic    bool // corrupt the magic
	lineage  []gen.LineageNode
	lineage3 []gen.LineageNode
	v1edit   func(w *v1World)
	sigFiles func(s *v1Signer)
}

func damage(st int) (pre, post func(*gen.SignerRec)) {
	switch st {
	case stBadSig:
		return nil, func(r *gen.SignerRec) { r.Sigs[0].Bytes = flipIn(r.Sigs[0].Bytes, len(r.Sigs[0].Bytes)-1) }
	case stBadDigest:
		return func(r *gen.SignerRec) { r.Digests[0].Bytes = flipIn(r.Digests[0].Bytes, 1) }, nil
	}
	return nil, nil
}

// appOf is the model's view of a binary manifest.
func appOf(m gen.ManifestSpec) ref.App {
	a := ref.App{Min: 1, Target: 0, Sandbox: 1}
	get := func(v *gen.AttrVal, p *int32) {
		if v != nil {
			*p = v.Int
		}
	}
	get(m.Sandbox, &a.Sandbox)
	if !m.NoUsesSdk {
		get(m.MinSDK, &a.Min)
		get(m.TargetSDK, &a.Target)
	}
	return a
}

// build renders the file and its v1 model.
func (m multiAPK) build() ([]byte, *ref.Jar) {
	sec, pairs, j := m.parts()
	if m.noBlock || len(pairs) == 0 {
		return sec.Assemble(nil), j
	}
	blk := gen.EncodeBlock(pairs...)
	if m.magic {
		blk = flip(blk, len(blk)-1, 1)
	}
	return sec.Assemble(blk), j
}

// parts signs without assembling.
func (m multiAPK) parts() (gen.Sections, []gen.Pair, *ref.Jar) {
	z := &gen.Zip{Prefix: m.prefix, Entries: []*gen.Entry{
		{Name: "AndroidManifest.xml", Data: m.app.AXML()},
		{Name: "classes.dex", Data: []byte("dex\n035\x00 code"), Method: 8},
	}}
	var j *ref.Jar
	if m.st[0] != stAbsent {
		var ss []v1Signer
		keys := m.v1keys
		if keys == nil {
			keys = []*gen.Key{gen.K("rsa1024-0")}
		}
		for _, k := range keys {
			s := v1Signer{Key: k, SF: gen.SFOpts{APKSigned: m.apkSig}, Bad: m.st[0] == stBadSig}
			if m.sigFiles != nil {
				m.sigFiles(&s)
			}
			ss = append(ss, s)
		}
		alg := m.v1Alg
		if alg == "" {
			alg = "SHA1"
		}
		w := signV1(z, nil, alg, ss...)
		if m.v1edit != nil {
			m.v1edit(&w)
		}
		if m.st[0] == stBadDigest {
			e := w.Zip.Find("classes.dex")
			e.Data = append(clone(e.Data), '!')
			for i, f := range w.Jar.Entries {
				if f.Name == "classes.dex" {
					w.Jar.Entries[i] = e
				}
			}
		}
		z, j = w.Zip, w.Jar
	}
	sec := z.Build()
	var pairs []gen.Pair
	add := func(i int, id uint32, key *gen.Key, min, max uint32, attrs []gen.Attr) {
		st := m.st[i]
		if st == stAbsent {
			return
		}
		if m.rename[i-1] != 0 {
			id = m.rename[i-1]
		}
		var val []byte
		switch st {
		case stGarbage:
			val = []byte{1, 2, 3}
		case stEmpty:
			val = gen.LE32(0)
		default:
			pre, post := damage(st)
			val = gen.SchemeBlock(gen.SignerSpec{Key: key, Min: min, Max: max, Attrs: attrs, PreSign: pre, PostSign: post}.Build(sec, i > 1))
		}
		pairs = append(pairs, gen.Pair{ID: id, Val: val})
	}
	v3max, v31min := m.v3max, m.v31min
	if v3max == 0 {
		v3max = 0x7fffffff
	}
	if v31min == 0 {
		v31min = 33
	}
	var a3, a31 []gen.Attr
	if m.attrMin != nil {
		a3 = append(a3, gen.Attr{ID: gen.AttrRotMinSDK, Val: gen.LE32(*m.attrMin)})
	}
	k3, k31 := gen.EC(3), gen.EC(4)
	if m.lineage3 != nil {
		a3 = append(a3, gen.RotAttr(m.lineage3))
	}
	if m.lineage != nil {
		a31 = append(a31, gen.RotAttr(m.lineage))
	}
	add(1, gen.IDV2, gen.EC(2), 0, 0, m.strip)
	add(2, gen.IDV3, k3, 28, v3max, a3)
	add(3, gen.IDV31, k31, v31min, 0x7fffffff, a31)
	if m.order == 1 {
		for i, k := 0, len(pairs)-1; i < k; i, k = i+1, k-1 {
			pairs[i], pairs[k] = pairs[k], pairs[i]
		}
	}
	return sec, pairs, j
}

func (m multiAPK) String() string {
	return fmt.Sprintf("v1=%s v2=%s v3=%s(..%d) v31=%s", stName[m.st[0]], stName[m.st[1]], stName[m.st[2]], m.v3max, stName[m.st[3]])
}

var sdkMins = []int32{-1, 1, 17, 18, 23, 24, 27, 28, 29, 32, 33, 34}
var sdkMaxs = []int32{17, 18, 23, 24, 26, 27, 28, 32, 33, 34, anyMax}

func c04Run(c *mc.Ctx, m multiAPK, states int) {
	apk, j := m.build()
	min := mc.Pick(c, "min", sdkMins...)
	max := mc.Pick(c, "max", sdkMaxs...)
	c.Label("%s sdk <%d;%d>", m, min, max)
	c.State(apk, []byte(fmt.Sprint(min, max)))
	want, o := judgeFull(c, apk, j, appOf(m.app), min, max)
	// a broken attempt must not leave certificates behind
	if o.Accept && want.Accept {
		for _, ch := range o.Certs {
			for i, st := range m.st {
				k := []*gen.Key{gen.K("rsa1024-0"), gen.EC(2), gen.EC(3), gen.EC(4)}[i]
				if st != stValid && len(ch) > 0 && string(ch[0]) == string(gen.SelfCert(k)) && !(i == 0) {
					c.Failf("certificate of the %s signature reported as signer", stName[st])
				}
			}
		}
	}
}

func c04Matrix(c *mc.Ctx) {
	m := multiAPK{app: gen.ManifestSpec{MinSDK: gen.IV(24), TargetSDK: gen.IV(28)}}
	m.st[0] = c.Choose("v1", 4)
	m.st[1] = c.Choose("v2", 4)
	m.st[2] = c.Choose("v3", 4)
	m.st[3] = c.Choose("v31", 4)
	if m.st[2] != stAbsent && c.Bool("v3 up to 32") {
		m.v3max = 32
	}
	c04Run(c, m, 4)
}

// c04Apps varies the manifest minimum, the state kinds and the order of pairs.
func c04Apps(c *mc.Ctx) {
	m := multiAPK{}
	m.app = mc.Pick(c, "app", gen.ManifestSpec{}, gen.ManifestSpec{MinSDK: gen.IV(21)}, gen.ManifestSpec{MinSDK: gen.IV(27), TargetSDK: gen.IV(29)}, gen.ManifestSpec{MinSDK: gen.IV(33)}, gen.ManifestSpec{NoUsesSdk: true})
	sts := []int{stAbsent, stValid, stGarbage, stEmpty}
	m.st[0] = mc.Pick(c, "v1", stAbsent, stValid)
	m.st[1] = mc.Pick(c, "v2", sts...)
	m.st[2] = mc.Pick(c, "v3", sts...)
	m.st[3] = mc.Pick(c, "v31", sts...)
	m.v3max = 32
	m.order = c.Choose("order", 2)
	apk, j := m.build()
	min := mc.Pick(c, "min", -1, 1, 24, 28, 33)
	max := mc.Pick(c, "max", 23, 27, 28, 33, anyMax)
	c.Label("%s sdk <%d;%d>", m, min, max)
	c.State(apk, []byte(fmt.Sprint(min, max)))
	judgeFull(c, apk, j, appOf(m.app), int32(min), int32(max))
}

// c04Twice has several pairs of the same scheme: Android takes the first.
func c04Twice(c *mc.Ctx) {
	sec := tinySec
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	mk := func(st int, k *gen.Key) []byte {
		pre, post := damage(st)
		mn, mx := uint32(28), uint32(0x7fffffff)
		if scheme == 31 {
			mn = 33
		}
		return gen.SchemeBlock(gen.SignerSpec{Key: k, Min: mn, Max: mx, PreSign: pre, PostSign: post}.Build(sec, scheme != 2))
	}
	id := map[int]uint32{2: gen.IDV2, 3: gen.IDV3, 31: gen.IDV31}[scheme]
	n := 2 + c.Choose("count", 2)
	var pairs []gen.Pair
	for i := 0; i < n; i++ {
		st := mc.Pick(c, "state", stValid, stBadSig, stBadDigest, stGarbage)
		if st == stGarbage {
			pairs = append(pairs, gen.Pair{ID: id, Val: []byte{7}})
		} else {
			pairs = append(pairs, gen.Pair{ID: id, Val: mk(st, gen.EC(2+i))})
		}
	}
	if scheme == 31 {
		pairs = append(pairs, gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: 32}))
	}
	if c.Bool("v2 below") && scheme != 2 {
		pairs = append(pairs, gen.V2(sec, gen.SignerSpec{Key: gen.EC(1)}))
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	min := mc.Pick(c, "min", int32(24), 28, 33)
	max := mc.Pick(c, "max", int32(27), 32, anyMax)
	c.State(apk, []byte(fmt.Sprint(min, max)))
	if min > max {
		c.Skip()
	}
	judge(c, apk, min, max)
}

// c04Signers has several signers per scheme so that leftovers of a failed attempt are visible.
func c04Signers(c *mc.Ctx) {
	sec := tinySec
	n3 := 1 + c.Choose("v3 signers", 3)
	bad := c.Choose("bad v3 signer", n3+1)
	how := mc.Pick(c, "how", stBadSig, stBadDigest)
	lin := c.Bool("lineage")
	n2 := 1 + c.Choose("v2 signers", 2)
	bad2 := c.Choose("bad v2 signer", n2+1)
	with31 := c.Choose("v31", 3)
	var l3, l2 [][]byte
	lineage := gen.MakeLineage(gen.EC(7), gen.EC(8), gen.EC(3))
	for i := 0; i < n3; i++ {
		mn, mx := ranges(28, n3, i)
		if with31 > 0 && i == n3-1 {
			mx = 40
		}
		s := gen.SignerSpec{Key: gen.EC(3 + i), Min: mn, Max: mx}
		if lin && i == 0 {
			s.Attrs = []gen.Attr{gen.RotAttr(lineage)}
		}
		if bad == i+1 {
			s.PreSign, s.PostSign = damage(how)
		}
		l3 = append(l3, s.Build(sec, true))
	}
	for i := 0; i < n2; i++ {
		s := gen.SignerSpec{Key: gen.EC(i)}
		if bad2 == i+1 {
			s.PreSign, s.PostSign = damage(stBadSig)
		}
		l2 = append(l2, s.Build(sec, false))
	}
	pairs := []gen.Pair{{ID: gen.IDV2, Val: gen.SchemeBlock(l2...)}, {ID: gen.IDV3, Val: gen.SchemeBlock(l3...)}}
	if with31 > 0 {
		s := gen.SignerSpec{Key: gen.EC(9), Min: 41, Max: 0x7fffffff}
		if with31 == 2 {
			s.PreSign, s.PostSign = damage(how)
		}
		pairs = append(pairs, gen.V31(sec, s))
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	min := mc.Pick(c, "min", int32(24), 27, 28, 34)
	max := mc.Pick(c, "max", int32(24), 27, 28, 30, 33, 41, anyMax)
	if min > max {
		c.Skip()
	}
	c.State(apk, []byte(fmt.Sprint(min, max)))
	judge(c, apk, min, max)
	// the lower-level entry point with every minimum
	o := impl.SigBlock(apk, 1, max)
	compareBlock(c, ref.Verdict(apk, 1, max), o, fmt.Sprintf("sdk <1;%d>", max))
	c.Trace(1)
}

func init() {
	register(&Check{
		ID:   "C04",
		Rule: "every combination of signature states over v1, v2, v3 and v3.1 x the SDK grid; a state is a distinct (file, SDK range)",
		Spaces: []*mc.Space{
			{Name: "matrix", Doc: "{absent, valid, bad signature, bad digest}^4 x v3 range x 12x11 SDK ranges", Run: c04Matrix},
			{Name: "apps", Doc: "manifest minima x {absent, valid, garbage, no signers}^3 x pair order x SDK ranges", Run: c04Apps},
			{Name: "twice", Doc: "2-3 pairs of the same scheme id in every state", Run: c04Twice},
			{Name: "signers", Doc: "multi-signer v2/v3/v3.1 with one bad signer: fallback leaves nothing behind", Run: c04Signers},
		},
	})
}
