package checks

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

var c15App = gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}

// stampCfg says how the APK itself is signed.
type stampCfg struct {
	name             string
	v1, v2, v3, v31  bool
	v2algs           [][]uint32 // one signer each
	badV3            bool
	v3max            uint32
	badV1            bool
	noManifestInMeta bool
}

var stampCfgs = []stampCfg{
	{name: "v1", v1: true},
	{name: "v2", v2: true},
	{name: "v3", v3: true},
	{name: "v3.1", v3: true, v31: true, v3max: 32},
	{name: "v1+v2+v3", v1: true, v2: true, v3: true},
	{name: "v2 two digests", v2: true, v2algs: [][]uint32{{gen.AlgEC256}, {gen.AlgEC512}, {gen.AlgVEC256}}},
	{name: "v1+v2+v3+v3.1", v1: true, v2: true, v3: true, v31: true, v3max: 32},
	{name: "v2, broken v3", v1: true, v2: true, v3: true, badV3: true},
}

// stampBase is a signed APK waiting for its stamp.
type stampBase struct {
	sec   gen.Sections
	pairs []gen.Pair
	jar   *ref.Jar
	files ref.StampFiles
	over  map[uint32][]byte // what a stamp signs for each scheme
}

type stampBaseKey struct {
	cfg  int
	file string
	none bool
}

var stampBases = newCache[stampBaseKey, *stampBase]()

func c15Base(cfg int, file []byte) *stampBase {
	return stampBases.get(stampBaseKey{cfg, string(file), file == nil}, func() *stampBase {
		s := stampCfgs[cfg]
		z := &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: c15App.AXML()}, {Name: "classes.dex", Data: []byte("code"), Method: 8}}}
		b := &stampBase{over: map[uint32][]byte{}}
		if file != nil {
			z.Entries = append(z.Entries, &gen.Entry{Name: gen.StampEntry, Data: file})
			b.files.CertFile = file
		}
		if s.v1 {
			w := signV1(z, nil, "SHA1", v1Signer{Key: gen.K("rsa1024-0"), Bad: s.badV1})
			z, b.jar = w.Zip, w.Jar
			b.files.Manifest = w.Jar.Manifest.Raw
		}
		if s.v2algs != nil { // the verity digest wants an aligned block
			z = z.Clone()
			z.Align = 4096
		}
		b.sec = z.Build()
		h := sha256.Sum256(b.files.Manifest)
		b.over[1] = gen.StampDigest(map[int][]byte{4: h[:]})
		if !s.v1 {
			b.over[1] = gen.StampDigest(map[int][]byte{4: nil})
		}
		add := func(id, scheme uint32, v3 bool, l ...gen.SignerSpec) {
			var recs [][]byte
			d := map[int][]byte{}
			for _, x := range l {
				recs = append(recs, x.Build(b.sec, v3))
				for _, a := range x.Algs {
					d[gen.DigestKind(a)] = b.sec.Digest(gen.DigestKind(a))
				}
			}
			b.pairs = append(b.pairs, gen.Pair{ID: id, Val: gen.SchemeBlock(recs...)})
			b.over[scheme] = gen.StampDigest(d)
		}
		if s.v2 {
			algs := s.v2algs
			if algs == nil {
				algs = [][]uint32{{gen.AlgEC256}}
			}
			var l []gen.SignerSpec
			for i, a := range algs {
				l = append(l, gen.SignerSpec{Key: gen.EC(2 + i), Algs: a})
			}
			add(gen.IDV2, 2, false, l...)
		}
		if s.v3 {
			mx := s.v3max
			if mx == 0 {
				mx = maxU
			}
			sp := gen.SignerSpec{Key: gen.EC(5), Algs: []uint32{gen.AlgEC512}, Min: 28, Max: mx}
			if s.badV3 {
				_, sp.PostSign = damage(stBadSig)
			}
			add(gen.IDV3, 3, true, sp)
		}
		if s.v31 {
			add(gen.IDV31, 31, true, gen.SignerSpec{Key: gen.EC(6), Algs: []uint32{gen.AlgEC256}, Min: 33, Max: maxU})
		}
		return b
	})
}

var c15Ranges = [][2]int32{{28, anyMax}, {1, 17}, {1, 22}, {23, 23}, {24, 27}, {11, 28}, {28, 32}, {33, anyMax}, {-1, anyMax}, {1, anyMax}, {24, anyMax}}

// c15Judge compares verdict and stamp.
func c15Judge(c *mc.Ctx, b *stampBase, pairs []gen.Pair, min, max int32) {
	apk := b.sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk, []byte(fmt.Sprint(min, max)))
	want, o := judgeFull(c, apk, b.jar, appOf(c15App), min, max)
	if !want.Accept || !o.Accept || want.Unsure {
		return
	}
	compareStamp(c, ref.Stamp(want.Block, want.Scheme, b.files, want.Min, max), o.Stamp, fmt.Sprintf("sdk <%d;%d>", min, max))
}

func compareStamp(c *mc.Ctx, want *ref.StampRes, got *impl.Stamp, where string) {
	switch {
	case want == nil:
		mc.Outcome("stamp: absent")
	case want.Unsure:
		mc.Outcome("stamp: not judged")
	case want.Clean:
		mc.Outcome("stamp: clean")
	default:
		mc.Outcome("stamp: not clean")
	}
	switch {
	case want == nil:
		if got != nil {
			c.Failf("%s: stamp reported (%s), there is none", where, got.Err)
		}
	case want.Unsure:
	case got == nil:
		c.Failf("%s: stamp not reported (%s)", where, want.Why)
	case got.Clean != want.Clean:
		c.Failf("%s: stamp clean=%v (%s), must be %v (%s)", where, got.Clean, got.Err, want.Clean, want.Why)
	case !want.AnyCert && !bytes.Equal(got.Cert, want.Cert):
		c.Failf("%s: wrong stamp certificate", where)
	case want.Clean && (got.HasTime != want.HasTime || got.Time != want.Time):
		c.Failf("%s: stamp time %v %d, must be %v %d", where, got.HasTime, got.Time, want.HasTime, want.Time)
	case want.Clean && !impl.SameNodes(got.Lineage, want.Lineage):
		c.Failf("%s: stamp lineage of %d nodes, must have %d", where, len(got.Lineage), len(want.Lineage))
	}
	if want != nil {
		c.Note("%s: stamp clean=%v %s", where, want.Clean, want.Why)
	}
}

func timeAttr(t uint64) gen.Attr { return gen.Attr{ID: gen.StampAttrTime, Val: gen.LE64(t)} }

func sha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// c15Records: up to two (thorough three) deviations from a correct stamp for every way of signing the APK.
func c15Records(c *mc.Ctx) {
	cfg := c.Choose("signed with", len(stampCfgs))
	c.Label("%s", stampCfgs[cfg].name)
	r := c15Ranges[c.Choose("range", len(c15Ranges))]
	key := gen.EC(8)
	cert := gen.SelfCert(key)
	other := gen.SelfCert(gen.EC(9))
	resigned := gen.CertSpec{Serial: big.NewInt(815), Issuer: gen.CN("x"), Subject: gen.CN("x"), Key: key}.DER()
	signKey := key
	switch c.Dev("stamp certificate", 6) {
	case 1:
		cert = resigned
	case 2:
		cert = other
	case 3:
		cert = []byte{}
	case 4:
		cert = append(clone(cert), 0)
	case 5:
		cert = cert[:len(cert)-1]
	}
	file := sha(cert)
	switch c.Dev("stamp file", 9) {
	case 1:
		file = nil
	case 2:
		file = sha(other)
	case 3:
		file = []byte{}
	case 4:
		file = append(file, 0)
	case 5:
		file = file[:31]
	case 6:
		file = flip(file, 31, 1)
	case 7:
		file = flip(file, 0, 0x80)
	case 8:
		file = append(file, make([]byte, 65536)...)
	}
	b := c15Base(cfg, file)
	over := map[uint32][]byte{}
	var order []uint32
	for _, id := range []uint32{1, 2, 3, 31} {
		if d := b.over[id]; d != nil {
			over[id] = d
			order = append(order, id)
		}
	}
	switch c.Dev("schemes", 7) {
	case 1: // only the weakest
		order = order[:1]
	case 2: // without the weakest
		order = order[1:]
	case 3:
		order = nil
	case 4: // without v3
		var n []uint32
		for _, id := range order {
			if id != 3 {
				n = append(n, id)
			}
		}
		order = n
	case 5:
		for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
			order[i], order[k] = order[k], order[i]
		}
	case 6:
		order = append(order, 0, 0xffffffff)
	}
	if k := c.Dev("digest of", 6); k > 0 {
		for _, id := range order {
			switch k {
			case 1: // of another scheme
				over[id] = b.over[1]
			case 2:
				over[id] = flipIn(over[id], -1)
			case 3:
				over[id] = nil
			case 4: // every digest kind
				d := map[int][]byte{}
				for _, a := range []int{1, 2, 3} {
					d[a] = b.sec.Digest(a)
				}
				over[id] = gen.StampDigest(d)
			case 5: // framed once more
				over[id] = gen.LP(over[id])
			}
		}
	}
	switch c.Dev("stamp key", 3) {
	case 1:
		signKey = gen.EC(9)
	case 2:
		signKey = gen.K("rsa2048-0")
	}
	var attrs []gen.Attr
	with := true
	switch c.Dev("attributes", 6) {
	case 0:
		attrs = []gen.Attr{timeAttr(1600000000)}
	case 1:
		with = false
	case 2:
	case 3:
		attrs = []gen.Attr{timeAttr(0)}
	case 4:
		attrs = []gen.Attr{timeAttr(5), {ID: gen.StampAttrPoR, Val: encLineage(1, honest(gen.EC(7), key), nil)}}
	case 5:
		attrs = []gen.Attr{{ID: 0x1234, Val: []byte("?")}, timeAttr(1 << 40)}
	}
	rec := gen.StampSpec{Key: signKey, Cert: cert, Over: over, Order: order, Attrs: attrs, With: with}.Rec()
	for i := range rec.Schemes {
		s := &rec.Schemes[i]
		switch c.Dev("signatures of a scheme", 7) {
		case 1:
			s.Sigs[0].Bytes = flipIn(s.Sigs[0].Bytes, -1)
		case 2:
			s.Sigs = nil
		case 3:
			s.Sigs[0].Alg = gen.AlgUnknown
		case 4:
			s.Sigs[0].Alg = gen.AlgEC512
		case 5: // the wrong one first
			s.Sigs = append([]gen.AlgBytes{{Alg: s.Sigs[0].Alg, Bytes: []byte("x")}}, s.Sigs...)
		case 6: // the wrong one last
			s.Sigs = append(s.Sigs, gen.AlgBytes{Alg: s.Sigs[0].Alg, Bytes: []byte("x")})
		}
	}
	switch c.Dev("attribute signature", 6) {
	case 1:
		if len(rec.AttrSigs) > 0 {
			rec.AttrSigs[0].Bytes = flipIn(rec.AttrSigs[0].Bytes, -1)
		}
	case 2:
		rec.AttrSigs = nil
	case 3:
		if len(rec.AttrData) > 0 {
			rec.AttrData = flip(rec.AttrData, len(rec.AttrData)-1, 0x10)
		}
	case 4: // that of the digests
		if len(rec.Schemes) > 0 {
			rec.AttrSigs = rec.Schemes[0].Sigs
		}
	case 5: // the attributes of somebody else
		rec.AttrSigs = gen.StampSpec{Key: gen.EC(9), Over: over, Order: order, Attrs: attrs, With: true}.Rec().AttrSigs
	}
	switch c.Dev("scheme twice", 3) {
	case 1: // a wrong one after the right one
		if n := len(rec.Schemes); n > 0 {
			rec.Schemes = append(rec.Schemes, gen.StampScheme{ID: rec.Schemes[n-1].ID, Sigs: []gen.AlgBytes{{Alg: gen.AlgEC256, Bytes: []byte("x")}}})
		}
	case 2:
		if n := len(rec.Schemes); n > 0 {
			rec.Schemes = append([]gen.StampScheme{{ID: rec.Schemes[n-1].ID, Sigs: []gen.AlgBytes{{Alg: gen.AlgEC256, Bytes: []byte("x")}}}}, rec.Schemes...)
		}
	}
	rec.Tail = mc.DevPick(c, "tail", []byte(nil), []byte{1}, make([]byte, 8))
	pairs := append(append([]gen.Pair(nil), b.pairs...), rec.Pair())
	switch c.Dev("place of the stamp", 6) {
	case 1:
		pairs = append([]gen.Pair{rec.Pair()}, b.pairs...)
	case 2:
		pairs = b.pairs
	case 3:
		pairs[len(pairs)-1].ID = gen.IDStampV1
	case 4: // another one first
		pairs = append([]gen.Pair{{ID: gen.IDStampV2, Val: []byte("x")}}, pairs...)
	case 5:
		pairs = append(pairs, gen.Pair{ID: gen.IDStampV2, Val: []byte("x")})
	}
	c15Judge(c, b, pairs, r[0], r[1])
	if c.Spent() == 0 && r == c15Ranges[10] && cfg != 0 && cfg != 7 { // the space is not empty: the honest stamp is there
		if o := impl.Verify(b.sec.Assemble(gen.EncodeBlock(pairs...)), r[0], r[1]); !o.Accept || o.Stamp == nil || !o.Stamp.Clean || !o.Stamp.HasTime {
			c.Failf("honest stamp: accepted=%v %s, stamp %+v", o.Accept, o.Err, o.Stamp)
		}
	}
}

// c15Algs: sets of signature algorithms, the usable ones of which depend on the SDK range.
func c15Algs(c *mc.Ctx) {
	key := gen.K(mc.Pick(c, "key", "rsa2048-0", "ec256-8", "dsa1024-0"))
	var fit []uint32
	for _, a := range gen.AllAlgs {
		if gen.AlgFits(key, a) {
			fit = append(fit, a)
		}
	}
	fit = append(fit, gen.AlgUnknown)
	if !key.IsRSA() {
		fit = append(fit, gen.AlgRSA256)
	} else {
		fit = append(fit, gen.AlgEC256)
	}
	r := [][2]int32{{1, 10}, {1, 22}, {10, 22}, {11, 22}, {1, 23}, {22, anyMax}, {11, 23}, {23, 23}, {24, anyMax}, {28, anyMax}}[c.Choose("range", 10)]
	n := 1 + c.Choose("signatures", 3)
	b := c15Base(4, sha(gen.SelfCert(key)))
	inAttrs := c.Bool("on the attributes")
	rec := gen.StampSpec{Key: key, Over: b.over, Attrs: []gen.Attr{timeAttr(77)}}.Rec()
	type sg struct {
		alg uint32
		bad bool
	}
	var l []sg
	for i := 0; i < n; i++ {
		a := fit[c.Choose("algorithm", len(fit))]
		l = append(l, sg{a, c.Bool("wrong")})
	}
	mk := func(data []byte) []gen.AlgBytes {
		var out []gen.AlgBytes
		for _, s := range l {
			x := gen.AlgBytes{Alg: s.alg, Bytes: []byte("x")}
			if gen.AlgFits(key, s.alg) {
				x.Bytes = key.SignAlg(s.alg, data)
			}
			if s.bad {
				x.Bytes = flipIn(x.Bytes, -1)
			}
			out = append(out, x)
		}
		return out
	}
	if inAttrs {
		rec.AttrSigs = mk(rec.AttrData)
		all := gen.StampSpec{Key: key, Algs: fit[:1], Over: b.over}
		if key.IsRSA() {
			all.Algs = []uint32{gen.AlgRSA256}
		}
		rec.Schemes = all.Rec().Schemes
	} else {
		for i := range rec.Schemes {
			rec.Schemes[i].Sigs = mk(b.over[rec.Schemes[i].ID])
		}
		rec.AttrData, rec.HasAttrs = nil, false
	}
	c15Judge(c, b, append(append([]gen.Pair(nil), b.pairs...), rec.Pair()), r[0], r[1])
}

// c15Attrs: all sequences of attributes.
func c15Attrs(c *mc.Ctx) {
	key := gen.EC(8)
	lin := func(ks ...*gen.Key) gen.Attr {
		return gen.Attr{ID: gen.StampAttrPoR, Val: encLineage(1, honest(ks...), nil)}
	}
	pool := []gen.Attr{timeAttr(1), timeAttr(1 << 62), timeAttr(0), timeAttr(1 << 63), timeAttr(^uint64(0)), {ID: gen.StampAttrTime, Val: gen.LE32(7)}, {ID: gen.StampAttrTime, Val: append(gen.LE64(9), 1)}, {ID: gen.StampAttrTime},
		lin(gen.EC(7), key), lin(key), lin(gen.EC(6), gen.EC(7), key), lin(gen.EC(7)), lin(key, gen.EC(7)), {ID: gen.StampAttrPoR}, {ID: gen.StampAttrPoR, Val: gen.LE32(1)}, {ID: gen.StampAttrPoR, Val: gen.LE32(2)},
		{ID: 0}, {ID: gen.AttrRotation, Val: []byte("x")}}
	n := c.Choose("attributes", 4)
	if n == 3 && !c.Deep() {
		pool = []gen.Attr{pool[0], pool[1], pool[2], pool[8], pool[10], pool[16]}
	}
	var attrs []gen.Attr
	for i := 0; i < n; i++ {
		attrs = append(attrs, pool[c.Choose("attribute", len(pool))])
	}
	cfg := mc.Pick(c, "signed with", 1, 3)
	b := c15Base(cfg, sha(gen.SelfCert(key)))
	s := gen.StampSpec{Key: key, Over: b.over, Attrs: attrs, With: true}
	rec := s.Rec()
	resign := func(d []byte) {
		rec.AttrData = d
		rec.AttrSigs = []gen.AlgBytes{{Alg: gen.AlgEC256, Bytes: key.SignAlg(gen.AlgEC256, d)}}
	}
	switch d := rec.AttrData; c.Choose("framing", 7) {
	case 1:
		resign(append(clone(d), 1, 2))
	case 2:
		resign(nil)
	case 3:
		resign(d[:len(d)-1])
	case 4:
		resign(gen.Cat(gen.LE32(uint32(len(d))), d[4:]))
	case 5:
		resign(gen.LP(append(clone(d[4:]), 0)))
	case 6:
		resign(gen.LP(append(clone(d[4:]), gen.LP([]byte{1, 2, 3})...)))
	}
	c15Judge(c, b, append(append([]gen.Pair(nil), b.pairs...), rec.Pair()), 28, anyMax)
}

// c15Lineage: deviations from an authentic stamp lineage.
func c15Lineage(c *mc.Ctx) {
	n := 1 + c.Choose("nodes", 3)
	if c.Deep() {
		c.Budget(3)
	}
	keys := []*gen.Key{gen.EC(6), gen.EC(7), gen.EC(8)}[:n]
	ns := honest(keys...)
	key := keys[n-1]
	switch c.Dev("stamp key is", 3) {
	case 1:
		key = keys[0]
	case 2:
		key = gen.EC(9)
	}
	version := mc.DevPick(c, "version", uint32(1), 0, 2, 0x80000001)
	tail := mc.DevPick(c, "tail", []byte(nil), []byte{0}, []byte{0, 0, 0, 0}, []byte{1, 0, 0, 0})
	for i := 0; i < n; i++ {
		if k := c.Dev("node", len(lmuts)+1); k > 0 {
			lmuts[k-1].f(ns, i)
			c.Label("node %d: %s", i, lmuts[k-1].name)
		}
	}
	b := c15Base(1, sha(gen.SelfCert(key)))
	rec := gen.StampSpec{Key: key, Over: b.over, Attrs: []gen.Attr{{ID: gen.StampAttrPoR, Val: encLineage(version, ns, tail)}, timeAttr(3)}}.Rec()
	c15Judge(c, b, append(append([]gen.Pair(nil), b.pairs...), rec.Pair()), 28, anyMax)
}

// c15Walks: honestly signed stamp lineages over every sequence of certificates.
func c15Walks(c *mc.Ctx) {
	max := 4
	if c.Deep() {
		max = 5
	}
	ns := walk(pickWalk(c, max))
	key := mc.Pick(c, "stamp key", gen.EC(0), gen.EC(1), gen.EC(2))
	b := c15Base(1, sha(gen.SelfCert(key)))
	rec := gen.StampSpec{Key: key, Over: b.over, Attrs: []gen.Attr{{ID: gen.StampAttrPoR, Val: encLineage(1, ns, nil)}}}.Rec()
	c15Judge(c, b, append(append([]gen.Pair(nil), b.pairs...), rec.Pair()), 28, anyMax)
}

// c15Framing: foreign elements, whole and cut, in the lists of schemes and of signatures.
func c15Framing(c *mc.Ctx) {
	key := gen.EC(8)
	cfg := mc.Pick(c, "signed with", 1, 6)
	b := c15Base(cfg, sha(gen.SelfCert(key)))
	rec := gen.StampSpec{Key: key, Over: b.over, Attrs: []gen.Attr{timeAttr(1600000000)}}.Rec()
	sig := func(s gen.AlgBytes) []byte { return gen.Cat(gen.LE32(s.Alg), gen.LP(s.Bytes)) }
	// insert puts up to two foreign elements into a list.
	insert := func(list string, l, foreign [][]byte) []byte {
		var out []byte
		put := func() {
			if k := c.Dev(list, len(foreign)+1); k > 0 {
				out = append(out, gen.LP(foreign[k-1])...)
			}
		}
		put()
		for _, x := range l {
			out = append(out, gen.LP(x)...)
		}
		put()
		return gen.LP(gen.Cat(out, mc.DevPick(c, list+" end", []byte(nil), []byte{0}, []byte{1, 0, 0}, []byte{0, 0, 0, 0}, []byte{5, 0, 0, 0, 1})))
	}
	sigs := func(list string, l []gen.AlgBytes) []byte {
		var whole [][]byte
		for _, s := range l {
			whole = append(whole, sig(s))
		}
		return insert(list, whole, [][]byte{
			{}, {1}, {1, 3, 0}, gen.LE32(gen.AlgUnknown), gen.Cat(gen.LE32(gen.AlgUnknown), []byte{9, 0, 0, 0}), gen.LE32(0),
			gen.LE32(gen.AlgRSA256), gen.LE32(gen.AlgEC256), gen.Cat(gen.LE32(gen.AlgEC512), []byte{0, 0, 0}), gen.Cat(gen.LE32(gen.AlgEC512), []byte{2, 0, 0, 0, 1}), gen.Cat(gen.LE32(gen.AlgEC512), []byte{0xff, 0xff, 0xff, 0xff}),
			gen.Cat(sig(gen.AlgBytes{Alg: gen.AlgRSA256, Bytes: []byte("x")}), []byte("tail")), gen.Cat(sig(l[0]), []byte{0}), sig(gen.AlgBytes{Alg: gen.AlgEC256}),
		})
	}
	at := c.Choose("scheme", len(rec.Schemes))
	var sch [][]byte
	for i, s := range rec.Schemes {
		if i != at {
			var l []byte
			for _, g := range s.Sigs {
				l = append(l, gen.LP(sig(g))...)
			}
			sch = append(sch, gen.Cat(gen.LE32(s.ID), gen.LP(l)))
			continue
		}
		sch = append(sch, gen.Cat(gen.LE32(s.ID), sigs("signatures", s.Sigs), mc.DevPick(c, "scheme end", []byte(nil), []byte{7})))
	}
	var foreign [][]byte
	for _, id := range []uint32{0, 2, 3, 0xffffffff} {
		i := gen.LE32(id)
		foreign = append(foreign, i[:3], i, gen.Cat(i, []byte{0, 0, 0}), gen.Cat(i, []byte{1, 0, 0, 0}), gen.Cat(i, []byte{0xff, 0xff, 0xff, 0xff}), gen.Cat(i, gen.LP(nil)), gen.Cat(i, gen.LP([]byte("junk"))), gen.Cat(i, gen.LP(nil), []byte("tail")))
	}
	foreign = append(foreign, nil)
	v := gen.Cat(gen.LP(rec.Cert), insert("schemes", sch, foreign), gen.LP(rec.AttrData), sigs("attribute signatures", rec.AttrSigs))
	c15Judge(c, b, append(append([]gen.Pair(nil), b.pairs...), gen.Pair{ID: gen.IDStampV2, Val: gen.LP(v)}), 28, anyMax)
}

// c15Bytes: every byte of the stamp changed, removed or repeated; every truncation.
func c15Bytes(c *mc.Ctx) {
	cfg := mc.Pick(c, "signed with", 0, 1, 3)
	key := gen.EC(8)
	b := c15Base(cfg, sha(gen.SelfCert(key)))
	v := gen.StampSpec{Key: key, Over: b.over, Attrs: []gen.Attr{timeAttr(1600000000), {ID: gen.StampAttrPoR, Val: encLineage(1, honest(gen.EC(7), key), nil)}}}.Rec().Encode()
	i := c.Choose("byte", len(v))
	var e []byte
	switch k := c.Choose("change", 8); {
	case k < 5:
		e = flip(v, i, []byte{1, 4, 0x80, 0xff, 0x20}[k])
	case k == 5:
		e = v[:i]
	case k == 6:
		e = gen.Cat(v[:i], v[i+1:])
	case k == 7:
		e = gen.Cat(v[:i+1], v[i:])
	}
	mn, mx := int32(28), anyMax
	if cfg == 0 {
		mn = 1
	}
	c15Judge(c, b, append(append([]gen.Pair(nil), b.pairs...), gen.Pair{ID: gen.IDStampV2, Val: e}), mn, mx)
}

// c15NoBlock: a stamp file without a signing block or stamp, and signing blocks that are not found.
func c15NoBlock(c *mc.Ctx) {
	cfg := mc.Pick(c, "signed with", 0, 1, 4, 6)
	key := gen.EC(8)
	file := mc.Pick(c, "file", []byte(nil), []byte{}, sha(gen.SelfCert(key)), []byte("other"))
	b := c15Base(cfg, file)
	r := c15Ranges[c.Choose("range", len(c15Ranges))]
	rec := gen.StampSpec{Key: key, Over: b.over}.Rec()
	pairs := append(append([]gen.Pair(nil), b.pairs...), rec.Pair())
	blk := gen.EncodeBlock(pairs...)
	var apk []byte
	switch c.Choose("block", 6) {
	case 0:
		apk = b.sec.Assemble(nil)
	case 1:
		apk = b.sec.Assemble(flip(blk, len(blk)-1, 1))
	case 2:
		apk = b.sec.Assemble(gen.EncodeBlock(append(pairs, gen.Pair{ID: 5, RawLen: u64p(1000)})...))
	case 3:
		apk = b.sec.Assemble(gen.EncodeBlock(rec.Pair()))
	case 4:
		apk = b.sec.Assemble(gen.EncodeBlock(gen.Pair{ID: 5}))
	case 5:
		apk = b.sec.Assemble(gen.EncodeBlock(gen.Pair{ID: gen.IDStampV2}))
	}
	c.State(apk, []byte(fmt.Sprint(r)))
	want, o := judgeFull(c, apk, b.jar, appOf(c15App), r[0], r[1])
	if want.Accept && o.Accept {
		compareStamp(c, ref.Stamp(want.Block, want.Scheme, b.files, want.Min, r[1]), o.Stamp, fmt.Sprint(r))
	}
}

func init() {
	register(&Check{
		ID:   "C15",
		Rule: "all stamps within the deviation bound of a correct one, for every way of signing the APK; a state is an APK with an SDK range",
		Spaces: []*mc.Space{
			{Name: "records", Doc: "8 signings x 11 SDK ranges x up to 2 (thorough 3) of about 60 deviations of certificate, file, schemes, digests, signatures, attributes and place", Dev: 2, DevDeep: 3, Run: c15Records},
			{Name: "algorithms", Doc: "up to 3 signatures of every algorithm, each right or wrong, x 10 SDK ranges x 3 key types x digests/attributes", Run: c15Algs},
			{Name: "attributes", Doc: "sequences of up to 3 attributes of 18 x 7 framings", Run: c15Attrs},
			{Name: "walks", Doc: "honestly signed stamp lineages over every sequence of 1-4 (5) out of four certificates of three keys", Run: c15Walks},
			{Name: "lineage", Doc: "lineages of 1-3 nodes with up to 2 (thorough 3) deviations", Dev: 2, DevDeep: 3, Run: c15Lineage},
			{Name: "bytes", Doc: "8 edits of every byte of a stamp", Run: c15Bytes},
			{Name: "framing", Doc: "up to 2 (thorough 3) foreign elements, whole or cut, in the lists of schemes and signatures", Dev: 2, DevDeep: 3, Run: c15Framing},
			{Name: "no block", Doc: "stamp files and stamps without a usable signing block", Run: c15NoBlock},
		},
	})
}
