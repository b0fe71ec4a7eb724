package checks

import (
	"bytes"
	"sync"

	"github.com/avast/apkverifier/zzverif/gen"
)

// sample is a file of the corpus C13 and C14 replay.
type sample struct {
	name string
	apk  []byte
	min  int32
	max  int32
	big  bool
}

// corpus has files of every kind: for each scheme authentic ones, attacked ones whose rejection depends on one place of
// the file (a fault hiding just that place must not get them accepted), and files with stamps and frosting.
var corpus = sync.OnceValue(func() []sample {
	var l []sample
	add := func(name string, apk []byte, rng ...int32) {
		s := sample{name: name, apk: apk, min: anyMin, max: anyMax}
		if len(rng) == 2 {
			s.min, s.max = rng[0], rng[1]
		}
		l = append(l, s)
	}
	old := gen.ManifestSpec{MinSDK: gen.IV(16), TargetSDK: gen.IV(28)}
	m21 := gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}
	m24 := gen.ManifestSpec{MinSDK: gen.IV(24), TargetSDK: gen.IV(28)}
	m28 := gen.ManifestSpec{MinSDK: gen.IV(28), TargetSDK: gen.IV(30)}
	multi := func(app gen.ManifestSpec, st [4]int, f func(*multiAPK)) []byte {
		m := multiAPK{app: app, st: st, v3max: 32}
		if f != nil {
			f(&m)
		}
		apk, _ := m.build()
		return apk
	}
	const ok = stValid
	apkSig := func(m *multiAPK) { m.apkSig = "2" }
	add("unsigned", multi(m21, [4]int{}, nil))
	add("v1", multi(old, [4]int{ok}, nil))
	add("v1 by two", multi(old, [4]int{ok}, func(m *multiAPK) { m.v1keys = []*gen.Key{gen.K("rsa1024-0"), gen.EC(0)} }))
	add("v1 altered", multi(old, [4]int{stBadDigest}, nil))
	add("v1 bad signature", multi(old, [4]int{stBadSig}, nil))
	add("v1 with an unsigned entry", multi(old, [4]int{ok}, func(m *multiAPK) {
		m.v1edit = func(w *v1World) {
			w.Zip.Entries = append(w.Zip.Entries, &gen.Entry{Name: "evil.dex", Data: []byte("evil")})
		}
	}))
	add("v1 without a listed entry", multi(old, [4]int{ok}, func(m *multiAPK) {
		m.v1edit = func(w *v1World) {
			var k []*gen.Entry
			for _, e := range w.Zip.Entries {
				if e.Name != "classes.dex" {
					k = append(k, e)
				}
			}
			w.Zip.Entries = k
		}
	}))
	add("v1 dex", multi(old, [4]int{ok}, func(m *multiAPK) { m.prefix = []byte("dex\n035\x00") }))
	add("v1 altered dex", multi(old, [4]int{stBadDigest}, func(m *multiAPK) { m.prefix = []byte("dex\n035\x00") }))
	add("v1 sandbox 2", multi(gen.ManifestSpec{Sandbox: gen.IV(2), MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}, [4]int{ok}, nil))
	add("v1 target 30", multi(gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(30)}, [4]int{ok}, nil))
	add("v2", multi(m24, [4]int{0, ok}, nil))
	add("v1+v2", multi(m21, [4]int{ok, ok}, apkSig))
	add("v1+v2 stripped", multi(m21, [4]int{ok, ok}, func(m *multiAPK) { m.apkSig, m.noBlock = "2", true }))
	add("v1+v2, v2 hidden", multi(m24, [4]int{ok, ok}, func(m *multiAPK) { m.apkSig, m.magic = "2", true }))
	add("v1+bad v2", multi(m21, [4]int{ok, stBadDigest}, nil))
	add("bad v1+v2", multi(m21, [4]int{stBadDigest, ok}, nil))
	add("v1+v2 of another signer", multi(m21, [4]int{stBadSig, ok}, nil))
	add("v1+v2+v3", multi(m21, [4]int{ok, ok, ok}, func(m *multiAPK) { m.apkSig, m.v3max = "2, 3", 0 }))
	add("v2+v3", multi(m24, [4]int{0, ok, ok}, func(m *multiAPK) { m.v3max = 0 }))
	add("v2+bad v3 fallback", multi(m24, [4]int{0, ok, stBadSig}, func(m *multiAPK) { m.v3max = 0 }))
	add("v2+bad v3", multi(m28, [4]int{0, ok, stBadSig}, func(m *multiAPK) { m.v3max = 0 }))
	add("bad v2+v3", multi(m28, [4]int{0, stBadSig, ok}, func(m *multiAPK) { m.v3max = 0 }))
	add("v3", multi(m28, [4]int{0, 0, ok}, func(m *multiAPK) { m.v3max = 0 }))
	rot := u32p(33)
	add("v1+v2+v3+v3.1", multi(m21, [4]int{ok, ok, ok, ok}, func(m *multiAPK) { m.apkSig, m.attrMin = "2, 3, 31", rot }))
	add("v3 stripped of v3.1", multi(m28, [4]int{0, 0, ok}, func(m *multiAPK) { m.attrMin = rot }))
	add("v3+bad v3.1", multi(m28, [4]int{0, 0, ok, stBadDigest}, func(m *multiAPK) { m.attrMin = rot }))
	add("bad v3+v3.1", multi(m28, [4]int{0, 0, stBadDigest, ok}, func(m *multiAPK) { m.attrMin = rot }))
	add("v1 below 24", multi(m21, [4]int{ok, stBadSig, ok, ok}, func(m *multiAPK) { m.attrMin = rot }), 16, 23)

	verity := gen.SignerSpec{Key: gen.EC(1), Algs: []uint32{gen.AlgVEC256}}
	add("v2 verity", alignedSec.Assemble(gen.EncodeBlock(gen.V2(alignedSec, verity))))

	stampKey := gen.EC(8)
	file := sha(gen.SelfCert(stampKey))
	for cfg := range stampCfgs {
		b := c15Base(cfg, file)
		rec := gen.StampSpec{Key: stampKey, Over: b.over, Attrs: []gen.Attr{timeAttr(1234567)}}.Rec()
		var blk []byte
		pairs := append(append([]gen.Pair(nil), b.pairs...), rec.Pair())
		blk = gen.EncodeBlock(pairs...)
		add("stamped "+stampCfgs[cfg].name, b.sec.Assemble(blk))
		if cfg == 1 {
			add("stamp without block", b.sec.Assemble(gen.EncodeBlock(b.pairs...)))
			b = c15Base(cfg, sha([]byte("x")))
			add("stamp of another", b.sec.Assemble(gen.EncodeBlock(append(append([]gen.Pair(nil), b.pairs...), rec.Pair())...)))
			b = c15Base(cfg, nil)
			add("stamp without file", b.sec.Assemble(gen.EncodeBlock(append(append([]gen.Pair(nil), b.pairs...), rec.Pair())...)))
		}
	}
	fb := c16Bases[1]
	f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: fb.digest}}, SignKeys: []*gen.Key{gen.EC(0)}}
	add("frosting", fb.with(f.Encode()))
	add("no zip", bytes.Repeat([]byte("abcdefg"), 30))
	add("truncated", multi(m21, [4]int{ok, ok}, nil)[:900])
	nocd := multi(old, [4]int{ok}, nil)
	add("v1 without a readable directory", append(clone(nocd[:bytes.Index(nocd, []byte("PK\x01\x02"))]), make([]byte, 30)...))

	z := tiny()
	z.Entries = append(z.Entries, &gen.Entry{Name: "big.bin", Data: pattern(1<<20 + 77)})
	sec := z.Build()
	add("large v2", sec.Assemble(gen.EncodeBlock(gen.V2(sec, gen.SignerSpec{Key: gen.EC(1)}))))
	l[len(l)-1].big = true
	z = &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: old.AXML()}, {Name: "big.bin", Data: pattern(70001), Method: 8}, {Name: "huge.bin", Data: pattern(140003)}}}
	add("large v1", signV1(z, nil, "SHA1", v1Signer{Key: gen.K("rsa1024-0")}).Zip.Build().Assemble(nil))
	l[len(l)-1].big = true
	return l
})

// pattern is incompressible data.
func pattern(n int) []byte {
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	return b
}
