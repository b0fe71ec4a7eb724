package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// frostBase is a signed APK waiting for frosting.
type frostBase struct {
	sec    gen.Sections
	pairs  []gen.Pair
	jar    *ref.Jar
	app    ref.App
	digest []byte
}

func c16Make(v1, v2, v3 bool, z *gen.Zip) frostBase {
	m := gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}
	if z == nil {
		z = &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: m.AXML()}, {Name: "classes.dex", Data: []byte("code"), Method: 8}}}
	}
	b := frostBase{app: appOf(m)}
	if v1 {
		w := signV1(z, nil, "SHA1", v1Signer{Key: gen.K("rsa1024-0")})
		z, b.jar = w.Zip, w.Jar
	}
	b.sec = z.Build()
	var v2val []byte
	if v2 {
		p := gen.V2(b.sec, gen.SignerSpec{Key: gen.EC(5)})
		v2val = p.Val
		b.pairs = append(b.pairs, p)
	}
	if v3 {
		b.pairs = append(b.pairs, gen.V3(b.sec, gen.SignerSpec{Key: gen.EC(6), Min: 28, Max: maxU}))
	}
	b.digest = b.sec.FrostDigest(v2val)
	return b
}

var c16Bases = []frostBase{c16Make(false, true, false, nil), c16Make(true, true, true, nil), c16Make(false, false, true, nil), c16Make(true, false, false, nil)}

// judgeFrost compares the verdict and the frosting result; block is the last frosting pair.
func judgeFrost(c *mc.Ctx, apk []byte, jar *ref.Jar, app ref.App, min, max int32) {
	c.State(apk, []byte(fmt.Sprint(min, max)))
	want, o := judgeFull(c, apk, jar, app, min, max)
	if want.Block == nil || want.Block.TooShort {
		return
	}
	compareFrost(c, apk, want.Block, o, fmt.Sprintf("sdk <%d;%d>", min, max))
}

func compareFrost(c *mc.Ctx, apk []byte, b *ref.Res, o impl.Outcome, where string) {
	if b.Loc == nil {
		if o.Frosting != nil && o.Frosting.Clean {
			c.Failf("%s: frosting of an unusable signing block reported clean", where)
		}
		return
	}
	if b.Frosting == nil {
		if o.Frosting != nil {
			c.Failf("%s: frosting reported, there is none", where)
		}
		return
	}
	l := b.Loc
	sec := gen.Sections{Before: apk[:l.Block], CD: apk[l.CD:l.EOCD], EOCD: apk[l.EOCD:]}
	keys, _ := frostKeys()
	want := ref.Frost(b.Frosting, keys, sec.FrostDigest(b.FrostV2))
	got := o.Frosting
	if want.Clean {
		mc.Outcome("frosting: clean")
	} else {
		mc.Outcome("frosting: not clean")
	}
	switch {
	case got == nil:
		c.Failf("%s: no frosting result (%s)", where, want.Why)
	case got.Clean != want.Clean:
		c.Failf("%s: frosting clean=%v (%s), must be %v (%s)", where, got.Clean, got.Err, want.Clean, want.Why)
	case got.BadSig != want.BadSig || got.Digest != want.BadDigest:
		c.Failf("%s: frosting error is %q, must be about %s", where, got.Err, want.Why)
	case want.Clean && (got.Key != want.Key || !bytes.Equal(got.Proto, want.Proto)):
		c.Failf("%s: frosting key %s info %x, must be %s %x", where, got.Key, got.Proto, want.Key, want.Proto)
	}
	c.Note("%s: frosting clean=%v %s", where, want.Clean, want.Why)
}

func (b frostBase) with(block []byte) []byte {
	return b.sec.Assemble(gen.EncodeBlock(append(append([]gen.Pair(nil), b.pairs...), gen.Pair{ID: gen.IDFrosting, Val: block})...))
}

func vint(n int, pad int) []byte { // overlong varint
	v := gen.Varint(uint32(n))
	for i := 0; i < pad; i++ {
		v[len(v)-1] |= 0x80
		v = append(v, 0)
	}
	return v
}

var frostSigEdits = []func([]byte) []byte{
	func(s []byte) []byte { return flipIn(s, -1) },
	func(s []byte) []byte { return append(clone(s), 0) },
	func(s []byte) []byte { return s[:len(s)-1] },
	func(s []byte) []byte { return []byte{} },
	func(s []byte) []byte { return []byte{0x30, 6, 2, 1, 0, 2, 1, 0} },
	func(s []byte) []byte { // -r
		var rs struct{ R, S *big.Int }
		asn1.Unmarshal(s, &rs)
		rs.R.Neg(rs.R)
		o, _ := asn1.Marshal(rs)
		return o
	},
	func(s []byte) []byte { // a third element
		return gen.Seq(s[2:], gen.Int(1))
	},
}

// c16Metas: sequences of metadata entries and signatures.
func c16Metas(c *mc.Ctx) {
	base := c16Bases[c.Choose("signed with", 2)]
	max := 3
	if c.Deep() {
		max = 4
	}
	n := c.Choose("entries", max+1)
	wrong := flip(base.digest, 31, 1)
	var f gen.FrostSpec
	f.Proto = []byte("info")
	type kind struct {
		m gen.FrostMeta
		k *gen.Key
	}
	k0, k1, k2, k9 := gen.EC(0), gen.EC(1), gen.EC(2), gen.EC(9)
	kinds := []kind{
		{gen.FrostMeta{Sha: base.digest}, k0},
		{gen.FrostMeta{Sha: base.digest, KeyIdx: 1}, k1},
		{gen.FrostMeta{Sha: base.digest, KeyIdx: 2}, k2},
		{gen.FrostMeta{Sha: base.digest, Disabled: 1}, k0},
		{gen.FrostMeta{Disabled: 300}, nil},
		{gen.FrostMeta{Sha: base.digest, KeyIdx: 1}, k0},
		{gen.FrostMeta{Sha: base.digest}, k9},
		{gen.FrostMeta{Sha: wrong}, k0},
		{gen.FrostMeta{Sha: base.digest, KeyIdx: 3}, k0},
		{gen.FrostMeta{Sha: base.digest, RawKey: []byte{0xff, 0xff, 0xff, 0xff, 0x0f}}, k0},
		{gen.FrostMeta{Sha: base.digest, Tail: []byte{0}}, k0},
		{gen.FrostMeta{Sha: base.digest[:31]}, k0},
		{gen.FrostMeta{Sha: base.digest}, nil},
		{gen.FrostMeta{Sha: nil}, k0},
	}
	for i := 0; i < n; i++ {
		k := kinds[c.Choose("entry", len(kinds))]
		f.Metas = append(f.Metas, k.m)
		f.SignKeys = append(f.SignKeys, k.k)
	}
	switch c.Choose("signatures", 5) {
	case 1: // all over the whole metadata
		f.SignAll = true
	case 2: // the entries' signatures exchanged
		if n < 2 {
			c.Skip()
		}
		f.SignKeys[0], f.SignKeys[n-1] = f.SignKeys[n-1], f.SignKeys[0]
	case 3: // one too few
		if n == 0 {
			c.Skip()
		}
		g := f
		g.Metas = f.Metas[:n-1]
		b := f.Encode()
		sigs := g.Encode()
		area, l := int(sigs[0]), 1
		if area >= 0x80 {
			area, l = area&0x7f|int(sigs[1])<<7, 2
		}
		whole, wl := int(b[0]), 1
		if whole >= 0x80 {
			whole, wl = whole&0x7f|int(b[1])<<7, 2
		}
		judgeFrost(c, base.with(gen.Cat(b[:wl+whole], sigs[l+area:])), base.jar, base.app, 24, anyMax)
		return
	case 4: // everything signed with the first key
		for i := range f.SignKeys {
			f.SignKeys[i] = k0
		}
	}
	judgeFrost(c, base.with(f.Encode()), base.jar, base.app, 24, anyMax)
}

// c16Fields: deviations of single fields.
func c16Fields(c *mc.Ctx) {
	base := c16Bases[c.Choose("signed with", len(c16Bases))]
	min := mc.Pick(c, "min", int32(1), 24, 28)
	f := gen.FrostSpec{Proto: []byte("some info"), Metas: []gen.FrostMeta{{Sha: base.digest}}, SignKeys: []*gen.Key{gen.EC(0)}}
	if k := c.Dev("protobuf", 6); k > 0 {
		f.Proto = [][]byte{{}, {0}, make([]byte, 127), make([]byte, 128), make([]byte, 20000)}[k-1]
	}
	if k := c.Dev("disabled entries before", 5); k > 0 {
		n := []int{1, 2, 130, 32767}[k-1]
		l := make([]gen.FrostMeta, n)
		for i := range l {
			l[i].Disabled = 1
		}
		f.Metas = append(l, f.Metas...)
		f.SignKeys = append(make([]*gen.Key, len(f.Metas)-1), gen.EC(0))
	}
	if k := c.Dev("entry after", 4); k > 0 {
		f.Metas = append(f.Metas, []gen.FrostMeta{{Disabled: 1}, {Sha: base.digest, KeyIdx: 1}, {Tail: []byte("junk")}}[k-1])
		f.SignKeys = append(f.SignKeys, gen.EC(1))
	}
	sel := 0
	for f.Metas[sel].Disabled != 0 {
		sel++
	}
	if k := c.Dev("file digest", 6); k > 0 {
		f.Metas[sel].Sha = [][]byte{flip(base.digest, 0, 1), base.sec.FrostDigest(nil), sha(nil), make([]byte, 32), base.sec.FrostDigest([]byte("x"))}[k-1]
	}
	if k := c.Dev("key", 4); k > 0 {
		f.Metas[sel].KeyIdx = []uint32{1, 3, 0x7fffffff}[k-1]
	}
	if k := c.Dev("signature", len(frostSigEdits)+1); k > 0 {
		f.SigEdit = func(i int, s []byte) []byte {
			if i == sel {
				return frostSigEdits[k-1](s)
			}
			return s
		}
	}
	if k := c.Dev("what is signed", 5); k > 0 {
		f.SignEdit = func(i int, s []byte) []byte {
			switch k {
			case 1:
				return s[1:]
			case 2:
				return s[:len(s)-1]
			case 3:
				return append(clone(s), 0)
			}
			return flip(s, 3, 1)
		}
	}
	if k := c.Dev("gap behind the metadata", 3); k > 0 {
		f.PreSig = make([]byte, []int{1, 100}[k-1])
	}
	// lengths
	for i, p := range []**uint32{&f.ProtoLen, &f.MetaLen, &f.TotalLen, &f.SigsLen} {
		name := []string{"protobuf length", "metadata length", "area length", "signatures length"}[i]
		if k := c.Dev(name, 9); k > 0 {
			n := frostLens(f)[i]
			*p = u32p([]uint32{0, n - 1, n + 1, n + 2, n + 3, 1, 0x7fffffff, 0xffffffff}[k-1])
		}
	}
	if k := c.Dev("tail", 3); k > 0 {
		f.Tail = make([]byte, []int{1, 200}[k-1])
	}
	apk := base.with(f.Encode())
	judgeFrost(c, apk, base.jar, base.app, min, anyMax)
	if _, own := frostKeys(); own && c.Spent() == 0 {
		if o := impl.SigBlock(apk, 24, anyMax); o.Frosting == nil || !o.Frosting.Clean {
			c.Failf("honest frosting: %+v", o.Frosting)
		}
	}
}

// frostLens are the honest values of the four lengths.
func frostLens(f gen.FrostSpec) [4]uint32 {
	g := f
	g.ProtoLen, g.MetaLen, g.TotalLen, g.SigsLen, g.Tail = nil, nil, nil, nil, nil
	b := g.Encode()
	c := 0
	rd := func() uint32 {
		var v uint32
		for s := 0; ; s += 7 {
			x := b[c]
			c++
			v |= uint32(x&0x7f) << s
			if x < 0x80 {
				return v
			}
		}
	}
	total := rd()
	start := c
	pl := rd()
	c += int(pl)
	ml := rd()
	c = start + int(total)
	return [4]uint32{pl, ml, total, rd()}
}

// c16Varints: every size in shortest, overlong and overflowing encodings.
func c16Varints(c *mc.Ctx) {
	base := c16Bases[0]
	field := 0
	top, at := byte(0), 0
	if c.Bool("high bits") {
		at = 1 + c.Choose("of", 8)
		top = mc.Pick(c, "high bits", byte(1), 2, 7, 8, 0xf, 0x10, 0x40, 0x70, 0x7f, 0x80, 0x81)
	}
	vi := func(n int, name string, pads int) []byte {
		field++
		if top != 0 {
			if field != at {
				return gen.Varint(uint32(n))
			}
			return []byte{byte(n)&0x7f | 0x80, byte(n>>7)&0x7f | 0x80, 0x80, 0x80, top}
		}
		return vint(n, c.Choose(name, pads))
	}
	d, k := vi(0, "disabled", 6), vi(0, "key", 6)
	if !c.Deep() && len(d) > 3 && len(k) > 3 {
		c.Skip()
	}
	body := gen.Cat(d, k, base.digest)
	entry := gen.Cat(vi(len(body), "entry", 6), body)
	head := gen.Cat(vi(4, "protobuf", 3), []byte("info"), vi(len(entry), "metadata", 3))
	signed := gen.Cat(head, entry)
	sig := gen.EC(0).Sign(gen.Natural, 5, signed)
	item := gen.Cat(vi(len(sig), "signature", 3), sig)
	sigs := gen.Cat(vi(len(item), "signatures", 3), item)
	judgeFrost(c, base.with(gen.Cat(vi(len(signed), "area", 6), signed, sigs)), base.jar, base.app, 24, anyMax)
}

// c16Bytes: every byte of a frosting block edited.
func c16Bytes(c *mc.Ctx) {
	base := c16Bases[c.Choose("signed with", 2)]
	f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Disabled: 1, Sha: []byte("off")}, {Sha: base.digest, KeyIdx: 1}, {Sha: base.digest}}, SignKeys: []*gen.Key{gen.EC(2), gen.EC(1), gen.EC(0)}}
	v := f.Encode()
	i := c.Choose("byte", len(v))
	var e []byte
	switch k := c.Choose("change", 12); {
	case k < 9:
		e = flip(v, i, []byte{1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff}[k])
	case k == 9:
		e = v[:i]
	case k == 10:
		e = gen.Cat(v[:i], v[i+1:])
	case k == 11:
		e = gen.Cat(v[:i+1], v[i:])
	}
	judgeFrost(c, base.with(e), base.jar, base.app, 24, anyMax)
}

// c16File: every byte of the file outside the signing block changed after frosting.
func c16File(c *mc.Ctx) {
	base := c16Bases[mc.Pick(c, "signed with", 0, 2, 3)]
	f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: base.digest}}, SignKeys: []*gen.Key{gen.EC(0)}}
	apk := base.with(f.Encode())
	n := len(base.sec.Before)
	blk := len(apk) - n - len(base.sec.CD) - len(base.sec.EOCD)
	i := c.Choose("byte", n+len(base.sec.CD)+len(base.sec.EOCD))
	if i >= n {
		i += blk
	}
	m := byte(1) << uint(c.Choose("bit", 8))
	mut := flip(apk, i, m)
	c.State(mut)
	// only the block's own verdict: v1 content is not modelled here
	b := ref.Verdict(mut, 24, anyMax)
	o := impl.SigBlock(mut, 24, anyMax)
	c.Trace(1)
	if o.Panic != "" {
		c.Failf("%s", o.Panic)
	}
	if b.TooShort || b.Unsure {
		return
	}
	compareFrost(c, mut, b, o, "")
}

// c16Sizes: sections around the read buffer's size.
func c16Sizes(c *mc.Ctx) {
	pad := mc.Pick(c, "padding", 0, 1, 0x1000, 0x1f00, 0x2000, 0x2001, 0x3fff, 0x4000, 0x10000, 70000)
	align := mc.Pick(c, "aligned", 0, 0x2000, 0x1000)
	comment := mc.Pick(c, "comment", 0, 1, 0x2000-22, 0x2000, 65535)
	big := mc.Pick(c, "directory", 0, 0x2000-200, 0x2000, 0x4001)
	z := tiny().Clone()
	z.Pad, z.Align, z.Comment = pad, align, bytes.Repeat([]byte{7}, comment)
	z.Entries[0].Comment = bytes.Repeat([]byte{8}, big)
	base := c16Make(false, c.Bool("v2"), true, z)
	f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: base.digest}}, SignKeys: []*gen.Key{gen.EC(0)}}
	apk := base.with(f.Encode())
	switch c.Choose("change", 4) {
	case 1:
		apk = flip(apk, len(base.sec.Before)-1, 1)
	case 2:
		apk = flip(apk, len(apk)-1, 1)
		if comment == 0 {
			c.Skip()
		}
	case 3:
		apk = flip(apk, 0, 1)
	}
	c.State(apk)
	o := impl.SigBlock(apk, 28, anyMax)
	c.Trace(1)
	compareFrost(c, apk, ref.Verdict(apk, 28, anyMax), o, "")
}

// c16Large: files of 256 MB to 4 GB, intact and with a byte changed.
func c16Large(c *mc.Ctx) {
	const gb = int64(1) << 30
	sizes := []int64{256 << 20, 2*gb + 4096, 4*gb - 4096}
	if c.Deep() {
		sizes = append(sizes, 2*gb-4096, 2*gb, 3*gb)
	}
	before := mc.Pick(c, "before", sizes...)
	sec := tinySec
	gap := before - int64(len(sec.Before))
	v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(5), Algs: []uint32{gen.AlgEC256}, PreSign: func(r *gen.SignerRec) {
		r.Digests[0].Bytes = sec.SparseDigest(1, gap)
	}})
	pairs := []gen.Pair{v2}
	val := v2.Val
	if c.Bool("without v2") {
		pairs, val = nil, nil
		if !c.Deep() && before > gb {
			c.Skip()
		}
	}
	f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: sec.SparseFrostDigest(val, gap)}}, SignKeys: []*gen.Key{gen.EC(0)}}
	file := sec.Sparse(gap, gen.EncodeBlock(append(pairs, gen.Pair{ID: gen.IDFrosting, Val: f.Encode()})...))
	switch c.Choose("change", 3) {
	case 1:
		file.Flip = before - 1
	case 2:
		file.Flip = before / 2
	}
	c.State([]byte(fmt.Sprint(before, file.Flip, len(pairs))))
	o := impl.SigBlockReader(file.Open(), 24, anyMax)
	c.Trace(1)
	want := file.Flip < 0
	switch got := o.Frosting; {
	case o.Panic != "":
		c.Failf("%d bytes: %s", before, o.Panic)
	case got == nil:
		c.Failf("%d bytes: no frosting result", before)
	case got.Clean != want || got.Digest == want:
		c.Failf("%d bytes, byte %d changed: frosting clean=%v (%s)", before, file.Flip, got.Clean, got.Err)
	}
}

// c16Pairs: several frosting and v2 blocks in every order.
func c16Pairs(c *mc.Ctx) {
	base := c16Bases[1]
	good := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: base.digest}}, SignKeys: []*gen.Key{gen.EC(0)}}
	good2 := good
	good2.Proto = []byte("other")
	forged := good
	forged.SignKeys = []*gen.Key{gen.EC(9)}
	noV2 := good
	noV2.Metas = []gen.FrostMeta{{Sha: base.sec.FrostDigest(nil)}}
	otherV2 := gen.V2(base.sec, gen.SignerSpec{Key: gen.EC(8)})
	other := good
	other.Metas = []gen.FrostMeta{{Sha: base.sec.FrostDigest(otherV2.Val)}}
	fr := func(f gen.FrostSpec) gen.Pair { return gen.Pair{ID: gen.IDFrosting, Val: f.Encode()} }
	pool := []gen.Pair{fr(good), fr(good2), fr(forged), fr(noV2), fr(other), {ID: gen.IDFrosting}, base.pairs[0], otherV2, {ID: gen.IDV2}, base.pairs[1], {ID: gen.IDUnknown1, Val: []byte("x")}}
	depth := 4
	if c.Deep() {
		depth = 5
	}
	var pairs []gen.Pair
	for i := 0; i < depth; i++ {
		k := c.Choose("pair", len(pool)+1)
		if k == 0 {
			break
		}
		pairs = append(pairs, pool[k-1])
	}
	apk := base.sec.Assemble(gen.EncodeBlock(pairs...))
	r := mc.Pick(c, "range", [2]int32{24, anyMax}, [2]int32{1, 23}, [2]int32{24, 27})
	judgeFrost(c, apk, base.jar, base.app, r[0], r[1])
}

// frostReal runs in the binary with the real key.
func frostReal([]string) {
	b := c16Bases[0]
	type res struct {
		Key           string
		Clean, BadSig bool
		Nil           bool
	}
	var out []res
	for idx := uint32(0); idx < 2; idx++ {
		f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: b.digest, KeyIdx: idx}}, SignKeys: []*gen.Key{gen.EC(0)}}
		o := impl.SigBlock(b.with(f.Encode()), 24, anyMax)
		if o.Frosting == nil {
			out = append(out, res{Nil: true})
			continue
		}
		out = append(out, res{o.Frosting.Key, o.Frosting.Clean, o.Frosting.BadSig, false})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func init() {
	workers["frostreal"] = frostReal
	workers["frostprobe"] = func([]string) {
		keys, _ := frostKeys()
		b := c16Bases[0]
		i := uint32(len(keys) - 1)
		f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: b.digest, KeyIdx: i}}, SignKeys: []*gen.Key{gen.EC(int(i))}}
		o := impl.SigBlock(b.with(f.Encode()), 24, anyMax)
		if o.Frosting == nil || !o.Frosting.Clean {
			os.Exit(1)
		}
	}
	register(&Check{
		ID:     "C16",
		Rule:   "all frosting blocks within bounds, on a build whose Play key is replaced by keys of the check; a state is an APK with an SDK range",
		Assume: []string{"the Play key is a string literal of the source, replaced through a build overlay; if it is not found only the real key is explored"},
		Spaces: []*mc.Space{
			{Name: "entries", Doc: "up to 3 (thorough 4) metadata entries of 14 kinds x 5 ways of signing x 2 signings of the APK", Run: c16Metas},
			{Name: "fields", Doc: "up to 2 (thorough 3) deviations of 14 fields x 4 signings x 3 SDK ranges", Dev: 2, DevDeep: 3, Slow: 0, Run: c16Fields},
			{Name: "varints", Doc: "shortest and overlong encodings of all sizes", Run: c16Varints},
			{Name: "bytes", Doc: "12 edits of every byte of a frosting block", Run: c16Bytes},
			{Name: "file", Doc: "every bit of the file outside the signing block", Run: c16File},
			{Name: "sizes", Doc: "section sizes around the read buffer", Run: c16Sizes},
			{Name: "large", Doc: "files of 256 MB to 4 GB, intact and with a byte changed", Run: c16Large},
			{Name: "pairs", Doc: "up to 4 (thorough 5) pairs of 11 kinds", Run: c16Pairs},
		},
		After: func(e *mc.Engine) {
			_, own := frostKeys()
			e.Extra["own_frosting_keys"] = own
			p := os.Getenv("ZZVERIF_PLAIN")
			if p == "" {
				p, _ = os.Executable()
			}
			cmd := exec.Command(p, "worker", "frostreal")
			cmd.Env = append(os.Environ(), "ZZVERIF_FROST=")
			b, err := cmd.Output()
			var r []struct {
				Key           string
				Clean, BadSig bool
				Nil           bool
			}
			if err != nil || json.Unmarshal(b, &r) != nil || len(r) != 2 {
				e.Fail("real key", "the run with the real key failed: %v %s", err, b)
				return
			}
			der, _ := base64.StdEncoding.DecodeString(playKey)
			h := sha256.Sum256(der)
			if os.Getenv("ZZVERIF_PLAIN") == "" && own {
				return
			}
			if r[0].Nil || r[0].Clean || !r[0].BadSig || r[0].Key != hex.EncodeToString(h[:]) {
				e.Fail("real key", "forged frosting for the Play key: %+v", r[0])
			}
			if r[1].Nil || r[1].Clean {
				e.Fail("real key", "frosting by an unknown key: %+v", r[1])
			}
			e.Count([][]byte{[]byte("real0"), []byte("real1")}, 2, 2)
		},
	})
}
