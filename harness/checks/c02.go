package checks

import (
	"crypto"
	"crypto/sha256"
	"fmt"
	"io"
	"sync"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
)

var fillCache sync.Map

// cachedFill is fill, computed once per (size, seed) for big sizes.
func cachedFill(n int, seed uint32) []byte {
	if n < 1<<16 {
		return fill(n, seed)
	}
	k := [2]int{n, int(seed)}
	if v, ok := fillCache.Load(k); ok {
		return v.([]byte)
	}
	b := fill(n, seed)
	fillCache.Store(k, b)
	return b
}

func sized(before, cd, comment int) gen.Sections {
	s := rawSec(0, 0, comment)
	s.Before, s.CD = cachedFill(before, 1), cachedFill(cd, 2)
	return fixCD(s)
}

// c02Sized checks that the specified digest is accepted and that plausible wrong ones are not.
func c02Sized(c *mc.Ctx, kind, before, cd, comment int, wrong bool) {
	sec := sized(before, cd, comment)
	what := fmt.Sprintf("digest %d, sections %d/%d/%d", kind, before, cd, 22+comment)
	k := gen.EC(0)
	if comment >= 4 && len(sec.EOCD) > 40 {
		// comment content must not hold an end record: fill never produces one
		_ = k
	}
	alg := contentAlg(kind)
	mk := func(d []byte) []byte {
		return sec.Assemble(gen.EncodeBlock(gen.V2(sec, gen.SignerSpec{Key: k, Algs: []uint32{alg}, PreSign: func(r *gen.SignerRec) {
			if d != nil {
				r.Digests[0].Bytes = d
			}
		}})))
	}
	if !wrong {
		bigJudge(c, mk(nil), true, what)
		return
	}
	right := sec.Digest(kind)
	seen := map[string]bool{string(right): true}
	for i, d := range wrongDigests(sec, kind) {
		if seen[string(d)] {
			continue
		}
		seen[string(d)] = true
		bigJudge(c, mk(d), false, fmt.Sprintf("%s, wrong construction %d", what, i))
	}
}

// wrongDigests are near misses of the specification.
func wrongDigests(sec gen.Sections, kind int) [][]byte {
	z := sec
	e := clone(sec.EOCD)
	copy(e[16:20], gen.LE32(uint32(len(sec.Before))))
	all := gen.Cat(sec.Before, sec.CD, e)
	var out [][]byte
	if kind == 3 {
		v := gen.Verity([][]byte{sec.Before, sec.CD, e})
		out = append(out, v[:32], append(clone(v[:32]), gen.LE64(uint64(len(all)+1))...))
		out = append(out, append(clone(v[:32]), gen.LE64(uint64((len(all)+4095)/4096*4096))...))
		out = append(out, append(clone(v[:32]), 0, 0, 0, 0, 0, 0, 0, 0))
		// without the zero salt
		h := sha256.Sum256(all)
		out = append(out, append(h[:], gen.LE64(uint64(len(all)))...))
		// each section padded on its own
		pad := func(b []byte) []byte { return append(clone(b), make([]byte, (4096-len(b)%4096)%4096)...) }
		p := gen.Verity([][]byte{pad(sec.Before), pad(sec.CD), pad(e)})
		out = append(out, append(clone(p[:32]), gen.LE64(uint64(len(all)))...))
		return out
	}
	// chunks spanning the sections
	s := gen.Sections{Before: all, EOCD: nil}
	out = append(out, s.Digest(kind))
	s = gen.Sections{Before: sec.Before, CD: gen.Cat(sec.CD, e)}
	out = append(out, s.Digest(kind))
	// EOCD with its real offset
	if len(sec.Before) > 0 {
		h := map[int]crypto.Hash{1: crypto.SHA256, 2: crypto.SHA512}[kind]
		x := h.New()
		x.Write(all)
		out = append(out, x.Sum(nil))
	}
	z.CD = append(clone(z.CD), 0)
	out = append(out, z.Digest(kind))
	return out
}

func c02Chunks(c *mc.Ctx) {
	kind := 1 + c.Choose("kind", 2)
	sizes := []int{0, 1, 46, mb - 1, mb, mb + 1, 2*mb - 1, 2 * mb, 2*mb + 1}
	if c.Deep() {
		sizes = append(sizes, 3*mb-1, 3*mb, 3*mb+1, 5*mb+123)
	}
	before := mc.Pick(c, "before", sizes...)
	cd := mc.Pick(c, "cd", 1, 46, mb-1, mb, mb+1, 2*mb)
	cm := mc.Pick(c, "comment", 0, 1, 65535)
	wrong := false
	if before <= mb+1 && cd <= mb+1 {
		wrong = c.Bool("wrong digest")
	}
	if before+cd < 8 {
		before += 4
	}
	c02Sized(c, kind, before, cd, cm, wrong)
}

func c02Verity(c *mc.Ctx) {
	blocks := []int{0, 1, 2, 3, 63, 126, 127, 128, 129, 254, 255, 256, 257, 383, 384}
	if c.Deep() {
		blocks = append(blocks, 4, 5, 511, 512, 513, 1023, 1024, 1025)
	}
	before := 4096 * mc.Pick(c, "blocks", blocks...)
	cds := []int{1, 46, 4073, 4074, 4075, 4095, 4096, 4097, 8170, 8192}
	if c.Deep() {
		cds = append(cds, 126*4096-1, 126*4096, 127*4096, 127*4096+1, 128*4096, 129*4096)
	}
	cd := mc.Pick(c, "cd", cds...)
	cm := mc.Pick(c, "comment", 0, 1, 22, 4073, 4074, 4075, 65535)
	wrong := c.Bool("wrong digest")
	c02Sized(c, 3, before, cd, cm, wrong)
}

// c02Levels crosses the border between two and three tree levels (128*128 blocks).
func c02Levels(c *mc.Ctx) {
	n := 128 * 128
	blocks := mc.Pick(c, "blocks", n-2, n-1, n, n+1)
	cd := mc.Pick(c, "cd", 46, 4074, 4075)
	if !c.Deep() && cd == 46 && blocks != n-1 {
		c.Skip()
	}
	c02Sized(c, 3, blocks*4096, cd, 0, false)
}

// c02Fine varies one section byte by byte.
func c02Fine(c *mc.Ctx) {
	kind := 1 + c.Choose("kind", 3)
	which := c.Choose("section", 3)
	span := 300
	if kind == 3 {
		span = 4400
	}
	if c.Deep() {
		span = 9000
	}
	step := 1
	if !c.Deep() && kind == 3 {
		step = 3
	}
	n := c.Choose("size", span/step) * step
	switch which {
	case 0:
		if kind == 3 {
			n = n * 4096 / 16 / 4096 * 4096
		}
		c02Sized(c, kind, n, 60, 5, false)
	case 1:
		c02Sized(c, kind, 8192, n+1, 5, false)
	case 2:
		c02Sized(c, kind, 4096, 50, n, false)
	}
}

// c02Zips are real archives: full verification accepts every layout, scheme and digest list.
func c02Zips(c *mc.Ctx) {
	entries := mc.Pick(c, "entries", 0, 1, 2, 30)
	size := mc.Pick(c, "entry size", 0, 1, 5000, mb+3)
	if entries > 2 && size > 5000 {
		c.Skip()
	}
	cm := mc.Pick(c, "comment", 0, 7, 65535)
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	algs := [][]uint32{{gen.AlgEC256}, {gen.AlgEC512}, {gen.AlgVEC256}, {gen.AlgEC256, gen.AlgEC512}, {gen.AlgEC512, gen.AlgVEC256}, {gen.AlgEC256, gen.AlgVEC256}}[c.Choose("algs", 6)]
	method := uint16(8 * c.Choose("deflate", 2))
	z := &gen.Zip{Align: 4096, Comment: fill(cm, 9)}
	m := gen.ManifestSpec{MinSDK: gen.IV(24), TargetSDK: gen.IV(28)}.AXML()
	z.Entries = append(z.Entries, &gen.Entry{Name: "AndroidManifest.xml", Data: m})
	for i := 0; i < entries; i++ {
		z.Entries = append(z.Entries, &gen.Entry{Name: fmt.Sprintf("f%d", i), Data: cachedFill(size, uint32(i)), Method: method})
	}
	sec := z.Build()
	apk := sec.Assemble(signAll(sec, scheme, algs, algs))
	c.State(apk)
	what := fmt.Sprintf("scheme %d %d entries of %d comment %d", scheme, entries, size, cm)
	o := impl.Verify(apk, 24, anyMax)
	c.Trace(1)
	if !o.Accept || o.Scheme != scheme {
		c.Failf("%s: rejected: %s%s (scheme %d)", what, o.Err, o.Panic, o.Scheme)
	}
	c.Note("%s: accepted=%v", what, o.Accept)
	// the same through a reader that offers nothing but Read and Seek, in pieces
	o = impl.SigBlockReader(&plainReader{data: apk, max: 1000}, 24, anyMax)
	c.Trace(1)
	if !o.Accept || o.Scheme != scheme {
		c.Failf("%s through short reads: rejected: %s%s", what, o.Err, o.Panic)
	}
}

// plainReader implements only io.ReadSeeker and returns at most max bytes per call.
type plainReader struct {
	data []byte
	pos  int64
	max  int
}

func (r *plainReader) Read(p []byte) (int, error) {
	if r.pos >= int64(len(r.data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	if r.max > 0 && len(p) > r.max {
		p = p[:r.max]
	}
	n := copy(p, r.data[r.pos:])
	r.pos += int64(n)
	return n, nil
}

func (r *plainReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	r.pos = off
	return off, nil
}

// c02Large: files of many chunks and beyond 2 GB, mostly zeros that exist only while they are read; also with a byte
// changed near the borders.
func c02Large(c *mc.Ctx) {
	const gb = int64(1) << 30
	sec := tinySec
	cd := mc.Pick(c, "directory", 0, 5000)
	if cd > 0 { // a comment in the directory that makes it longer
		z := tiny().Clone()
		z.Entries[0].Comment = cachedFill(cd, 3)
		sec = z.Build()
	}
	kind := 1 + c.Choose("kind", 3)
	sizes := []int64{255 << 20, 256<<20 - 4096, 256 << 20, 256<<20 + 4096, 2*gb - 4096, 2*gb + 4096, 4*gb - 4096}
	if c.Deep() {
		sizes = append(sizes, 127<<20, 128<<20, 257<<20, 1023<<20, 1024<<20, 1025<<20, 2*gb, 2*gb-8192, 3*gb, 4*gb-12288, 4*gb-65536)
	}
	before := mc.Pick(c, "before", sizes...)
	if !c.Deep() && before > gb && (kind == 2 || before == 2*gb-4096) {
		c.Skip()
	}
	if cd > 0 && before < 3*gb {
		c.Skip() // there to have the record beyond 4 GB, the directory is not
	}
	gap := before - int64(len(sec.Before))
	v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(0), Algs: []uint32{contentAlg(kind)}, PreSign: func(r *gen.SignerRec) {
		r.Digests[0].Bytes = sec.SparseDigest(kind, gap)
	}})
	f := sec.Sparse(gap, gen.EncodeBlock(v2))
	switch c.Choose("change", 4) {
	case 1:
		f.Flip = before - 1
	case 2:
		f.Flip = before - 4096
	case 3:
		f.Flip = before / 2
	}
	if f.Flip >= 0 && cd > 0 && !c.Deep() {
		c.Skip()
	}
	c.State([]byte(fmt.Sprint(cd, kind, before, f.Flip)))
	o := impl.SigBlockReader(f.Open(), 24, anyMax)
	c.Trace(1)
	c.Note("%d bytes before the block: accepted=%v %s", before, o.Accept, o.Err)
	if o.Accept != (f.Flip < 0) || o.Panic != "" {
		c.Failf("%d bytes before the block, digest %d, byte %d changed: accepted=%v %s%s", before, kind, f.Flip, o.Accept, o.Err, o.Panic)
	}
}

func init() {
	register(&Check{
		ID:   "C02",
		Rule: "section-size triples around every chunk, block and tree-level border for every digest kind; a state is a distinct file; wrong constructions of the digest must be refused",
		Spaces: []*mc.Space{
			{Name: "chunks", Doc: "chunked SHA-256/512: sizes of the three sections around multiples of 1 MB x right/near-miss digest", Run: c02Chunks},
			{Name: "verity", Doc: "verity: block counts around tree levels x directory and comment sizes around 4096 x right/near-miss digest", Run: c02Verity},
			{Name: "levels", Doc: "verity around 128*128 blocks (third tree level)", Run: c02Levels},
			{Name: "large", Doc: "files of 255 MB to 4 GB (zeros made up while reading) x digest kinds, intact and with a byte changed near the end and in the middle", Run: c02Large},
			{Name: "fine", Doc: "every size of one section in a range", Run: c02Fine},
			{Name: "zips", Doc: "real archives: entries, sizes, comments, schemes, algorithm lists", Run: c02Zips},
		},
	})
}
