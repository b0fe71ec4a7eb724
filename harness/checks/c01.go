package checks

import (
	"fmt"
	"sync"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
)

// contentAlg is the EC signature algorithm of a digest kind.
func contentAlg(kind int) uint32 {
	return map[int]uint32{1: gen.AlgEC256, 2: gen.AlgEC512, 3: gen.AlgVEC256}[kind]
}

// signAll signs the sections with one scheme; kinds are the digest kinds of the deciding signer, kinds3 those of the
// v3 signer below a v3.1 block.
func signAll(sec gen.Sections, scheme int, algs, algs3 []uint32) []byte {
	switch scheme {
	case 2:
		return gen.EncodeBlock(gen.V2(sec, gen.SignerSpec{Key: gen.EC(0), Algs: algs}))
	case 3:
		return gen.EncodeBlock(gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Algs: algs}))
	}
	return gen.EncodeBlock(
		gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Algs: algs3, Min: 28, Max: 32, Attrs: []gen.Attr{{ID: gen.AttrRotMinSDK, Val: gen.LE32(33)}}}),
		gen.V31(sec, gen.SignerSpec{Key: gen.EC(1), Algs: algs, Min: 33, Max: 0x7fffffff}))
}

type c01Base struct {
	name  string
	sec   gen.Sections
	block []byte
}

// c01Small are honest APKs for every scheme and digest kind, page aligned so that verity applies.
var c01Small = sync.OnceValue(func() []c01Base {
	z := tiny()
	z.Align = 4096
	z.Comment = []byte("a comment of the archive")
	sec := z.Build()
	var out []c01Base
	for _, scheme := range []int{2, 3, 31} {
		for kind := 1; kind <= 3; kind++ {
			k3 := []int{0}
			if scheme == 31 {
				k3 = []int{1, 2, 3}
			}
			for _, o := range k3 {
				a3 := []uint32{contentAlg(o)}
				out = append(out, c01Base{fmt.Sprintf("scheme %d digest %d/%d", scheme, kind, o), sec, signAll(sec, scheme, []uint32{contentAlg(kind)}, a3)})
			}
		}
	}
	// two v2 signers with different digest kinds
	out = append(out, c01Base{"v2 with all digest kinds", sec, gen.EncodeBlock(gen.V2(sec, gen.SignerSpec{Key: gen.EC(0), Algs: []uint32{gen.AlgEC256}}, gen.SignerSpec{Key: gen.EC(1), Algs: []uint32{gen.AlgEC512}}, gen.SignerSpec{Key: gen.EC(2), Algs: []uint32{gen.AlgVEC256}}))})
	return out
})

func edit(b []byte, pos, kind int) []byte {
	switch kind {
	case 0:
		return flip(b, pos, 0x01)
	case 1:
		return flip(b, pos, 0x80)
	case 2: // insert a copy
		return append(append(clone(b[:pos]), b[pos]), b[pos:]...)
	case 3: // delete
		return append(clone(b[:pos]), b[pos+1:]...)
	case 4: // swap with the next
		o := clone(b)
		if pos+1 < len(o) {
			o[pos], o[pos+1] = o[pos+1], o[pos]
		}
		return o
	}
	o := clone(b)
	o[pos] = 0
	return o
}

// c01Check verifies the tampered file: rejected unless nothing really changed.
func c01Check(c *mc.Ctx, base c01Base, t gen.Sections, what string) {
	same := string(base.sec.Assemble(base.block)) == string(t.Assemble(base.block))
	c01File(c, t.Assemble(base.block), same, base.name+": "+what)
}

func c01File(c *mc.Ctx, apk []byte, same bool, what string) {
	c.State(apk)
	o := impl.Verify(apk, 24, anyMax)
	c.Trace(1)
	c.Note("%s: accepted=%v", what, o.Accept)
	if o.Panic != "" {
		c.Failf("%s: %s", what, o.Panic)
	} else if o.Accept != same {
		c.Failf("%s: accepted=%v (%s), must be %v", what, o.Accept, o.Err, same)
	}
	b := impl.SigBlock(apk, 24, anyMax)
	c.Trace(1)
	if b.Accept != same {
		c.Failf("%s: signing block accepted=%v (%s), must be %v", what, b.Accept, b.Err, same)
	}
}

func c01Bytes(c *mc.Ctx) {
	base := c01Small()[c.Choose("base", len(c01Small()))]
	s := c.Choose("section", 3)
	part := [][]byte{base.sec.Before, base.sec.CD, base.sec.EOCD}[s]
	kind := c.Choose("edit", 6)
	step := 1
	if s == 0 && kind != 0 && !c.Deep() {
		step = 31
	}
	pos := c.Choose("position", (len(part)+step-1)/step) * step
	t := base.sec
	nb := edit(part, pos, kind)
	switch s {
	case 0:
		t.Before = nb
	case 1:
		t.CD = nb
	case 2:
		t.EOCD = nb
	}
	c01Check(c, base, t, fmt.Sprintf("section %d byte %d edit %d", s, pos, kind))
}

// c01Moves shifts bytes over the section borders and around the block.
func c01Moves(c *mc.Ctx) {
	base := c01Small()[c.Choose("base", len(c01Small()))]
	n := mc.Pick(c, "bytes", 1, 4, 16, 64, 4096)
	how := c.Choose("how", 9)
	t := base.sec
	name := ""
	if n > len(t.CD) && how != 0 && how != 1 && how != 6 {
		c.Skip()
	}
	switch how {
	case 0:
		name = "zero bytes appended before the block"
		t.Before = append(clone(t.Before), make([]byte, n)...)
	case 1:
		name = "bytes removed before the block"
		if n > len(t.Before) {
			c.Skip()
		}
		t.Before = t.Before[:len(t.Before)-n]
	case 2:
		name = "end of the entries moved into the central directory"
		t.CD = append(clone(t.Before[len(t.Before)-n:]), t.CD...)
		t.Before = t.Before[:len(t.Before)-n]
		t = fixCD(t)
	case 3:
		name = "start of the central directory moved to the entries"
		t.Before = append(clone(t.Before), t.CD[:n]...)
		t.CD = t.CD[n:]
		t = fixCD(t)
	case 4:
		name = "zero bytes appended to the central directory"
		t.CD = append(clone(t.CD), make([]byte, n)...)
		t = fixCD(t)
	case 5:
		name = "bytes removed from the end of the central directory"
		t.CD = t.CD[:len(t.CD)-n]
		t = fixCD(t)
	case 6:
		name = "zero bytes appended to the comment"
		t = setComment(t, append(clone(t.EOCD[22:]), make([]byte, n)...))
	case 7:
		name = "comment shortened"
		if n > len(t.EOCD)-22 {
			c.Skip()
		}
		t = setComment(t, clone(t.EOCD[22:len(t.EOCD)-n]))
	case 8:
		name = "bytes inserted at the start"
		t.Before = append(make([]byte, n), t.Before...)
	}
	c01Check(c, base, t, fmt.Sprintf("%s (%d)", name, n))
}

// fixCD makes the end record agree with the central directory length.
func fixCD(t gen.Sections) gen.Sections {
	e := clone(t.EOCD)
	copy(e[12:], gen.LE32(uint32(len(t.CD))))
	t.EOCD = e
	return t
}

func setComment(t gen.Sections, cm []byte) gen.Sections {
	e := append(clone(t.EOCD[:22]), cm...)
	e[20], e[21] = byte(len(cm)), byte(len(cm)>>8)
	t.EOCD = e
	return t
}

// raw sections of chosen sizes with position-dependent content.
func fill(n int, seed uint32) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 8)
	}
	return b
}

func rawSec(before, cd, comment int) gen.Sections {
	e := gen.Cat([]byte("PK\x05\x06"), make([]byte, 8), gen.LE32(uint32(cd)), gen.LE32(0), []byte{byte(comment), byte(comment >> 8)}, fill(comment, 3))
	return gen.Sections{Before: fill(before, 1), CD: fill(cd, 2), EOCD: e}
}

const mb = 1 << 20

type bigBase struct {
	c01Base
	kind int
}

// c01Big are multi-chunk and multi-level files.
var c01Big = sync.OnceValue(func() []bigBase {
	var out []bigBase
	for _, l := range []struct{ before, cd, cm int }{{2*mb + 4096, mb + 5, 30}, {mb, 2 * mb, 65535}, {129*4096 + 0, 300, 5000}} {
		sec := rawSec(l.before, l.cd, l.cm)
		for _, scheme := range []int{2, 3, 31} {
			for kind := 1; kind <= 3; kind++ {
				if scheme == 3 && kind != 3 {
					continue
				}
				out = append(out, bigBase{c01Base{fmt.Sprintf("sizes %d/%d/%d scheme %d digest %d", l.before, l.cd, l.cm, scheme, kind), sec, signAll(sec, scheme, []uint32{contentAlg(kind)}, []uint32{contentAlg(kind)})}, kind})
			}
		}
	}
	return out
})

// positions around all multiples of the chunk size, and the ends.
func edgePositions(n int) []int {
	set := map[int]bool{}
	var out []int
	add := func(p int) {
		if p >= 0 && p < n && !set[p] {
			set[p] = true
			out = append(out, p)
		}
	}
	for _, p := range []int{0, 1, 4094, 4095, 4096, 4097, 128*4096 - 1, 128 * 4096, 129 * 4096, n / 2, n - 4097, n - 4096, n - 2, n - 1} {
		add(p)
	}
	for m := mb; m <= n+1; m += mb {
		add(m - 1)
		add(m)
		add(m + 1)
		add(m - mb/2)
	}
	return out
}

func c01Edges(c *mc.Ctx) {
	bases := c01Big()
	b := bases[c.Choose("base", len(bases))]
	s := c.Choose("section", 3)
	part := [][]byte{b.sec.Before, b.sec.CD, b.sec.EOCD}[s]
	ps := edgePositions(len(part))
	pos := ps[c.Choose("position", len(ps))]
	if s == 2 && pos < 22 {
		c.Skip()
	}
	t := b.sec
	nb := flip(part, pos, 0x40)
	switch s {
	case 0:
		t.Before = nb
	case 1:
		t.CD = nb
	case 2:
		t.EOCD = nb
	}
	apk := t.Assemble(b.block)
	bigJudge(c, apk, false, fmt.Sprintf("%s: section %d byte %d", b.name, s, pos))
}

func bigJudge(c *mc.Ctx, apk []byte, accept bool, what string) {
	c.State(apk)
	o := impl.SigBlock(apk, 24, anyMax)
	c.Trace(1)
	c.Note("%s: accepted=%v", what, o.Accept)
	if o.Panic != "" {
		c.Failf("%s: %s", what, o.Panic)
	} else if o.Accept != accept {
		c.Failf("%s: accepted=%v (%s), must be %v", what, o.Accept, o.Err, accept)
	}
}

// c01Swap exchanges chunks and blocks, inside and across sections.
func c01Swap(c *mc.Ctx) {
	bases := c01Big()
	b := bases[c.Choose("base", len(bases))]
	unit := mc.Pick(c, "unit", mb, 4096, 32, 128*4096)
	t := b.sec
	all := gen.Cat(t.Before, t.CD)
	n := len(all) / unit
	if n < 2 {
		c.Skip()
	}
	is := []int{0, 1, n / 2, n - 1}
	i := is[c.Choose("first", len(is))]
	j := is[c.Choose("second", len(is))]
	if i >= j {
		c.Skip()
	}
	x := clone(all[i*unit : (i+1)*unit])
	copy(all[i*unit:], all[j*unit:(j+1)*unit])
	copy(all[j*unit:], x)
	t.Before, t.CD = all[:len(t.Before)], all[len(t.Before):]
	bigJudge(c, t.Assemble(b.block), false, fmt.Sprintf("%s: units %d of %d and %d swapped", b.name, unit, i, j))
}

// c01Digest signs wrong digests: every byte of the digest value and every length counts.
func c01Digest(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31, 310)
	kind := 1 + c.Choose("kind", 3)
	n := map[int]int{1: 32, 2: 64, 3: 40}[kind]
	pos := c.Choose("position", n+6)
	what := fmt.Sprintf("byte %d of the signed digest wrong", pos)
	mod := func(r *gen.SignerRec) {
		d := clone(r.Digests[0].Bytes)
		switch pos - n {
		case 0:
			d = d[:len(d)-1]
			what = "signed digest one byte short"
		case 1:
			d = append(d, 0)
			what = "signed digest one byte long"
		case 2:
			d = nil
			what = "signed digest empty"
		case 3:
			d = d[:len(d)/2]
			what = "half of the digest"
		case 4:
			d = alignedSec.Digest(kind%3 + 1)
			what = "digest of another kind"
		case 5:
			d = make([]byte, n)
			what = "zero digest"
		default:
			d[pos] ^= 1
		}
		r.Digests[0].Bytes = d
	}
	algs := []uint32{contentAlg(kind)}
	var blk []byte
	v3 := gen.SignerSpec{Key: gen.EC(0), Algs: algs, Min: 28, Max: 32}
	v31 := gen.SignerSpec{Key: gen.EC(1), Algs: algs, Min: 33, Max: 0x7fffffff}
	switch scheme {
	case 2:
		blk = gen.EncodeBlock(gen.V2(alignedSec, gen.SignerSpec{Key: gen.EC(0), Algs: algs, PreSign: mod}))
	case 3:
		blk = gen.EncodeBlock(gen.V3(alignedSec, gen.SignerSpec{Key: gen.EC(0), Algs: algs, PreSign: mod}))
	case 31:
		v31.PreSign = mod
		blk = gen.EncodeBlock(gen.V3(alignedSec, v3), gen.V31(alignedSec, v31))
	case 310:
		v3.PreSign = mod
		blk = gen.EncodeBlock(gen.V3(alignedSec, v3), gen.V31(alignedSec, v31))
	}
	c01File(c, alignedSec.Assemble(blk), false, fmt.Sprintf("scheme %d kind %d: %s", scheme, kind, what))
}

// c01Multi gives each of two signers its own digest kinds and tampers with the file or one digest.
func c01Multi(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	ks := []uint32{gen.AlgEC256, gen.AlgEC512, gen.AlgVEC256}
	a, b := mc.Pick(c, "first", ks...), mc.Pick(c, "second", ks...)
	bad := c.Choose("wrong", 4) // 0 none, 1 first, 2 second, 3 file
	sec := alignedSec
	wrong := func(i int) func(r *gen.SignerRec) {
		if bad != i {
			return nil
		}
		return func(r *gen.SignerRec) { r.Digests[0].Bytes = flipIn(r.Digests[0].Bytes, -1) }
	}
	var blk []byte
	s1 := gen.SignerSpec{Key: gen.EC(1), Algs: []uint32{a}, PreSign: wrong(1)}
	s2 := gen.SignerSpec{Key: gen.EC(2), Algs: []uint32{b}, PreSign: wrong(2)}
	switch scheme {
	case 2:
		blk = gen.EncodeBlock(gen.V2(sec, s1, s2))
	case 3:
		s1.Min, s1.Max, s2.Min, s2.Max = 28, 30, 31, 0x7fffffff
		blk = gen.EncodeBlock(gen.V3(sec, s1, s2))
	case 31:
		s1.Min, s1.Max, s2.Min, s2.Max = 33, 35, 36, 0x7fffffff
		blk = gen.EncodeBlock(gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: 32}), gen.V31(sec, s1, s2))
	}
	if bad == 3 {
		sec.Before = flipIn(sec.Before, -1)
	}
	c01File(c, sec.Assemble(blk), bad == 0, fmt.Sprintf("scheme %d signers %s and %s, wrong %d", scheme, gen.AlgName(a), gen.AlgName(b), bad))
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "every byte position x six local edits of an honest APK for every scheme and digest kind, moves over section borders, chunk and tree-level edges of multi-megabyte files, swapped chunks and every byte of the signed digest; a state is a distinct file",
		Spaces: []*mc.Space{
			{Name: "bytes", Doc: "honest APK (16 scheme/digest combinations) x section x byte position x edit", Run: c01Bytes},
			{Name: "moves", Doc: "bytes moved, inserted or removed at section borders, comment grown or cut", Run: c01Moves},
			{Name: "edges", Doc: "multi-chunk and multi-level files x positions around chunk and tree edges", Run: c01Edges},
			{Name: "swap", Doc: "chunks, blocks and hashes-sized units exchanged", Run: c01Swap},
			{Name: "digest", Doc: "every byte and length of the signed digest wrong, per scheme and kind, also for the v3 part below v3.1", Run: c01Digest},
			{Name: "multi", Doc: "two signers with any digest kinds, one of them wrong", Run: c01Multi},
		},
	})
}
