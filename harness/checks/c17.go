package checks

import (
	"encoding/binary"
	"math"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// c17File is a signed file; the v1, v2 and v3 signers differ so that what decided is visible.
type c17File struct {
	sec gen.Sections
	v2  gen.Pair
	v3  gen.Pair
	jar *ref.Jar
	app ref.App
}

var c17App = gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}

func c17Make(edit func(s gen.Sections) gen.Sections) c17File {
	m := multiAPK{app: c17App}
	m.st[0] = stValid
	sec, _, j := m.parts()
	if edit != nil {
		sec = edit(sec)
	}
	return c17File{sec: sec, jar: j, app: appOf(m.app),
		v2: gen.V2(sec, gen.SignerSpec{Key: gen.EC(2)}),
		v3: gen.V3(sec, gen.SignerSpec{Key: gen.EC(3), Min: 28, Max: maxU})}
}

var c17Base = c17Make(nil)

var c17Ranges = [][2]int32{{1, 23}, {24, 27}, {24, anyMax}, {28, 33}, {1, anyMax}}

func (f c17File) judge(c *mc.Ctx, apk []byte) {
	c.State(apk)
	for _, r := range c17Ranges {
		judgeFull(c, apk, f.jar, f.app, r[0], r[1])
		if r[0] >= 24 {
			judgeBlock(c, apk, r[0], r[1])
		}
	}
	extractSame(c, apk, f)
}

// extractSame: the certificates extracted come from the block found.
func extractSame(c *mc.Ctx, apk []byte, f c17File) {
	v := ref.Verdict(apk, 1, anyMax)
	o := impl.Extract(apk)
	c.Trace(1)
	if v.Accept && !v.NotFound && !v.Unsure && (!o.Accept || !impl.SameChains(o.Certs, v.Certs)) {
		c.Failf("extraction reports %s, verification %s", showChains(o.Certs), showChains(v.Certs))
	}
	if o.Panic != "" {
		c.Failf("extraction: %s", o.Panic)
	}
}

// c17Pairs: ordered selections of pairs.
func c17Pairs(c *mc.Ctx) {
	f := c17Base
	bad := f.v2
	bad.Val = []byte{1}
	pool := []gen.Pair{f.v2, f.v3, {ID: gen.IDUnknown1, Val: []byte("first")}, {ID: gen.IDUnknown2}, {ID: gen.IDPadding, Val: make([]byte, 7)}, {ID: gen.IDUnknown1, Val: []byte("second!")}, bad, {ID: gen.IDFrosting, Val: []byte("rubbish")}, {ID: 0, Val: []byte{0, 0, 0, 0}}, {ID: 0xffffffff, Val: f.v3.Val}}
	depth := 4
	if c.Deep() {
		depth = 5
	}
	var pairs []gen.Pair
	for i := 0; i < depth; i++ {
		k := c.Choose("pair", len(pool)+1)
		if k == 0 {
			break
		}
		pairs = append(pairs, pool[k-1])
	}
	f.judge(c, f.sec.Assemble(gen.EncodeBlock(pairs...)))
}

// c17Perms: all orders of six pairs.
func c17Perms(c *mc.Ctx) {
	f := c17Base
	pool := []gen.Pair{f.v2, f.v3, {ID: gen.IDUnknown1, Val: []byte("first")}, {ID: gen.IDUnknown2}, {ID: gen.IDPadding, Val: make([]byte, 100)}, {ID: gen.IDMeituan, Val: make([]byte, 3000)}}
	var pairs []gen.Pair
	for len(pool) > 0 {
		k := c.Choose("next", len(pool))
		pairs = append(pairs, pool[k])
		pool = append(append([]gen.Pair{}, pool[:k]...), pool[k+1:]...)
	}
	f.judge(c, f.sec.Assemble(gen.EncodeBlock(pairs...)))
}

// c17Sizes: padding and pair sizes, including a block aligned to a page.
func c17Sizes(c *mc.Ctx) {
	f := c17Base
	n := mc.Pick(c, "size", 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 255, 256, 4095, 4096, 65535, 65536, 70001)
	id := mc.Pick(c, "id", gen.IDPadding, gen.IDUnknown1, gen.IDMeituan)
	p := gen.Pair{ID: id, Val: cachedFill(n, 5)}
	pairs := []gen.Pair{f.v2, p}
	if c.Bool("first") {
		pairs = []gen.Pair{p, f.v2}
	}
	if c.Bool("looks like a footer") { // a complete block inside a pair value
		inner := gen.EncodeBlock(f.v3)
		pairs = append(pairs, gen.Pair{ID: gen.IDUnknown2, Val: inner})
	}
	f.judge(c, f.sec.Assemble(gen.EncodeBlock(pairs...)))
}

// c17Frame: framing fields at every boundary value and every framing byte flipped.
func c17Frame(c *mc.Ctx) {
	f := c17Base
	pairs := []gen.Pair{{ID: gen.IDUnknown1, Val: []byte("abc")}, f.v2, {ID: gen.IDUnknown2}}
	blk := gen.EncodeBlock(pairs...)
	size := uint64(len(blk) - 8)
	vals := []uint64{0, 1, 7, 8, 23, 24, 25, 31, 32, size - 8, size - 1, size + 1, size + 8, uint64(len(f.sec.Before)) + size, uint64(len(f.sec.Before)) + size + 1, math.MaxInt32 - 9, math.MaxInt32 - 8, math.MaxInt32 - 7, math.MaxInt32, 1 << 31, 1<<32 + size, 1 << 32, 1 << 62, math.MaxInt64, math.MaxInt64 - 7, 1 << 63, math.MaxUint64, math.MaxUint64 - 7, math.MaxUint64 - 24}
	put := func(b []byte, v uint64) { binary.LittleEndian.PutUint64(b, v) }
	switch c.Choose("field", 9) {
	case 0:
		put(blk, mc.Pick(c, "header", vals...))
	case 1:
		put(blk[len(blk)-24:], mc.Pick(c, "footer", vals...))
	case 2: // both
		v := mc.Pick(c, "both", vals...)
		put(blk, v)
		put(blk[len(blk)-24:], v)
	case 3:
		put(blk, mc.Pick(c, "header", vals...))
		put(blk[len(blk)-24:], mc.Pick(c, "footer", vals...))
	case 4: // a pair's size
		off := []int{8, 8 + 8 + 7, len(blk) - 24 - 12}[c.Choose("pair", 3)]
		cur := binary.LittleEndian.Uint64(blk[off:])
		pv := []uint64{0, 1, 3, 4, 5, cur - 1, cur + 1, cur + 4, cur + 12, size, uint64(len(blk) - 24 - off - 8), uint64(len(blk) - 24 - off - 7), math.MaxInt32, 1 << 31, 1<<32 + cur, 1 << 63, math.MaxUint64, math.MaxInt64}
		put(blk[off:], mc.Pick(c, "pair size", pv...))
	case 5: // any byte of the frame
		pos := []int{}
		for i := 0; i < 8+8+4+3+12; i++ {
			pos = append(pos, i)
		}
		for i := len(blk) - 24 - 12; i < len(blk); i++ {
			pos = append(pos, i)
		}
		p := pos[c.Choose("byte", len(pos))]
		blk[p] ^= 1 << c.Choose("bit", 8)
	case 6: // extra bytes after the last pair
		n := 1 + c.Choose("tail", 12)
		tail := make([]byte, n)
		if c.Bool("nonzero") {
			for i := range tail {
				tail[i] = 0xff
			}
		}
		blk = gen.FrameBlock(append(gen.EncodePairs(pairs), tail...))
	case 7: // cut block
		body := gen.EncodePairs(pairs)
		cut := c.Choose("cut", 40)
		if cut > 20 { // around the end of the first pair
			cut = len(body) - (cut - 20)
		}
		blk = gen.FrameBlock(body[:len(body)-cut])
	case 8: // junk between block and central directory, or the block torn off
		switch c.Choose("where", 4) {
		case 0:
			blk = append(blk, make([]byte, 1+c.Choose("gap", 4))...)
		case 1:
			blk = append(make([]byte, 1+c.Choose("gap", 4)), blk...)
		case 2: // two blocks, the one next to the central directory counts
			blk = append(gen.EncodeBlock(f.v3), blk...)
		case 3:
			blk = append(clone(blk), gen.EncodeBlock(f.v3)...)
		}
	}
	f.judge(c, f.sec.Assemble(blk))
}

// c17Comments: every comment length class.
func c17Comments(c *mc.Ctx) {
	n := mc.Pick(c, "length", 0, 1, 2, 3, 4, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 41, 42, 43, 44, 45, 255, 256, 257, 4095, 32767, 32768, 65000, 65512, 65513, 65514, 65533, 65534, 65535)
	fill := c.Choose("content", 5)
	cm := make([]byte, n)
	switch fill {
	case 1:
		for i := range cm {
			cm[i] = "PK\x05\x06"[i%4]
		}
	case 2:
		for i := range cm {
			cm[i] = "APK Sig Block 42"[i%16]
		}
	case 3:
		copy(cm, cachedFill(n, 77))
	case 4: // a whole EOCD at the end that claims no comment: this is the one that counts
		if n < 22 {
			c.Skip()
		}
		copy(cm[n-22:], gen.Cat([]byte("PK\x05\x06"), make([]byte, 18)))
	}
	f := c17Make(func(s gen.Sections) gen.Sections { return setComment(s, cm) })
	apk := f.sec.Assemble(gen.EncodeBlock(f.v2, f.v3))
	c.State(apk)
	judgeBlock(c, apk, 24, 27)
	judgeBlock(c, apk, 28, anyMax)
	if fill < 4 && fill != 1 {
		f.judge(c, apk)
	}
}

// c17Fakes: fake records in the comment at every alignment.
func c17Fakes(c *mc.Ctx) {
	n := mc.Pick(c, "length", 30, 64, 300)
	step := 1
	if n == 300 && !c.Deep() {
		step = 7
	}
	pos := step * c.Choose("position", (n-3+step-1)/step)
	rest := n - pos // bytes from the fake magic to the end
	clen := mc.Pick(c, "comment length", 0, 1, -1, 5, -5) + rest - 22
	cd := c.Choose("offsets", 4)
	cm := make([]byte, n)
	for i := range cm {
		cm[i] = byte(0x30 + i%7)
	}
	f := c17Base
	sec := setComment(f.sec, cm)
	v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(2)})
	blk := gen.EncodeBlock(v2)
	realCD := uint32(len(sec.Before) + len(blk))
	fake := make([]byte, 22)
	copy(fake, "PK\x05\x06")
	le := binary.LittleEndian
	eocdPos := uint32(len(sec.Before) + len(blk) + len(sec.CD))
	fakePos := eocdPos + 22 + uint32(pos)
	switch cd {
	case 0: // as in the real record
		le.PutUint32(fake[12:], uint32(len(sec.CD)))
		le.PutUint32(fake[16:], realCD)
	case 1: // consistent with its own position
		le.PutUint32(fake[12:], fakePos-realCD)
		le.PutUint32(fake[16:], realCD)
	case 2: // an empty directory at its own position
		le.PutUint32(fake[16:], fakePos)
	case 3: // zeros
	}
	if clen >= 0 && clen <= 65535 {
		le.PutUint16(fake[20:], uint16(clen))
	}
	copy(cm[pos:], fake)
	// signed with the fake in place unless the attacker added it
	sec2 := setComment(f.sec, cm)
	if c.Bool("signed with the fake") {
		v2 = gen.V2(sec2, gen.SignerSpec{Key: gen.EC(2)})
		blk = gen.EncodeBlock(v2)
	}
	apk := sec2.Assemble(blk)
	c.State(apk)
	judgeBlock(c, apk, 24, anyMax)
}

// c17Limit: files whose size is around the largest comment's, where the search for the record reaches the file's start.
func c17Limit(c *mc.Ctx) {
	size := 65536 + 22 - 70 + c.Choose("size", 110)
	n := mc.Pick(c, "comment", 0, 1, 2, 21, 22, 300, 60000)
	f := c17Base
	sec := setComment(f.sec, cachedFill(n, 9))
	v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(2)})
	pad := size - len(sec.Assemble(gen.EncodeBlock(v2, gen.Pair{ID: gen.IDPadding})))
	if pad < 0 {
		c.Skip()
	}
	apk := sec.Assemble(gen.EncodeBlock(v2, gen.Pair{ID: gen.IDPadding, Val: make([]byte, pad)}))
	c.State(apk)
	judgeBlock(c, apk, 24, anyMax)
}

// c17Bare: archives with next to nothing around the block.
func c17Bare(c *mc.Ctx) {
	f := c17Base
	sec := f.sec
	n := c.Choose("bytes before", 40)
	sec.Before = sec.Before[:n]
	sec = setComment(sec, make([]byte, c.Choose("comment", 3)))
	var blk []byte
	v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(2)})
	switch c.Choose("block", 7) {
	case 0:
		blk = gen.EncodeBlock(v2)
	case 1:
		blk = gen.EncodeBlock(gen.Pair{ID: gen.IDUnknown2}, v2, gen.Pair{ID: gen.IDUnknown1})
	case 2: // no pairs: the smallest block
		blk = gen.FrameBlock(nil)
	case 3: // only the footer
		blk = gen.FrameBlock(nil)[8:]
	case 4: // pairs of no bytes
		blk = gen.EncodeBlock(gen.Pair{ID: gen.IDUnknown2})
	case 5: // the block claims a byte more than the file has before it
		blk = gen.EncodeBlock(v2)
		s := uint64(len(blk) - 8 + n + 1)
		binary.LittleEndian.PutUint64(blk[len(blk)-24:], s)
		binary.LittleEndian.PutUint64(blk, s)
	case 6: // it claims everything before it
		blk = gen.EncodeBlock(v2)
		s := uint64(len(blk) - 8 + n)
		binary.LittleEndian.PutUint64(blk[len(blk)-24:], s)
		if n >= 8 {
			sec.Before = clone(sec.Before)
			binary.LittleEndian.PutUint64(sec.Before, s)
		}
	}
	apk := sec.Assemble(blk)
	c.State(apk)
	judgeBlock(c, apk, 24, 27)
	judgeBlock(c, apk, 28, anyMax)
}

// c17Layout: the archive around the block.
func c17Layout(c *mc.Ctx) {
	f := c17Base
	le := binary.LittleEndian
	blk := gen.EncodeBlock(f.v2, f.v3)
	apk := f.sec.Assemble(blk)
	e := len(apk) - len(f.sec.EOCD)
	switch c.Choose("what", 7) {
	case 0: // central directory offset
		v := []int{0, 1, 31, 32, len(f.sec.Before), e - len(f.sec.CD) - 1, e - len(f.sec.CD) + 1, e - 1, e, e + 1, len(apk), math.MaxInt32, math.MaxUint32}
		le.PutUint32(apk[e+16:], uint32(v[c.Choose("offset", len(v))]))
	case 1: // central directory size
		v := []int{0, 1, len(f.sec.CD) - 1, len(f.sec.CD) + 1, e, math.MaxInt32, math.MaxUint32}
		le.PutUint32(apk[e+12:], uint32(v[c.Choose("size", len(v))]))
	case 2: // both, still adding up
		d := mc.Pick(c, "shift", -1, 1, -24, -len(blk), len(f.sec.CD)-1, len(f.sec.CD), -(e - len(f.sec.CD)), 46)
		le.PutUint32(apk[e+16:], uint32(e-len(f.sec.CD)+d))
		le.PutUint32(apk[e+12:], uint32(len(f.sec.CD)-d))
	case 3: // zip64 locator before the record
		k := c.Choose("locator", 3)
		loc := gen.Cat([]byte("PK\x06\x07"), make([]byte, 16))
		switch k {
		case 0:
			sec := f.sec
			sec.CD = gen.Cat(sec.CD, loc)
			sec = fixCD(sec)
			v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(2)})
			apk = sec.Assemble(gen.EncodeBlock(v2))
		case 1: // one byte off: not a locator
			sec := f.sec
			sec.CD = gen.Cat(sec.CD, loc, []byte{0})
			sec = fixCD(sec)
			v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(2)})
			apk = sec.Assemble(gen.EncodeBlock(v2))
		case 2:
			sec := f.sec
			sec.CD = gen.Cat(sec.CD, []byte("PK\x06\x06"), make([]byte, 16))
			sec = fixCD(sec)
			v2 := gen.V2(sec, gen.SignerSpec{Key: gen.EC(2)})
			apk = sec.Assemble(gen.EncodeBlock(v2))
		}
	case 4: // trailing bytes after the record
		apk = append(apk, make([]byte, 1+c.Choose("trailing", 4))...)
	case 5: // file cut at the end
		apk = apk[:len(apk)-1-c.Choose("cut", 22)]
	case 6: // tiny files
		n := c.Choose("bytes", 60)
		b := make([]byte, 0, n)
		if n >= 22 {
			b = append(b, make([]byte, n-22)...)
			b = append(b, gen.Cat([]byte("PK\x05\x06"), make([]byte, 18))...)
			le.PutUint32(b[n-22+16:], uint32(c.Choose("cd", n-21)))
			le.PutUint32(b[n-22+12:], uint32(n-22)-le.Uint32(b[n-22+16:]))
		} else {
			b = b[:n]
		}
		apk = b
	}
	c.State(apk)
	judgeBlock(c, apk, 24, anyMax)
	judgeBlock(c, apk, 24, 27)
	judgeBlock(c, apk, 1, 23)
}

func init() {
	register(&Check{
		ID:   "C17",
		Rule: "all pair sequences, framing field values, comment classes and fake records within the bounds; a state is a distinct file",
		Spaces: []*mc.Space{
			{Name: "pairs", Doc: "sequences of up to 4 (thorough 5) out of 10 pairs, valid, broken, unknown and empty", Run: c17Pairs},
			{Name: "perms", Doc: "all orders of six pairs", Run: c17Perms},
			{Name: "sizes", Doc: "18 pair and padding sizes x kinds x positions x a complete nested block", Run: c17Sizes},
			{Name: "frame", Doc: "header, footer and pair sizes at 29 boundary values, every framing bit, tails, cuts and gaps", Run: c17Frame},
			{Name: "comments", Doc: "33 comment lengths x 5 contents", Run: c17Comments},
			{Name: "fakes", Doc: "fake end-of-directory records in comments at every alignment x lengths x offsets", Run: c17Fakes},
			{Name: "limit", Doc: "every file size around the largest comment's x 7 comment lengths", Run: c17Limit},
			{Name: "bare", Doc: "0-39 bytes before the block x comment x minimal, cut and oversized blocks", Run: c17Bare},
			{Name: "layout", Doc: "directory offset and size boundaries, zip64 locators, trailing bytes, truncation, tiny files", Run: c17Layout},
		},
	})
}
