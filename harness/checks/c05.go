package checks

import (
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// c05World is a file under attack.
type c05World struct {
	sec    gen.Sections
	pairs  []gen.Pair
	jar    *ref.Jar
	frame  int  // 0 intact, 1 no block, 2 bad magic, 3 header size, 4 footer size, 5 zip64 locator
	hidden bool // some attack happened
}

func (w *c05World) bytes() []byte {
	if w.frame == 1 || (len(w.pairs) == 0 && w.frame == 0) {
		return w.sec.Assemble(nil)
	}
	blk := gen.EncodeBlock(w.pairs...)
	switch w.frame {
	case 2:
		blk = flip(blk, len(blk)-1, 1)
	case 3:
		blk = flip(blk, 0, 1)
	case 4:
		blk = flip(blk, len(blk)-24, 1)
	}
	sec := w.sec
	if w.frame == 5 {
		sec.CD = gen.Cat(sec.CD[:len(sec.CD)-20], gen.LE32(0x07064b50), sec.CD[len(sec.CD)-16:])
	}
	return sec.Assemble(blk)
}

var c05IDs = []uint32{gen.IDV2, gen.IDV3, gen.IDV31}

type c05Op struct {
	name string
	do   func(w *c05World)
}

var c05Ops = func() []c05Op {
	var ops []c05Op
	for i, id := range c05IDs {
		n := []string{"v2", "v3", "v31"}[i]
		each := func(f func(p *gen.Pair)) func(w *c05World) {
			return func(w *c05World) {
				w.pairs = append([]gen.Pair(nil), w.pairs...)
				for k := range w.pairs {
					if w.pairs[k].ID == id {
						f(&w.pairs[k])
					}
				}
			}
		}
		ops = append(ops,
			c05Op{"remove " + n, func(w *c05World) {
				var out []gen.Pair
				for _, p := range w.pairs {
					if p.ID != id {
						out = append(out, p)
					}
				}
				w.pairs = out
			}},
			c05Op{"rename " + n, each(func(p *gen.Pair) { p.ID ^= 0x100 })},
			c05Op{"empty " + n, each(func(p *gen.Pair) { p.Val = nil })},
			c05Op{"no signers in " + n, each(func(p *gen.Pair) { p.Val = gen.LE32(0) })},
			c05Op{"cut " + n, each(func(p *gen.Pair) { p.Val = p.Val[:len(p.Val)/2] })},
			c05Op{"break " + n, each(func(p *gen.Pair) {
				if len(p.Val) > 30 {
					p.Val = flipIn(p.Val, len(p.Val)/2)
				}
			})},
			c05Op{"pad over " + n, each(func(p *gen.Pair) { p.ID = gen.IDPadding })},
		)
	}
	for k, n := range []string{"drop block", "break magic", "break header size", "break footer size", "fake zip64 locator"} {
		ops = append(ops, c05Op{n, func(w *c05World) { w.frame = k + 1 }})
	}
	ops = append(ops, c05Op{"reverse pairs", func(w *c05World) {
		var out []gen.Pair
		for i := len(w.pairs) - 1; i >= 0; i-- {
			out = append(out, w.pairs[i])
		}
		w.pairs = out
	}}, c05Op{"duplicate last pair", func(w *c05World) {
		if n := len(w.pairs); n > 0 {
			w.pairs = append(append([]gen.Pair(nil), w.pairs...), w.pairs[n-1])
		}
	}}, c05Op{"foreign pair first", func(w *c05World) {
		w.pairs = append([]gen.Pair{{ID: gen.IDUnknown1, Val: []byte("x")}}, w.pairs...)
	}})
	return ops
}()

// c05Bases are the multi-scheme signing combinations with protections recorded by the signer.
var c05Bases = func() []multiAPK {
	var out []multiAPK
	for mask := 1; mask < 16; mask++ {
		m := multiAPK{app: gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}, v3max: 0x7fffffff}
		var ids []string
		for i := range m.st {
			if mask>>i&1 != 0 {
				m.st[i] = stValid
			}
		}
		if m.st[3] == stValid && m.st[2] != stValid {
			continue // v3.1 needs v3
		}
		if m.st[1] == stValid {
			ids = append(ids, "2")
		}
		if m.st[2] == stValid {
			ids = append(ids, "3")
			if m.st[1] == stValid {
				m.strip = []gen.Attr{{ID: gen.AttrStrip, Val: gen.LE32(3)}}
			}
		}
		if m.st[3] == stValid {
			m.v3max = 32
			m.attrMin = u32p(33)
		}
		m.apkSig = strings.Join(ids, ", ")
		out = append(out, m)
	}
	return out
}()

type c05Built struct {
	sec   gen.Sections
	pairs []gen.Pair
	jar   *ref.Jar
	m     multiAPK
}

var c05Cache = func() func(i int) c05Built {
	built := make([]*c05Built, len(c05Bases))
	var mu = make(chan struct{}, 1)
	return func(i int) c05Built {
		mu <- struct{}{}
		defer func() { <-mu }()
		if built[i] == nil {
			s, p, j := c05Bases[i].parts()
			built[i] = &c05Built{s, p, j, c05Bases[i]}
		}
		return *built[i]
	}
}()

var c05Ranges = [][2]int32{{-1, anyMax}, {1, 23}, {1, 24}, {1, 27}, {1, 28}, {1, 32}, {1, 33}, {23, 34}, {24, 24}, {24, 27}, {24, 28}, {24, 32}, {24, 33}, {24, anyMax}, {27, 27}, {27, 28}, {28, 28}, {28, 32}, {28, 33}, {28, anyMax}, {32, 32}, {33, 33}, {33, anyMax}, {34, 40}}

// intact tells which schemes still have their signer's own, unhidden bytes.
func (w *c05World) intact(b c05Built) (s [4]bool) {
	s[0] = b.m.st[0] == stValid
	if w.frame != 0 {
		return
	}
	for _, p := range w.pairs {
		for i, id := range c05IDs {
			if p.ID != id {
				continue
			}
			for _, o := range b.pairs {
				if o.ID == id && string(o.Val) == string(p.Val) {
					s[i+1] = true
				}
			}
		}
	}
	return
}

// c05Attacks explores attacker histories.
func c05Attacks(c *mc.Ctx) {
	bi := c.Choose("base", len(c05Bases))
	b := c05Cache(bi)
	w := &c05World{sec: b.sec, pairs: b.pairs, jar: b.jar}
	depth := 2
	if c.Deep() {
		depth = 3
	}
	last := 0
	for i := 0; i < depth; i++ {
		op := c.Choose("op", len(c05Ops)+1)
		if op == 0 {
			break
		}
		if i > 0 && op == last {
			c.Skip()
		}
		last = op
		c05Ops[op-1].do(w)
		w.hidden = true
		c.Label("%s", c05Ops[op-1].name)
	}
	c.Label("%s", b.m)
	apk := w.bytes()
	c.State(apk)
	in := w.intact(b)
	for _, r := range c05Ranges {
		want, o := judgeFull(c, apk, b.jar, appOf(b.m.app), r[0], r[1])
		lo := want.Min
		// what the recorded protections promise, independently of the model of the decision
		had := [4]bool{}
		for i := range had {
			had[i] = b.m.st[i] == stValid
		}
		uses := func(lvl int32) bool { return r[1] >= lvl && lo <= r[1] }
		if o.Accept && o.Scheme == 1 && had[0] && (had[1] && uses(24) || had[2] && uses(28)) {
			c.Failf("<%d;%d>: accepted by v1 although the signer recorded newer signatures and all of them are gone", r[0], r[1])
		}
		if o.Accept && o.Scheme == 2 && had[2] && !in[2] && uses(28) && lo >= 28 {
			c.Failf("<%d;%d>: accepted by v2 although the recorded v3 signature is gone", r[0], r[1])
		}
		if o.Accept && o.Scheme == 3 && had[3] && !in[3] && uses(33) {
			c.Failf("<%d;%d>: accepted by v3 although the recorded v3.1 signature is gone", r[0], r[1])
		}
		if !w.hidden && lo >= 24 && !o.Accept && r[1] >= 28 && (had[2] || had[1]) {
			c.Failf("<%d;%d>: untouched APK rejected: %s", r[0], r[1], o.Err)
		}
		if len(c.Fails()) > 0 {
			return
		}
	}
}

// c05Header explores the X-Android-APK-Signed header.
func c05Header(c *mc.Ctx) {
	val := mc.Pick(c, "value", "", "1", "2", "3", "2, 3", "3, 2", "2,3", "1,2", " 2 ", ",2", "2,", "2;3", "x,2", "x", "02", "+2", "-2", "22", "0x2", "2147483648, 2", "99999999999999999999,2", "4294967298", "2 3", "1, 3", "31", "4")
	m := multiAPK{app: gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}}
	m.st[0] = stValid
	m.v1keys = []*gen.Key{gen.K("rsa1024-0")}
	which := 0
	switch c.Choose("signers", 3) {
	case 1:
		m.v1keys = append(m.v1keys, gen.K("rsa1024-1"))
	case 2:
		m.v1keys = append(m.v1keys, gen.K("rsa1024-1"))
		which = 1
	}
	n := -1
	opt := c.Choose("signature file", 4)
	m.sigFiles = func(s *v1Signer) {
		n++
		if n != which {
			return
		}
		s.SF.APKSigned = val
		switch opt {
		case 1:
			s.SF.NoVersion = true
		case 2:
			s.Bad = true
		case 3:
			s.SF.NoWhole = true
		}
	}
	left := c.Choose("block", 4)
	switch left {
	case 1:
		m.st[1] = stValid
	case 2:
		m.st[2] = stValid
	case 3:
		m.st[1], m.st[2] = stBadSig, stAbsent
	}
	apk, j := m.build()
	c.State(apk)
	c.Label("value %q", val)
	for _, r := range [][2]int32{{1, 23}, {1, 24}, {1, 27}, {1, 28}, {1, anyMax}, {23, 23}, {24, 24}, {24, 27}, {24, 28}, {28, 33}, {28, anyMax}} {
		judgeFull(c, apk, j, appOf(m.app), r[0], r[1])
	}
}

// c05Strip explores the v2 stripping protection attribute.
func c05Strip(c *mc.Ctx) {
	vals := [][]byte{gen.LE32(3), gen.LE32(31), gen.LE32(2), gen.LE32(1), gen.LE32(0), gen.LE32(4), gen.LE32(0xffffffff), gen.LE32(0x80000003), nil, {3}, {3, 0, 0}, {3, 0, 0, 0, 9}, gen.LE32(0xf05368c0), gen.LE32(0x103)}
	mk := func(name string) []gen.Attr {
		k := c.Choose(name, len(vals)+1)
		if k == 0 {
			return nil
		}
		return []gen.Attr{{ID: gen.AttrStrip, Val: vals[k-1]}}
	}
	sec := tinySec
	s1 := gen.SignerSpec{Key: gen.EC(0), Attrs: mk("first")}
	signers := []gen.SignerSpec{s1}
	switch c.Choose("more", 5) {
	case 1: // the same signer carries another attribute before it
		signers[0].Attrs = append([]gen.Attr{{ID: 0x1234, Val: []byte{9}}}, signers[0].Attrs...)
	case 2:
		signers = append(signers, gen.SignerSpec{Key: gen.EC(1)})
	case 3: // only the second signer is protected
		signers = []gen.SignerSpec{{Key: gen.EC(1)}, s1}
	case 4: // two attributes in one signer
		signers[0].Attrs = append([]gen.Attr{{ID: gen.AttrStrip, Val: gen.LE32(3)}}, signers[0].Attrs...)
	}
	pairs := []gen.Pair{gen.V2(sec, signers...)}
	v3 := gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: 0x7fffffff})
	v31 := gen.V31(sec, gen.SignerSpec{Key: gen.EC(2), Min: 33, Max: 0x7fffffff})
	what := c.Choose("others", 11)
	switch what {
	case 1:
		pairs = append(pairs, v3)
	case 2:
		pairs = append(pairs, v3, v31)
	case 3: // v3 broken
		pairs = append(pairs, gen.Pair{ID: gen.IDV3, Val: []byte{1, 2, 3, 4, 5}})
	case 4:
		pairs = append(pairs, gen.Pair{ID: gen.IDV3})
	case 5: // hidden under another id
		pairs = append(pairs, gen.Pair{ID: gen.IDV3 ^ 1, Val: v3.Val})
	case 6:
		pairs = append(pairs, v31)
	case 7:
		pairs = append([]gen.Pair{v31, v3}, pairs...)
	case 8, 9, 10: // under an id that is a scheme's number or none's
		pairs = append(pairs, gen.Pair{ID: []uint32{0, 3, 4}[what-8], Val: v3.Val})
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	for _, r := range [][2]int32{{24, 24}, {24, 27}, {24, 28}, {24, 32}, {24, 33}, {24, anyMax}, {27, 28}, {28, 28}, {28, 32}, {28, 33}, {28, anyMax}, {33, anyMax}} {
		judge(c, apk, r[0], r[1])
	}
}

// c05RotMin explores the rotation-min-sdk attribute against the presence of v3.1.
func c05RotMin(c *mc.Ctx) {
	vals := [][]byte{gen.LE32(33), gen.LE32(34), gen.LE32(32), gen.LE32(28), gen.LE32(0), gen.LE32(0x7fffffff), gen.LE32(0x80000000), nil, {33, 0, 0}, {33, 0, 0, 0, 1}}
	sec := tinySec
	attr := func(name string) []gen.Attr {
		k := c.Choose(name, len(vals)+1)
		if k == 0 {
			return nil
		}
		return []gen.Attr{{ID: gen.AttrRotMinSDK, Val: vals[k-1]}}
	}
	a := attr("v3 attribute")
	max3 := mc.Pick(c, "v3 max", uint32(0x7fffffff), 32, 33)
	s3 := []gen.SignerSpec{{Key: gen.EC(0), Min: 28, Max: max3, Attrs: a}}
	if c.Bool("two v3 signers") {
		s3 = []gen.SignerSpec{{Key: gen.EC(0), Min: 28, Max: 30}, {Key: gen.EC(1), Min: 31, Max: max3, Attrs: a}}
	}
	pairs := []gen.Pair{gen.V3(sec, s3...)}
	switch c.Choose("v3.1", 6) {
	case 1:
		pairs = append(pairs, gen.V31(sec, gen.SignerSpec{Key: gen.EC(2), Min: 33, Max: 0x7fffffff}))
	case 2:
		pairs = append(pairs, gen.V31(sec, gen.SignerSpec{Key: gen.EC(2), Min: 34, Max: 0x7fffffff}))
	case 3: // own attribute on the v3.1 signer
		pairs = append(pairs, gen.V31(sec, gen.SignerSpec{Key: gen.EC(2), Min: 33, Max: 0x7fffffff, Attrs: []gen.Attr{{ID: gen.AttrRotMinSDK, Val: gen.LE32(33)}}}))
	case 4:
		pairs = append(pairs, gen.Pair{ID: gen.IDV31})
	case 5:
		pairs = append([]gen.Pair{gen.V31(sec, gen.SignerSpec{Key: gen.EC(2), Min: 36, Max: 0x7fffffff}, gen.SignerSpec{Key: gen.EC(3), Min: 33, Max: 35, Attrs: []gen.Attr{{ID: gen.AttrRotOnDev}}})}, pairs...)
	}
	if c.Bool("v2") {
		pairs = append(pairs, gen.V2(sec, gen.SignerSpec{Key: gen.EC(0), Attrs: []gen.Attr{{ID: gen.AttrStrip, Val: gen.LE32(3)}}}))
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	for _, r := range [][2]int32{{24, 27}, {24, 28}, {24, 32}, {24, 33}, {24, anyMax}, {28, 28}, {28, 32}, {28, 33}, {28, 34}, {28, anyMax}, {33, 33}, {33, anyMax}, {34, 34}} {
		judge(c, apk, r[0], r[1])
	}
}

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "all attacker histories over the multi-scheme signing combinations; a state is a distinct attacked file, judged for 24 SDK ranges",
		Spaces: []*mc.Space{
			{Name: "attacks", Doc: "11 signing combinations x all sequences of up to 2 (thorough 3) of 29 strip/rename/empty/break/hide operations x 24 SDK ranges", Run: c05Attacks},
			{Name: "header", Doc: "26 X-Android-APK-Signed values x signer positions x signature-file variants x remaining blocks x SDK ranges", Run: c05Header},
			{Name: "strip", Doc: "14 values of the stripping-protection attribute x signer/attribute positions x remaining v3/v3.1 x SDK ranges", Run: c05Strip},
			{Name: "rotmin", Doc: "10 values of the rotation-min-sdk attribute x v3 ranges x v3.1 variants x SDK ranges", Run: c05RotMin},
		},
	})
}
