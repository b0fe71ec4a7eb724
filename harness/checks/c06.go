package checks

import (
	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
)

const maxU = uint32(0x7fffffff)

var c06Req = [][2]int32{{-1, anyMax}, {1, 27}, {1, 28}, {24, 28}, {24, 30}, {24, 32}, {24, 33}, {24, anyMax}, {27, 28}, {28, 28}, {28, 29}, {28, 30}, {28, 31}, {28, 32}, {28, 33}, {28, anyMax}, {29, 30}, {29, anyMax}, {30, 30}, {30, 31}, {31, 31}, {31, 32}, {32, 33}, {32, anyMax}, {33, 33}, {33, 34}, {33, anyMax}, {34, 34}, {34, 35}, {35, anyMax}, {anyMax, anyMax}}

func c06Judge(c *mc.Ctx, pairs ...gen.Pair) {
	apk := tinySec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	for i, r := range c06Req {
		mn := r[0]
		if mn < 0 {
			mn = 24
		}
		if !c.Deep() && i%2 == 1 && r[1] != anyMax {
			continue
		}
		if i == 0 || r == [2]int32{28, 33} {
			judge(c, apk, mn, r[1])
		} else {
			judgeBlock(c, apk, mn, r[1])
		}
		if len(c.Fails()) > 0 {
			return
		}
	}
}

// c06Single has one signer whose signed and unsigned ranges vary independently.
func c06Single(c *mc.Ctx) {
	vals := []uint32{28, maxU, 1, 0, 27, 29, 33, 0xffffffff, 0x80000000}
	if c.Deep() {
		vals = append(vals, 24, 30, 32, 34, maxU-1)
	}
	s := gen.SignerSpec{Key: gen.EC(0)}
	omn, omx := mc.Pick(c, "min", vals...), mc.Pick(c, "max", vals...)
	smn, smx := mc.Pick(c, "signed min", vals...), mc.Pick(c, "signed max", vals...)
	s.Min, s.Max = smn, smx
	s.PostSign = func(r *gen.SignerRec) { r.OuterMin, r.OuterMax = omn, omx }
	c06Judge(c, gen.V3(tinySec, s))
}

// c06Pairs has signers with consistent but arbitrary ranges in every order.
func c06Pairs(c *mc.Ctx) {
	vals := []uint32{28, 29, 30, 31, 33, maxU, 0}
	n := 2
	if c.Deep() {
		vals = []uint32{0, 1, 27, 28, 29, 30, 31, 32, 33, maxU - 1, maxU}
	}
	var l []gen.SignerSpec
	for i := 0; i < n; i++ {
		mn, mx := mc.Pick(c, "min", vals...), mc.Pick(c, "max", vals...)
		if mn > mx {
			c.Skip()
		}
		l = append(l, gen.SignerSpec{Key: gen.EC(i), Min: mn, Max: mx})
	}
	pairs := []gen.Pair{gen.V3(tinySec, l...)}
	if c.Bool("v2 too") {
		pairs = append(pairs, gen.V2(tinySec, gen.SignerSpec{Key: gen.EC(5)}))
	}
	c06Judge(c, pairs...)
}

// c06Triples has three signers: boundaries shifted by one, in every order.
func c06Triples(c *mc.Ctx) {
	drop := c.Choose("dropped", 4)
	d := func(n string, v uint32, signers ...int) uint32 {
		for _, x := range signers {
			if x == drop {
				return v
			}
		}
		return v + uint32(c.Choose(n, 3)) - 1
	}
	a, end := uint32(28), maxU
	if drop != 1 {
		a = mc.Pick(c, "start", uint32(28), 1, 29)
	}
	b1, b2 := d("end 1", 30, 1), d("start 2", 31, 2)
	c1, c2 := d("end 2", 33, 2), d("start 3", 34, 3)
	if drop != 3 {
		end = mc.Pick(c, "end", maxU, 34, 35)
	}
	l := []gen.SignerSpec{{Key: gen.EC(0), Min: a, Max: b1}, {Key: gen.EC(1), Min: b2, Max: c1}, {Key: gen.EC(2), Min: c2, Max: end}}
	perms := [][3]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}}
	if !c.Deep() {
		perms = perms[:3]
	}
	if drop != 0 {
		perms = perms[:2]
	}
	perm := perms[c.Choose("order", len(perms))]
	var out []gen.SignerSpec
	for _, i := range perm {
		if drop != i+1 {
			out = append(out, l[i])
		}
	}
	c06Judge(c, gen.V3(tinySec, out...))
}

// c06Split has v3.1 signers on top of v3 signers.
func c06Split(c *mc.Ctx) {
	v31vals := []uint32{33, 34, 32, 28, 35, maxU}
	var l31 []gen.SignerSpec
	n31 := 1 + c.Choose("v3.1 signers", 2)
	if n31 == 1 {
		l31 = []gen.SignerSpec{{Key: gen.EC(5), Min: mc.Pick(c, "v31 min", append(v31vals, 1)...), Max: mc.Pick(c, "v31 max", maxU, 34, 33)}}
	} else {
		end := mc.Pick(c, "v31 end", uint32(34), 33, 35)
		start := mc.Pick(c, "v31 start", uint32(35), 34, 36)
		l31 = []gen.SignerSpec{{Key: gen.EC(5), Min: mc.Pick(c, "v31 min", uint32(33), 32, 34), Max: end}, {Key: gen.EC(6), Min: start, Max: mc.Pick(c, "v31 max", maxU, 36)}}
		if c.Deep() && c.Bool("swap") || !c.Deep() && end == 35 {
			l31[0], l31[1] = l31[1], l31[0]
		}
	}
	for _, s := range l31 {
		if s.Min > s.Max {
			c.Skip()
		}
	}
	var l3 []gen.SignerSpec
	switch c.Choose("v3 signers", 3) {
	case 0:
		l3 = []gen.SignerSpec{{Key: gen.EC(0), Min: mc.Pick(c, "v3 min", uint32(28), 29, 1), Max: mc.Pick(c, "v3 max", maxU, 32, 31, 33, 27)}}
	case 1:
		l3 = []gen.SignerSpec{{Key: gen.EC(0), Min: 28, Max: 30}, {Key: gen.EC(1), Min: mc.Pick(c, "v3 second", uint32(31), 32, 30), Max: mc.Pick(c, "v3 max", uint32(32), 33, maxU)}}
	case 2: // the v3 signer's record disagrees with itself
		s := gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: 32}
		s.PostSign = func(r *gen.SignerRec) { r.OuterMax = maxU }
		l3 = []gen.SignerSpec{s}
	}
	for _, s := range l3 {
		if s.Min > s.Max {
			c.Skip()
		}
	}
	at := c.Choose("rotation-min-sdk", 5)
	if at > 0 {
		v := []uint32{33, 34, 32, 28}[at-1]
		k := 0
		if len(l3) > 1 && c.Deep() {
			k = c.Choose("attribute on signer", len(l3))
		}
		l3[k].Attrs = []gen.Attr{{ID: gen.AttrRotMinSDK, Val: gen.LE32(v)}}
	}
	c06Judge(c, gen.V31(tinySec, l31...), gen.V3(tinySec, l3...))
}

// c06Split31Record varies the v3.1 signer's own signed and unsigned ranges.
func c06Split31Record(c *mc.Ctx) {
	vals := []uint32{33, maxU, 32, 34, 0, 0xffffffff}
	s := gen.SignerSpec{Key: gen.EC(5)}
	omn, omx := mc.Pick(c, "min", vals...), mc.Pick(c, "max", vals...)
	s.Min, s.Max = mc.Pick(c, "signed min", vals...), mc.Pick(c, "signed max", vals...)
	s.PostSign = func(r *gen.SignerRec) { r.OuterMin, r.OuterMax = omn, omx }
	c06Judge(c, gen.V31(tinySec, s), gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: mc.Pick(c, "v3 max", uint32(32), maxU)}))
}

func init() {
	register(&Check{
		ID:   "C06",
		Rule: "all SDK range assignments over boundary values; a state is a distinct block, judged for 31 requested ranges",
		Spaces: []*mc.Space{
			{Name: "single", Doc: "one v3 signer: 9^4 (thorough 14^4) signed and unsigned bounds x 31 requested ranges", Run: c06Single},
			{Name: "pairs", Doc: "two v3 signers with all range pairs over 6 (thorough 10) values, with and without v2", Run: c06Pairs},
			{Name: "triples", Doc: "three v3 signers, every boundary off by one, every order, every signer dropped", Run: c06Triples},
			{Name: "split", Doc: "one or two v3.1 signers over one or two v3 signers, boundaries and rotation-min-sdk varied", Run: c06Split},
			{Name: "split-record", Doc: "signed and unsigned bounds of a v3.1 signer", Run: c06Split31Record},
		},
	})
}
