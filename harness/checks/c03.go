package checks

import (
	"fmt"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
)

// judge checks the signing block and, for ranges that need no v1 signature, the whole verification.
func judge(c *mc.Ctx, apk []byte, min, max int32) {
	want, _ := judgeBlock(c, apk, min, max)
	if min < 24 || want.Unsure || want.TooShort {
		return
	}
	o := impl.Verify(apk, min, max)
	c.Trace(1)
	where := fmt.Sprintf("full verification sdk <%d;%d>", min, max)
	switch {
	case o.Panic != "":
		c.Failf("%s: %s", where, o.Panic)
	case want.NotFound: // v1 decides, none of these files has one
		if o.Accept {
			c.Failf("%s: accepted without any signature", where)
		}
	case o.Accept != want.Accept:
		c.Failf("%s: accepted=%v (%s), must be %v (%s)", where, o.Accept, o.Err, want.Accept, want.Why)
	case want.Accept:
		if o.Scheme != want.Scheme {
			c.Failf("%s: scheme %d, must be %d", where, o.Scheme, want.Scheme)
		}
		if !impl.SameChains(o.Certs, want.Certs) {
			c.Failf("%s: certificates %s, must be %s", where, showChains(o.Certs), showChains(want.Certs))
		}
	}
}

// hit applies one of the deviations named.
type mut struct {
	name string
	f    func(r *gen.SignerRec)
}

func devMut(c *mc.Ctx, group string, r *gen.SignerRec, ms []mut) {
	i := c.Dev(group, len(ms)+1)
	if i > 0 {
		c.Label("%s", ms[i-1].name)
		ms[i-1].f(r)
	}
}

func flipIn(b []byte, pos int) []byte {
	if len(b) == 0 {
		return b
	}
	if pos < 0 {
		pos += len(b)
	}
	if pos < 0 || pos >= len(b) {
		pos = len(b) / 2
	}
	return flip(b, pos, 0x10)
}

// other is another key of the same type.
func other(k *gen.Key) *gen.Key {
	switch {
	case k.IsRSA():
		if k.Name == "rsa1024-1" {
			return gen.K("rsa1024-2")
		}
		return gen.K("rsa1024-1")
	case k.IsDSA():
		if k.Name == "dsa1024-1" {
			return gen.K("dsa1024-0")
		}
		return gen.K("dsa1024-1")
	}
	if k.Name == "ec256-9" {
		return gen.EC(8)
	}
	return gen.EC(9)
}

func preSignMuts(k *gen.Key) (digests, certs, misc []mut) {
	digests = []mut{
		{"digest flipped and signed", func(r *gen.SignerRec) { r.Digests[0].Bytes = flipIn(r.Digests[0].Bytes, 0) }},
		{"last digest byte flipped and signed", func(r *gen.SignerRec) { r.Digests[0].Bytes = flipIn(r.Digests[0].Bytes, -1) }},
		{"digest truncated", func(r *gen.SignerRec) { r.Digests[0].Bytes = r.Digests[0].Bytes[:16] }},
		{"digest empty", func(r *gen.SignerRec) { r.Digests[0].Bytes = nil }},
		{"digest extended", func(r *gen.SignerRec) { r.Digests[0].Bytes = append(clone(r.Digests[0].Bytes), 0) }},
		{"no digests", func(r *gen.SignerRec) { r.Digests = nil }},
		{"first digest dropped", func(r *gen.SignerRec) { r.Digests = r.Digests[1:] }},
		{"last digest dropped", func(r *gen.SignerRec) { r.Digests = r.Digests[:len(r.Digests)-1] }},
		{"extra digest", func(r *gen.SignerRec) {
			r.Digests = append(r.Digests, gen.AlgBytes{Alg: gen.AlgEC512, Bytes: tinySec.Digest(2)})
		}},
		{"extra unknown digest", func(r *gen.SignerRec) {
			r.Digests = append(r.Digests, gen.AlgBytes{Alg: gen.AlgUnknown, Bytes: []byte("x")})
		}},
		{"first digest algorithm replaced", func(r *gen.SignerRec) {
			a := gen.AlgPSS256
			if r.Digests[0].Alg == a {
				a = gen.AlgRSA256
			}
			r.Digests[0].Alg = a
		}},
		{"digest order reversed", func(r *gen.SignerRec) {
			n := len(r.Digests)
			for i := 0; i < n/2; i++ {
				r.Digests[i], r.Digests[n-1-i] = r.Digests[n-1-i], r.Digests[i]
			}
		}},
		{"digest duplicated", func(r *gen.SignerRec) { r.Digests = append(r.Digests, r.Digests[0]) }},
		{"digest duplicated wrong", func(r *gen.SignerRec) {
			d := r.Digests[0]
			d.Bytes = flipIn(d.Bytes, 3)
			r.Digests = append(r.Digests, d)
		}},
		{"digest record short", func(r *gen.SignerRec) { r.Digests[0].Raw = []byte{1, 2, 3, 4, 5, 6, 7} }},
	}
	certs = []mut{
		{"first certificate of another key", func(r *gen.SignerRec) { r.Certs = [][]byte{gen.SelfCert(other(k))} }},
		{"other certificate in front", func(r *gen.SignerRec) { r.Certs = append([][]byte{gen.SelfCert(other(k))}, r.Certs...) }},
		{"other certificate behind", func(r *gen.SignerRec) { r.Certs = append(r.Certs, gen.SelfCert(other(k))) }},
		{"same certificate twice", func(r *gen.SignerRec) { r.Certs = append(r.Certs, r.Certs[0]) }},
		{"three certificates behind", func(r *gen.SignerRec) {
			r.Certs = append(r.Certs, gen.SelfCert(gen.EC(5)), gen.SelfCert(gen.EC(6)), gen.SelfCert(gen.EC(7)))
		}},
		{"no certificates", func(r *gen.SignerRec) { r.Certs = nil }},
		{"empty certificate", func(r *gen.SignerRec) { r.Certs = [][]byte{{}} }},
		{"truncated certificate", func(r *gen.SignerRec) { r.Certs[0] = r.Certs[0][:len(r.Certs[0])-1] }},
		{"certificate behind truncated", func(r *gen.SignerRec) {
			x := gen.SelfCert(other(k))
			r.Certs = append(r.Certs, x[:len(x)-1])
		}},
	}
	misc = []mut{
		{"unknown attribute", func(r *gen.SignerRec) {
			r.Attrs = append(append([]gen.Attr{}, r.Attrs...), gen.Attr{ID: 0x1234, Val: []byte("?")})
		}},
		{"empty unknown attribute", func(r *gen.SignerRec) {
			r.Attrs = append(append([]gen.Attr{}, r.Attrs...), gen.Attr{ID: 0x1234})
		}},
		{"junk after the signed data", func(r *gen.SignerRec) { r.SignedTail = []byte{0, 0, 0, 0} }},
		{"junk after the signed data 2", func(r *gen.SignerRec) { r.SignedTail = []byte("junk") }},
	}
	if k.IsEC() {
		// a certificate for the same public key but another name still binds the key
		certs = append(certs, mut{"another certificate of the same key", func(r *gen.SignerRec) {
			r.Certs = [][]byte{gen.CertSpec{Key: k, Issuer: gen.CN("other"), Subject: gen.CN("other")}.DER()}
		}})
	}
	return
}

func postSignMuts(k *gen.Key) (sigs, rec []mut) {
	o := other(k)
	sigs = []mut{
		{"signature: first byte", func(r *gen.SignerRec) { r.Sigs[0].Bytes = flipIn(r.Sigs[0].Bytes, 0) }},
		{"signature: middle byte", func(r *gen.SignerRec) { r.Sigs[0].Bytes = flipIn(r.Sigs[0].Bytes, len(r.Sigs[0].Bytes)/2) }},
		{"signature: last byte", func(r *gen.SignerRec) { r.Sigs[0].Bytes = flipIn(r.Sigs[0].Bytes, -1) }},
		{"signature empty", func(r *gen.SignerRec) { r.Sigs[0].Bytes = nil }},
		{"signature truncated", func(r *gen.SignerRec) { r.Sigs[0].Bytes = r.Sigs[0].Bytes[:len(r.Sigs[0].Bytes)-1] }},
		{"signature of another key", func(r *gen.SignerRec) { r.Sigs[0].Bytes = o.SignAlg(r.Sigs[0].Alg, r.SignedData) }},
		{"signature over other data", func(r *gen.SignerRec) {
			r.Sigs[0].Bytes = k.SignAlg(r.Sigs[0].Alg, append(clone(r.SignedData), 0))
		}},
		{"signature over a prefix", func(r *gen.SignerRec) {
			r.Sigs[0].Bytes = k.SignAlg(r.Sigs[0].Alg, r.SignedData[:len(r.SignedData)-1])
		}},
		{"all signatures dropped", func(r *gen.SignerRec) { r.Sigs = nil }},
		{"first signature dropped", func(r *gen.SignerRec) { r.Sigs = r.Sigs[1:] }},
		{"last signature dropped", func(r *gen.SignerRec) { r.Sigs = r.Sigs[:len(r.Sigs)-1] }},
		{"signature duplicated", func(r *gen.SignerRec) { r.Sigs = append(r.Sigs, r.Sigs[0]) }},
		{"unknown signature in front", func(r *gen.SignerRec) {
			r.Sigs = append([]gen.AlgBytes{{Alg: gen.AlgUnknown, Bytes: []byte("x")}}, r.Sigs...)
		}},
		{"unknown signature behind", func(r *gen.SignerRec) {
			r.Sigs = append(r.Sigs, gen.AlgBytes{Alg: gen.AlgUnknown, Bytes: []byte("x")})
		}},
		{"stronger garbage signature behind", func(r *gen.SignerRec) {
			r.Sigs = append(r.Sigs, gen.AlgBytes{Alg: gen.AlgRSA512, Bytes: []byte("x")})
		}},
		{"algorithm of the signature replaced", func(r *gen.SignerRec) {
			if r.Sigs[0].Alg == gen.AlgPSS256 {
				r.Sigs[0].Alg = gen.AlgRSA256
			} else {
				r.Sigs[0].Alg = gen.AlgPSS256
			}
		}},
		{"only unknown signatures", func(r *gen.SignerRec) {
			r.Sigs = []gen.AlgBytes{{Alg: gen.AlgUnknown, Bytes: []byte("x")}, {Alg: gen.AlgUnknownHi, Bytes: []byte("y")}}
		}},
		{"signature order reversed", func(r *gen.SignerRec) {
			n := len(r.Sigs)
			for i := 0; i < n/2; i++ {
				r.Sigs[i], r.Sigs[n-1-i] = r.Sigs[n-1-i], r.Sigs[i]
			}
		}},
		{"signature record short", func(r *gen.SignerRec) { r.Sigs[0].Raw = []byte{1, 2, 3, 4, 5, 6, 7} }},
		{"signature length too long", func(r *gen.SignerRec) {
			r.Sigs[0].Raw = gen.Cat(gen.LE32(r.Sigs[0].Alg), gen.LE32(uint32(len(r.Sigs[0].Bytes)+1)), r.Sigs[0].Bytes)
		}},
	}
	rec = []mut{
		{"public key of another key", func(r *gen.SignerRec) { r.PubKey = o.SPKI }},
		{"public key and signature of another key", func(r *gen.SignerRec) {
			r.PubKey = o.SPKI
			for i := range r.Sigs {
				r.Sigs[i].Bytes = o.SignAlg(r.Sigs[i].Alg, r.SignedData)
			}
		}},
		{"public key of another type", func(r *gen.SignerRec) {
			if k.IsEC() {
				r.PubKey = gen.K("rsa1024-0").SPKI
			} else {
				r.PubKey = gen.EC(0).SPKI
			}
		}},
		{"public key with a trailing byte", func(r *gen.SignerRec) { r.PubKey = append(clone(r.PubKey), 0) }},
		{"public key truncated", func(r *gen.SignerRec) { r.PubKey = r.PubKey[:len(r.PubKey)-1] }},
		{"public key empty", func(r *gen.SignerRec) { r.PubKey = nil }},
		{"public key flipped", func(r *gen.SignerRec) { r.PubKey = flipIn(r.PubKey, -1) }},
		{"signed data: first byte", func(r *gen.SignerRec) { r.SignedData = flipIn(r.SignedData, 0) }},
		{"signed data: digest byte", func(r *gen.SignerRec) { r.SignedData = flipIn(r.SignedData, 20) }},
		{"signed data: certificate byte", func(r *gen.SignerRec) { r.SignedData = flipIn(r.SignedData, 150) }},
		{"signed data: last byte", func(r *gen.SignerRec) { r.SignedData = flipIn(r.SignedData, -1) }},
		{"signed data: byte appended", func(r *gen.SignerRec) { r.SignedData = append(clone(r.SignedData), 0) }},
		{"signed data: byte removed", func(r *gen.SignerRec) { r.SignedData = r.SignedData[:len(r.SignedData)-1] }},
		{"signed data empty", func(r *gen.SignerRec) { r.SignedData = nil }},
		{"junk after the signer", func(r *gen.SignerRec) { r.Tail = []byte("junk") }},
		{"signer empty", func(r *gen.SignerRec) { r.Raw = []byte{} }},
		{"signer truncated", func(r *gen.SignerRec) { x := r.Encode(); r.Raw = x[:len(x)-1] }},
		{"signer cut in half", func(r *gen.SignerRec) { x := r.Encode(); r.Raw = x[:len(x)/2] }},
	}
	return
}

func v3Muts() []mut {
	return []mut{
		{"outer min differs", func(r *gen.SignerRec) { r.OuterMin++ }},
		{"outer max differs", func(r *gen.SignerRec) { r.OuterMax-- }},
		{"inverted range", func(r *gen.SignerRec) { r.OuterMin, r.OuterMax = 40, 30 }},
	}
}

// schemePairs builds v2 / v3 / v3.1+v3 pairs out of encoded signers.
func schemePairs(scheme int, enc [][]byte, sec gen.Sections) []gen.Pair {
	switch scheme {
	case 2:
		return []gen.Pair{{ID: gen.IDV2, Val: gen.SchemeBlock(enc...)}}
	case 3:
		return []gen.Pair{{ID: gen.IDV3, Val: gen.SchemeBlock(enc...)}}
	}
	base := gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: 32})
	return []gen.Pair{base, {ID: gen.IDV31, Val: gen.SchemeBlock(enc...)}}
}

// ranges splits [lo, max] for n v3 signers.
func ranges(lo uint32, n, i int) (uint32, uint32) {
	mn := lo + uint32(2*i)
	mx := mn + 1
	if i == n-1 {
		mx = 0x7fffffff
	}
	return mn, mx
}

func c03Signers(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	n := 1 + c.Choose("signers", 3)
	t := c.Choose("target", n)
	kt := mc.Pick(c, "key", "ec256-1", "rsa2048-0", "dsa1024-0")
	two := c.Bool("two algorithms")
	if n > 1 && !c.Deep() || n == 1 && kt != "ec256-1" && scheme == 31 && !c.Deep() {
		c.Budget(1)
	}
	c.Label("scheme %d, %d signers, target %d %s", scheme, n, t, kt)
	sec := tinySec
	var enc [][]byte
	for i := 0; i < n; i++ {
		k := gen.EC(2 + i)
		s := gen.SignerSpec{Key: k}
		lo := uint32(28)
		if scheme == 31 {
			lo = 33
		}
		s.Min, s.Max = ranges(lo, n, i)
		if i == t {
			k = gen.K(kt)
			s.Key = k
			if two {
				switch {
				case k.IsEC():
					s.Algs = []uint32{gen.AlgEC256, gen.AlgEC512}
				case k.IsRSA():
					s.Algs = []uint32{gen.AlgRSA512, gen.AlgPSS256}
				default:
					s.Algs = []uint32{gen.AlgDSA256, gen.AlgUnknown}
				}
			}
			dg, ce, mi := preSignMuts(k)
			sg, re := postSignMuts(k)
			s.PreSign = func(r *gen.SignerRec) {
				devMut(c, "digests", r, dg)
				devMut(c, "certs", r, ce)
				devMut(c, "signed", r, mi)
			}
			s.PostSign = func(r *gen.SignerRec) {
				devMut(c, "sigs", r, sg)
				devMut(c, "rec", r, re)
				if scheme != 2 {
					devMut(c, "sdk", r, v3Muts())
				}
			}
		}
		enc = append(enc, s.Build(sec, scheme != 2))
	}
	pairs := schemePairs(scheme, enc, sec)
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	judge(c, apk, 24, anyMax)
}

func c03Algs(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3)
	k := gen.K(mc.Pick(c, "key", "ec256-1", "rsa2048-0", "dsa1024-0", "ec384-0", "dsa2048-0"))
	pool := []uint32{}
	for _, a := range gen.AllAlgs {
		if gen.AlgFits(k, a) {
			pool = append(pool, a)
		}
	}
	if k.IsRSA() {
		pool = append(pool, gen.AlgEC256)
	} else {
		pool = append(pool, gen.AlgRSA512)
	}
	pool = append(pool, gen.AlgUnknown)
	max := 2
	if c.Deep() || k.Name == "ec256-1" {
		max = 3
	}
	n := 1 + c.Choose("count", max)
	var algs []uint32
	for i := 0; i < n; i++ {
		algs = append(algs, pool[c.Choose("alg", len(pool))])
	}
	bad := c.Choose("corrupt", 2*n+1)
	names := ""
	for _, a := range algs {
		names += gen.AlgName(a) + " "
	}
	c.Label("%s with %scorrupt %d", k.Name, names, bad)
	s := gen.SignerSpec{Key: k, Algs: algs, Min: 28, Max: 0x7fffffff}
	s.PreSign = func(r *gen.SignerRec) {
		if bad > n {
			r.Digests[bad-n-1].Bytes = flipIn(r.Digests[bad-n-1].Bytes, 0)
		}
	}
	s.PostSign = func(r *gen.SignerRec) {
		if bad > 0 && bad <= n {
			r.Sigs[bad-1].Bytes = flipIn(r.Sigs[bad-1].Bytes, -1)
		}
	}
	apk := alignedSec.Assemble(gen.EncodeBlock(schemePairs(scheme, [][]byte{s.Build(alignedSec, scheme != 2)}, alignedSec)...))
	c.State(apk)
	judge(c, apk, 24, anyMax)
}

// signers with different digest kinds and values: all must hold, equal kinds must agree.
func c03Agree(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3)
	n := 2 + c.Choose("signers", 2)
	var enc [][]byte
	desc := ""
	for i := 0; i < n; i++ {
		alg := mc.Pick(c, "alg", gen.AlgEC256, gen.AlgEC512, gen.AlgVEC256)
		wrong := c.Choose("digest", 3)
		desc += fmt.Sprintf("%s/%d ", gen.AlgName(alg), wrong)
		mn, mx := ranges(28, n, i)
		s := gen.SignerSpec{Key: gen.EC(i), Algs: []uint32{alg}, Min: mn, Max: mx, PreSign: func(r *gen.SignerRec) {
			if wrong > 0 {
				r.Digests[0].Bytes = flipIn(r.Digests[0].Bytes, wrong)
			}
		}}
		enc = append(enc, s.Build(alignedSec, scheme != 2))
	}
	c.Label("%s", desc)
	apk := alignedSec.Assemble(gen.EncodeBlock(schemePairs(scheme, enc, alignedSec)...))
	c.State(apk)
	judge(c, apk, 24, anyMax)
}

func c03Count(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	n := c.Choose("signers", 14)
	bad := c.Choose("invalid", n+1) // 0: none
	how := 0
	if bad > 0 {
		how = c.Choose("how", 3)
	}
	dup := n >= 2 && c.Bool("same key twice")
	var enc [][]byte
	for i := 0; i < n; i++ {
		lo := uint32(28)
		if scheme == 31 {
			lo = 33
		}
		mn, mx := ranges(lo, n, i)
		k := gen.EC(i % 10)
		if dup && i == 1 {
			k = gen.EC(0)
		}
		s := gen.SignerSpec{Key: k, Min: mn, Max: mx}
		if bad == i+1 {
			s.PostSign = func(r *gen.SignerRec) {
				switch how {
				case 0:
					r.Sigs[0].Bytes = flipIn(r.Sigs[0].Bytes, -1)
				case 1:
					r.PubKey = gen.EC(9 - i%10).SPKI
				case 2:
					r.Raw = []byte{0, 0, 0, 0}
				}
			}
		}
		enc = append(enc, s.Build(tinySec, scheme != 2))
	}
	c.Label("scheme %d: %d signers, invalid %d how %d", scheme, n, bad, how)
	apk := tinySec.Assemble(gen.EncodeBlock(schemePairs(scheme, enc, tinySec)...))
	c.State(apk)
	judge(c, apk, 24, anyMax)
}

// baseBlocks are honest scheme values whose bytes get mutated one by one.
func baseBlocks(i int) (gen.Sections, []gen.Pair, int) {
	sec := tinySec
	lin := gen.MakeLineage(gen.EC(3), gen.EC(4), gen.EC(5))
	switch i {
	case 0:
		return sec, []gen.Pair{gen.V2(sec, gen.SignerSpec{Key: gen.EC(0), Algs: []uint32{gen.AlgEC256, gen.AlgEC512}}, gen.SignerSpec{Key: gen.EC(1)})}, 0
	case 1:
		return sec, []gen.Pair{gen.V3(sec, gen.SignerSpec{Key: gen.EC(5), Min: 28, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(lin)}})}, 0
	case 2:
		v31 := gen.V31(sec, gen.SignerSpec{Key: gen.EC(5), Min: 33, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(lin)}})
		v3 := gen.V3(sec, gen.SignerSpec{Key: gen.EC(3), Min: 28, Max: 32, Attrs: []gen.Attr{{ID: gen.AttrRotMinSDK, Val: gen.LE32(33)}}})
		return sec, []gen.Pair{v3, v31}, 1
	case 3:
		v31 := gen.V31(sec, gen.SignerSpec{Key: gen.EC(5), Min: 33, Max: 0x7fffffff})
		v3 := gen.V3(sec, gen.SignerSpec{Key: gen.EC(3), Min: 28, Max: 32, Attrs: []gen.Attr{{ID: gen.AttrRotMinSDK, Val: gen.LE32(33)}}})
		return sec, []gen.Pair{v3, v31}, 0
	case 4:
		return sec, []gen.Pair{gen.V2(sec, gen.SignerSpec{Key: gen.K("rsa1024-0"), Algs: []uint32{gen.AlgRSA256}})}, 0
	}
	return sec, []gen.Pair{gen.V2(sec, gen.SignerSpec{Key: gen.K("dsa1024-0")})}, 0
}

var basePairs = func() [6]struct {
	sec   gen.Sections
	pairs []gen.Pair
	t     int
} {
	var out [6]struct {
		sec   gen.Sections
		pairs []gen.Pair
		t     int
	}
	for i := range out {
		out[i].sec, out[i].pairs, out[i].t = baseBlocks(i)
	}
	return out
}()

// byteEdits is the number of local changes made at each position.
const byteEdits = 13

// byteEdit makes one local change at a position of v, which may be its end.
func byteEdit(c *mc.Ctx, v []byte) []byte {
	pos := c.Choose("offset", len(v)+1)
	kinds := byteEdits
	if pos+4 > len(v) {
		kinds = 7
	}
	if pos == len(v) {
		kinds = 2
	}
	nv := clone(v)
	kind := c.Choose("change", kinds)
	if pos == len(v) {
		return append(nv, make([]byte, []int{1, 4}[kind])...)
	}
	switch kind {
	case 0:
		nv[pos] ^= 1
	case 1:
		nv[pos] ^= 0x80
	case 2:
		nv[pos] ^= 0xff
	case 3:
		nv = nv[:pos]
	case 4: // delete a byte
		nv = append(nv[:pos], nv[pos+1:]...)
	case 5: // duplicate a byte
		nv = append(append(clone(nv[:pos]), nv[pos]), v[pos:]...)
	case 6: // insert an empty record
		nv = append(append(clone(nv[:pos]), 0, 0, 0, 0), v[pos:]...)
	default:
		old := uint32(v[pos]) | uint32(v[pos+1])<<8 | uint32(v[pos+2])<<16 | uint32(v[pos+3])<<24
		x := []uint32{0, old + 1, old - 1, 0x7fffffff, 0x80000000, 0xffffffff}[kind-7]
		copy(nv[pos:], gen.LE32(x))
	}
	return nv
}

func c03Bytes(c *mc.Ctx) {
	b := basePairs[c.Choose("base", len(basePairs))]
	pairs := append([]gen.Pair{}, b.pairs...)
	pairs[b.t] = gen.Pair{ID: pairs[b.t].ID, Val: byteEdit(c, pairs[b.t].Val)}
	apk := b.sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	judgeBlock(c, apk, 28, anyMax)
}

// c03Resigned edits the signed data before it is signed.
func c03Resigned(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 2, 3, 31)
	s := gen.SignerSpec{Key: gen.EC(0), Signed: func(b []byte) []byte { return byteEdit(c, b) }}
	switch c.Choose("signed data", 3) {
	case 1:
		s.Algs = []uint32{gen.AlgEC256, gen.AlgEC512}
		s.Certs = [][]byte{gen.SelfCert(gen.EC(0)), gen.SelfCert(gen.EC(1))}
	case 2:
		s.Attrs = []gen.Attr{{ID: 0x12345678, Val: []byte("value")}, {ID: gen.AttrStrip, Val: gen.LE32(99)}}
	}
	first := c.Bool("before another signer")
	lo := uint32(28)
	if scheme == 31 {
		lo = 33
	}
	s.Min, s.Max = lo, 0x7fffffff
	list := []gen.SignerSpec{s}
	if first {
		list[0].Max = lo + 1
		list = append(list, gen.SignerSpec{Key: gen.EC(2), Min: lo + 2, Max: 0x7fffffff})
	}
	var enc [][]byte
	for _, s := range list {
		enc = append(enc, s.Build(tinySec, scheme != 2))
	}
	apk := tinySec.Assemble(gen.EncodeBlock(schemePairs(scheme, enc, tinySec)...))
	c.State(apk)
	judgeBlock(c, apk, 28, anyMax)
}

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "every combination of signer count, scheme, key type, algorithm list and up to the deviation bound of field mutations; a state is a distinct APK",
		Spaces: []*mc.Space{
			{Name: "signer-mutations", Doc: "scheme x signer count x target x key type x <=k mutations of digest list, certificates, signatures, key, SDK fields", Dev: 2, DevDeep: 3, Run: c03Signers},
			{Name: "algorithms", Doc: "all ordered algorithm lists up to length 2-3 per key type, each signature or digest corrupted in turn", Run: c03Algs},
			{Name: "agreement", Doc: "2-3 signers x digest kind x right/wrong digest values", Run: c03Agree},
			{Name: "count", Doc: "0..13 signers x invalid signer position and kind x v2/v3/v3.1", Run: c03Count},
			{Name: "bytes", Doc: "every byte position of six honest scheme blocks x 13 local changes", Run: c03Bytes},
			{Name: "resigned", Doc: "the same changes of every byte of signed data before it is signed", Run: c03Resigned},
		},
	})
}
