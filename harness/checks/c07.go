package checks

import (
	"math/big"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
)

// lnode is a lineage node to be signed by its predecessor.
type lnode struct {
	key    *gen.Key
	cert   []byte
	flags  uint32
	alg    uint32                              // declared for the successor
	inner  *uint32                             // algorithm inside the signed part, default: the predecessor's
	signer *gen.Key                            // default: the predecessor
	with   *uint32                             // algorithm really used to sign
	pre    func(signed []byte) []byte          // edits the signed part before signing
	sig    func(sig []byte) []byte             // edits the signature
	after  func(n *gen.LineageNode)            // edits after signing
	enc    func(b []byte) []byte               // edits the encoded node
	lenEnc func(b []byte, lenLP uint32) []byte // edits the framed node
}

func encLineage(version uint32, ns []*lnode, tail []byte) []byte {
	out := gen.LE32(version)
	for i, n := range ns {
		g := gen.LineageNode{Cert: n.cert, Flags: n.flags, Alg: n.alg}
		if g.Cert == nil {
			g.Cert = gen.SelfCert(n.key)
		}
		if i > 0 {
			g.ParentAlg = ns[i-1].alg
		}
		if n.inner != nil {
			g.ParentAlg = *n.inner
		}
		if n.pre != nil {
			g.RawSigned = n.pre(g.SignedPart())
		}
		k := n.signer
		if k == nil && i > 0 {
			k = ns[i-1].key
		}
		if k != nil {
			a := uint32(0)
			if i > 0 {
				a = ns[i-1].alg
			}
			if n.with != nil {
				a = *n.with
			}
			g.Sig = k.SignAlg(a, g.SignedPart())
		}
		if n.sig != nil {
			g.Sig = n.sig(g.Sig)
		}
		if n.after != nil {
			n.after(&g)
		}
		body := gen.Cat(gen.LP(g.SignedPart()), gen.LE32(g.Flags), gen.LE32(g.Alg), gen.LP(g.Sig))
		if n.enc != nil {
			body = n.enc(body)
		}
		f := gen.LP(body)
		if n.lenEnc != nil {
			f = n.lenEnc(f, uint32(len(body)))
		}
		out = append(out, f...)
	}
	return append(out, tail...)
}

type lmut struct {
	name string
	f    func(ns []*lnode, i int)
}

var lmuts = []lmut{
	{"sig bit", func(ns []*lnode, i int) { ns[i].sig = func(s []byte) []byte { return flipIn(s, len(s)-1) } }},
	{"sig first bit", func(ns []*lnode, i int) { ns[i].sig = func(s []byte) []byte { return flipIn(s, 0) } }},
	{"no sig", func(ns []*lnode, i int) { ns[i].sig = func([]byte) []byte { return nil } }},
	{"sig with trailing byte", func(ns []*lnode, i int) { ns[i].sig = func(s []byte) []byte { return append(clone(s), 0) } }},
	{"inner alg another", func(ns []*lnode, i int) { ns[i].inner = u32p(gen.AlgEC512) }},
	{"inner alg zero", func(ns []*lnode, i int) { ns[i].inner = u32p(0) }},
	{"inner alg unknown", func(ns []*lnode, i int) { ns[i].inner = u32p(gen.AlgUnknown) }},
	{"signed by itself", func(ns []*lnode, i int) { ns[i].signer = ns[i].key }},
	{"signed by stranger", func(ns []*lnode, i int) { ns[i].signer = gen.EC(9) }},
	{"signed by first", func(ns []*lnode, i int) { ns[i].signer = ns[0].key }},
	{"signed with another hash", func(ns []*lnode, i int) { ns[i].with = u32p(gen.AlgEC512) }},
	{"unsigned cert change", func(ns []*lnode, i int) {
		ns[i].after = func(n *gen.LineageNode) { n.Cert = gen.SelfCert(gen.EC(8)) }
	}},
	{"unsigned inner alg change", func(ns []*lnode, i int) { ns[i].after = func(n *gen.LineageNode) { n.ParentAlg ^= 1 } }},
	{"declared alg 512", func(ns []*lnode, i int) { ns[i].alg = gen.AlgEC512 }},
	{"declared alg changed afterwards", func(ns []*lnode, i int) { ns[i].after = func(n *gen.LineageNode) { n.Alg ^= 3 } }},
	{"declared alg verity", func(ns []*lnode, i int) { ns[i].alg = gen.AlgVEC256 }},
	{"declared alg of another key type", func(ns []*lnode, i int) { ns[i].alg = gen.AlgRSA256 }},
	{"declared alg unknown", func(ns []*lnode, i int) { ns[i].alg = gen.AlgUnknown }},
	{"declared alg zero", func(ns []*lnode, i int) { ns[i].alg = 0 }},
	{"flags zero", func(ns []*lnode, i int) { ns[i].flags = 0 }},
	{"flags all", func(ns []*lnode, i int) { ns[i].flags = 0xffffffff }},
	{"cert of first", func(ns []*lnode, i int) { ns[i].cert = gen.SelfCert(ns[0].key) }},
	{"cert of last", func(ns []*lnode, i int) { ns[i].cert = gen.SelfCert(ns[len(ns)-1].key) }},
	{"cert garbage", func(ns []*lnode, i int) { ns[i].cert = []byte{0x30, 0} }},
	{"cert empty", func(ns []*lnode, i int) { ns[i].cert = []byte{} }},
	{"cert other serial", func(ns []*lnode, i int) {
		ns[i].cert = gen.CertSpec{Serial: big.NewInt(4711), Issuer: gen.CN("x"), Subject: gen.CN("x"), Key: ns[i].key}.DER()
	}},
	{"signed part longer", func(ns []*lnode, i int) { ns[i].pre = func(b []byte) []byte { return append(clone(b), 1, 2, 3) } }},
	{"signed part shorter", func(ns []*lnode, i int) { ns[i].pre = func(b []byte) []byte { return b[:len(b)-1] } }},
	{"signed part empty", func(ns []*lnode, i int) { ns[i].pre = func(b []byte) []byte { return []byte{} } }},
	{"node longer", func(ns []*lnode, i int) { ns[i].enc = func(b []byte) []byte { return append(clone(b), 9) } }},
	{"node shorter", func(ns []*lnode, i int) { ns[i].enc = func(b []byte) []byte { return b[:len(b)-1] } }},
	{"node without signature", func(ns []*lnode, i int) {
		ns[i].enc = func(b []byte) []byte { return b[:len(b)-4-len(b)/4] }
	}},
	{"empty node", func(ns []*lnode, i int) { ns[i].enc = func(b []byte) []byte { return nil } }},
	{"node length +1", func(ns []*lnode, i int) {
		ns[i].lenEnc = func(b []byte, n uint32) []byte { return gen.Cat(gen.LE32(n+1), b[4:]) }
	}},
	{"node length huge", func(ns []*lnode, i int) {
		ns[i].lenEnc = func(b []byte, n uint32) []byte { return gen.Cat(gen.LE32(0x80000000), b[4:]) }
	}},
	{"swap with previous", func(ns []*lnode, i int) {
		if i > 0 {
			ns[i-1], ns[i] = ns[i], ns[i-1]
		}
	}},
}

func honest(keys ...*gen.Key) []*lnode {
	var ns []*lnode
	for i, k := range keys {
		n := &lnode{key: k, flags: uint32(0x17 + i), alg: gen.DefaultAlg(k)}
		ns = append(ns, n)
	}
	return ns
}

// c07Wrap puts lineage attributes into a file whose signer is key.
func c07Wrap(scheme int, key *gen.Key, attrs ...gen.Attr) []byte {
	sec := tinySec
	if scheme == 31 {
		return sec.Assemble(gen.EncodeBlock(
			gen.V31(sec, gen.SignerSpec{Key: key, Min: 33, Max: maxU, Attrs: attrs}),
			gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: 32})))
	}
	return sec.Assemble(gen.EncodeBlock(gen.V3(sec, gen.SignerSpec{Key: key, Min: 28, Max: maxU, Attrs: attrs})))
}

func c07Judge(c *mc.Ctx, apk []byte) {
	c.State(apk)
	judge(c, apk, 28, anyMax)
	judgeBlock(c, apk, 24, 28)
	judgeBlock(c, apk, 28, 32)
}

// c07Nodes: lineages of 1-4 nodes with up to two deviations.
func c07Nodes(c *mc.Ctx) {
	scheme := mc.Pick(c, "scheme", 3, 31)
	max := 3
	if c.Deep() {
		max = 4
	}
	n := 1 + c.Choose("nodes", max)
	if !c.Deep() && (scheme == 31 || n == 1) || n == 4 {
		c.Budget(1)
	}
	var keys []*gen.Key
	for i := 0; i < n; i++ {
		keys = append(keys, gen.EC(i))
	}
	ns := honest(keys...)
	signer := keys[n-1]
	switch c.Dev("signer is", 4) {
	case 1:
		signer = keys[0]
	case 2:
		signer = gen.EC(7)
	case 3:
		if n >= 3 {
			signer = keys[1]
		}
	}
	version := mc.DevPick(c, "version", uint32(1), 0, 2, 0x80000001, 0x101)
	tail := mc.DevPick(c, "tail", []byte(nil), []byte{0}, []byte{0, 0, 0, 0}, []byte{0, 0, 0}, []byte{1, 0, 0, 0})
	for i := 0; i < n; i++ {
		k := c.Dev("node", len(lmuts)+1)
		if k > 0 {
			lmuts[k-1].f(ns, i)
			c.Label("node %d: %s", i, lmuts[k-1].name)
		}
	}
	c07Judge(c, c07Wrap(scheme, signer, gen.Attr{ID: gen.AttrRotation, Val: encLineage(version, ns, tail)}))
}

// c07Algs: every algorithm declared for every transition between key types.
func c07Algs(c *mc.Ctx) {
	names := []string{"ec256-1", "rsa2048-0", "dsa1024-0", "ec521-0"}
	k1 := gen.K(mc.Pick(c, "first", names...))
	k2 := gen.K(mc.Pick(c, "second", "ec256-2", "rsa2048-1", "dsa2048-0"))
	algs := append(append([]uint32{}, gen.AllAlgs...), gen.AlgUnknown, 0)
	a := mc.Pick(c, "declared", algs...)
	in := mc.Pick(c, "repeated", 0, 1, 2)
	last := mc.Pick(c, "declared by the last", 0, gen.AlgEC256, gen.AlgUnknown)
	ns := honest(k1, k2)
	ns[0].alg, ns[1].alg = a, last
	switch in {
	case 1: // the signed part repeats another algorithm of the same family
		ns[1].inner = u32p(a ^ 1)
	case 2: // really signed with another algorithm
		d := gen.DefaultAlg(k1)
		if d == a {
			c.Skip()
		}
		ns[1].with = &d
	}
	c07Judge(c, c07Wrap(3, k2, gen.Attr{ID: gen.AttrRotation, Val: encLineage(1, ns, nil)}))
}

// c07Attrs: several, empty or misnamed lineage attributes in one signer.
func c07Attrs(c *mc.Ctx) {
	good := encLineage(1, honest(gen.EC(0), gen.EC(1)), nil)
	long := encLineage(1, honest(gen.EC(3), gen.EC(0), gen.EC(1)), nil)
	one := encLineage(1, honest(gen.EC(1)), nil)
	foreign := encLineage(1, honest(gen.EC(0), gen.EC(5)), nil)
	ns := honest(gen.EC(0), gen.EC(1))
	ns[1].signer = gen.EC(1)
	bad := encLineage(1, ns, nil)
	vals := [][]byte{good, long, one, foreign, bad, nil, gen.LE32(1), gen.LE32(2), {1, 0, 0}}
	n := c.Choose("attributes", 4)
	var attrs []gen.Attr
	for i := 0; i < n; i++ {
		v := vals[c.Choose("value", len(vals))]
		id := gen.AttrRotation
		if i == 0 {
			id = mc.Pick(c, "id", gen.AttrRotation, gen.AttrRotation^1, gen.AttrRotOnDev)
		}
		attrs = append(attrs, gen.Attr{ID: id, Val: v})
	}
	scheme := mc.Pick(c, "scheme", 3, 31)
	if scheme == 31 && n == 3 && !c.Deep() {
		c.Skip()
	}
	c07Judge(c, c07Wrap(scheme, gen.EC(1), attrs...))
}

// c07Signers: lineages of several signers in every prefix relation.
func c07Signers(c *mc.Ctx) {
	chain := []*gen.Key{gen.EC(0), gen.EC(1), gen.EC(2), gen.EC(3)}
	type opt struct {
		key *gen.Key
		lin []byte
	}
	var opts []opt
	opts = append(opts, opt{chain[0], nil}, opt{gen.EC(8), nil})
	for n := 1; n <= 4; n++ {
		opts = append(opts, opt{chain[n-1], encLineage(1, honest(chain[:n]...), nil)})
	}
	fl := honest(chain[:2]...)
	fl[0].flags = 3
	opts = append(opts, opt{chain[1], encLineage(1, fl, nil)}) // other flags
	al := honest(chain[:3]...)
	al[0].alg = gen.AlgEC512
	opts = append(opts, opt{chain[2], encLineage(1, al, nil)})                                    // other algorithm
	opts = append(opts, opt{chain[2], encLineage(1, honest(gen.EC(9), chain[1], chain[2]), nil)}) // other root
	opts = append(opts, opt{chain[2], encLineage(1, honest(chain[0], chain[2]), nil)})            // skips a node
	opts = append(opts, opt{chain[3], encLineage(1, honest(chain[1], chain[2], chain[3]), nil)})  // suffix
	lastFl := honest(chain[:2]...)
	lastFl[1].alg = 0
	opts = append(opts, opt{chain[1], encLineage(1, lastFl, nil)}) // last node's unused algorithm differs
	n := 2 + c.Choose("signers", 2)
	scheme := mc.Pick(c, "scheme", 3, 31)
	if scheme == 31 && n == 3 && !c.Deep() {
		c.Skip()
	}
	sec := tinySec
	var l []gen.SignerSpec
	for i := 0; i < n; i++ {
		o := opts[c.Choose("lineage", len(opts))]
		lo := uint32(28)
		if scheme == 31 {
			lo = 33
		}
		mn, mx := ranges(lo, n, i)
		s := gen.SignerSpec{Key: o.key, Min: mn, Max: mx}
		if o.lin != nil {
			s.Attrs = []gen.Attr{{ID: gen.AttrRotation, Val: o.lin}}
		}
		l = append(l, s)
	}
	if c.Bool("file order reversed") {
		for i, k := 0, len(l)-1; i < k; i, k = i+1, k-1 {
			l[i], l[k] = l[k], l[i]
		}
	}
	var apk []byte
	if scheme == 31 {
		apk = sec.Assemble(gen.EncodeBlock(gen.V31(sec, l...), gen.V3(sec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: 32, Attrs: []gen.Attr{{ID: gen.AttrRotation, Val: opts[2].lin}}})))
	} else {
		apk = sec.Assemble(gen.EncodeBlock(gen.V3(sec, l...)))
	}
	c.State(apk)
	judgeBlock(c, apk, 28, anyMax)
}

// c07Both: the v3 and the v3.1 signer have lineages of their own.
func c07Both(c *mc.Ctx) {
	chain := []*gen.Key{gen.EC(0), gen.EC(1), gen.EC(2)}
	mk := func(name string) (*gen.Key, []gen.Attr) {
		n := c.Choose(name, 8)
		var lin []byte
		k := chain[0]
		switch {
		case n == 0:
			return chain[0], nil
		case n <= 3:
			k, lin = chain[n-1], encLineage(1, honest(chain[:n]...), nil)
		case n == 4:
			k, lin = gen.EC(5), encLineage(1, honest(gen.EC(4), gen.EC(5)), nil)
		case n == 5: // does not end in the signer
			k, lin = gen.EC(6), encLineage(1, honest(chain[0], chain[1]), nil)
		case n == 6: // forged
			h := honest(chain[0], gen.EC(6))
			h[1].signer = gen.EC(6)
			k, lin = gen.EC(6), encLineage(1, h, nil)
		case n == 7:
			h := honest(chain[0], gen.EC(6))
			h[1].after = func(n *gen.LineageNode) { n.Alg = 5 }
			k, lin = gen.EC(6), encLineage(1, h, nil)
		}
		return k, []gen.Attr{{ID: gen.AttrRotation, Val: lin}}
	}
	sec := tinySec
	k3, a3 := mk("v3")
	k31, a31 := mk("v3.1")
	pairs := []gen.Pair{gen.V3(sec, gen.SignerSpec{Key: k3, Min: 28, Max: 32, Attrs: a3}), gen.V31(sec, gen.SignerSpec{Key: k31, Min: 33, Max: maxU, Attrs: a31})}
	if c.Bool("v3.1 first") {
		pairs[0], pairs[1] = pairs[1], pairs[0]
	}
	if c.Bool("v2") {
		pairs = append(pairs, gen.V2(sec, gen.SignerSpec{Key: gen.EC(7)}))
	}
	apk := sec.Assemble(gen.EncodeBlock(pairs...))
	c.State(apk)
	for _, r := range [][2]int32{{24, 28}, {24, 32}, {24, 33}, {24, anyMax}, {28, 32}, {28, anyMax}, {33, anyMax}} {
		judge(c, apk, r[0], r[1])
	}
}

// walk is a lineage along certificates out of a small set, repeating some: a certificate given by its first letter, a
// small letter means another certificate of the same key.
func walk(s string) []*lnode {
	var ns []*lnode
	for i := range s {
		k := gen.EC(int(s[i] | 0x20 - 'a'))
		n := &lnode{key: k, flags: uint32(i + 1), alg: gen.DefaultAlg(k)}
		if s[i] >= 'a' {
			n.cert = otherCert(k)
		}
		ns = append(ns, n)
	}
	return ns
}

var otherCerts = newCache[string, []byte]()

func otherCert(k *gen.Key) []byte {
	return otherCerts.get(k.Name, func() []byte {
		return gen.CertSpec{Serial: big.NewInt(4711), Issuer: gen.CN("other"), Subject: gen.CN("other"), Key: k}.DER()
	})
}

func pickWalk(c *mc.Ctx, max int) string {
	n := 1 + c.Choose("nodes", max)
	s := ""
	for i := 0; i < n; i++ {
		s += mc.Pick(c, "certificate", "A", "a", "B", "C")
	}
	c.Label("%s", s)
	return s
}

// c07Walks: honestly signed lineages over every sequence of certificates.
func c07Walks(c *mc.Ctx) {
	max := 4
	if c.Deep() {
		max = 6
	}
	s := pickWalk(c, max)
	ns := walk(s)
	l := ns[len(ns)-1]
	spec := gen.SignerSpec{Key: l.key, Min: 28, Max: maxU, Attrs: []gen.Attr{{ID: gen.AttrRotation, Val: encLineage(1, ns, nil)}}}
	if l.cert != nil {
		spec.Certs = [][]byte{l.cert}
	}
	if c.Bool("signed with the other certificate of the key") {
		spec.Certs = [][]byte{otherCert(l.key)}
		if l.cert != nil {
			spec.Certs = nil
		}
	}
	apk := tinySec.Assemble(gen.EncodeBlock(gen.V3(tinySec, spec)))
	c.State(apk)
	judgeBlock(c, apk, 28, anyMax)
}

var c07Base = encLineage(1, honest(gen.EC(0), gen.EC(1), gen.EC(2)), nil)

// c07Bytes: every byte of a lineage, re-signed by the APK signer.
func c07Bytes(c *mc.Ctx) {
	i := c.Choose("byte", len(c07Base))
	kinds := []int{1, 0x80, 0xff}
	if c.Deep() {
		kinds = []int{1, 2, 4, 8, 16, 32, 64, 128, 255, 0x101, 0x102}
	} else {
		kinds = append(kinds, 0x101, 0x102)
	}
	k := mc.Pick(c, "edit", kinds...)
	v := clone(c07Base)
	switch k {
	case 0x101: // delete
		v = append(v[:i], v[i+1:]...)
	case 0x102: // truncate
		v = v[:i]
	default:
		v[i] ^= byte(k)
	}
	c07Judge(c, c07Wrap(3, gen.EC(2), gen.Attr{ID: gen.AttrRotation, Val: v}))
}

func init() {
	register(&Check{
		ID:   "C07",
		Rule: "all lineages of 1-3 (thorough 4) nodes with up to two of 36 deviations per node, all prefix relations between signers; a state is a distinct file",
		Spaces: []*mc.Space{
			{Name: "nodes", Doc: "1-3 (4) nodes x 36 node deviations x signer x version x tail, up to 2 deviations", Dev: 2, Run: c07Nodes},
			{Name: "algs", Doc: "all algorithms declared for every pair of key types", Run: c07Algs},
			{Name: "walks", Doc: "honestly signed lineages over every sequence of 1-4 (6) out of four certificates of three keys", Run: c07Walks},
			{Name: "attrs", Doc: "0-3 lineage attributes per signer out of 9 values", Run: c07Attrs},
			{Name: "signers", Doc: "2-3 signers with 12 lineages each in all combinations", Run: c07Signers},
			{Name: "both", Doc: "v3 and v3.1 lineages side by side", Run: c07Both},
			{Name: "bytes", Doc: "every byte edit and truncation of a three-node lineage, re-signed", Run: c07Bytes},
		},
	})
}
