package checks

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"encoding/asn1"
	"math/big"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

var c09Zip = &gen.Zip{Entries: []*gen.Entry{
	{Name: "AndroidManifest.xml", Data: c08App.AXML()},
	{Name: "a", Data: []byte("a")},
}}

// c09SF is the signature file every block of this check signs.
var c09SF = gen.MakeSF(gen.MakeManifest("SHA1", c09Zip.Entries), gen.SFOpts{Alg: "SHA1"}).Raw

var c09Ranges = [][2]int32{{1, 17}, {1, 23}, {1, anyMax}, {24, 24}}

// c09Judge puts the block into an APK and compares with the model in every SDK range.
func c09Judge(c *mc.Ctx, b ref.P7Block, der []byte) {
	w := signV1(c09Zip, nil, "SHA1", v1Signer{Key: gen.K("rsa1024-0"), Make: func(sf []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
		if !bytes.Equal(sf, c09SF) {
			panic("signature file changed")
		}
		return der, func(min, max int32) (bool, [][]byte) { return b.Verify(sf, min, max) }
	}})
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	for _, r := range c09Ranges {
		judgeFull(c, apk, w.Jar, appOf(c08App), r[0], r[1])
	}
}

func selfP7(k *gen.Key) ref.P7Cert {
	return ref.P7Cert{DER: gen.SelfCert(k), Subject: gen.CN(k.Name).DER()}
}

func p7Of(b ref.P7Block) []byte {
	s := gen.P7Spec{CType: b.CType, Signers: b.Signers}
	for _, c := range b.Certs {
		s.Certs = append(s.Certs, c.DER)
	}
	return s.DER()
}

var c09Keys = []string{"rsa1024-0", "rsa2048-0", "dsa1024-0", "dsa2048-0", "dsa2048q224-0", "ec224-0", "ec256-0", "ec384-0", "ec521-0"}
var c09Hashes = []crypto.Hash{crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.MD5}

// c09Combos: every key with every declared digest, encryption algorithm and actually used digest.
func c09Combos(c *mc.Ctx) {
	k := gen.K(mc.Pick(c, "key", c09Keys...))
	h := mc.Pick(c, "digest", c09Hashes...)
	digs := []string{"", "1.2.3.4", "1.2.840.113549.2.2"}
	for _, x := range c09Hashes {
		digs = append(digs, gen.DigestOIDs[x])
	}
	dig := mc.Pick(c, "declared digest", digs...)
	if dig == "" {
		dig = gen.DigestOIDs[h]
	} else if dig == gen.DigestOIDs[h] {
		c.Skip()
	}
	encs := []string{gen.KeyOID(gen.K("rsa1024-0")), gen.KeyOID(gen.K("dsa1024-0")), gen.KeyOID(gen.EC(0)), "1.2.840.113549.1.1.10", "1.2.840.113549.1.1.2", "1.2.3"}
	for _, kn := range []string{"rsa1024-0", "dsa1024-0", "ec256-0"} {
		for _, x := range c09Hashes {
			if o := gen.ComboOID(gen.K(kn), x); o != "" {
				encs = append(encs, o)
			}
		}
	}
	enc := mc.Pick(c, "encryption algorithm", encs...)
	attrs := c.Bool("attributes")
	c.Label("%s %v %s %s", k.Name, h, dig, enc)
	si := gen.SignerOf{Key: k, Cert: gen.SelfCert(k), Hash: h, DigOID: dig, EncOID: enc, Attrs: attrs}.Make(c09SF)
	b := ref.P7Block{Certs: []ref.P7Cert{selfP7(k)}, Signers: []*gen.SI{si}}
	c09Judge(c, b, p7Of(b))
}

type c09Mut struct {
	name string
	do   func(s *gen.SignerOf)
}

var c09Muts = []c09Mut{
	{"good without attributes", func(s *gen.SignerOf) { s.Attrs = false }},
	{"good with attributes", func(s *gen.SignerOf) {}},
	{"no content type", func(s *gen.SignerOf) { s.NoCT = true }},
	{"other content type", func(s *gen.SignerOf) { s.CType = gen.OIDSignedData }},
	{"no message digest", func(s *gen.SignerOf) { s.NoMD = true }},
	{"wrong message digest", func(s *gen.SignerOf) { s.MD = make([]byte, 32) }},
	{"empty message digest", func(s *gen.SignerOf) { s.MD = []byte{} }},
	{"truncated message digest", func(s *gen.SignerOf) { s.MD = hashOf(crypto.SHA256, c09SF)[:20] }},
	{"message digest of another algorithm", func(s *gen.SignerOf) { s.MD = hashOf(crypto.SHA1, c09SF) }},
	{"message digest not an octet string", func(s *gen.SignerOf) {
		s.NoMD = true
		s.Extra = []gen.P7Attr{{OID: gen.OIDMsgDigest, Vals: gen.TLV(0x0c, hashOf(crypto.SHA256, c09SF))}}
	}},
	{"content type not an object id", func(s *gen.SignerOf) {
		s.NoCT = true
		s.Extra = []gen.P7Attr{{OID: gen.OIDContentType, Vals: gen.Octets([]byte("x"))}}
	}},
	{"extra attribute", func(s *gen.SignerOf) {
		s.Extra = []gen.P7Attr{{OID: gen.OIDSignTime, Vals: gen.TLV(0x17, []byte("200101000000Z"))}}
	}},
	{"extra attribute first", func(s *gen.SignerOf) {
		s.Edit = func(si *gen.SI) {
			si.Attrs = append([]gen.P7Attr{{OID: gen.OIDSignTime, Vals: gen.TLV(0x17, []byte("200101000000Z"))}}, si.Attrs...)
		}
	}},
	{"attributes reversed", func(s *gen.SignerOf) {
		s.Edit = func(si *gen.SI) { si.Attrs[0], si.Attrs[1] = si.Attrs[1], si.Attrs[0] }
	}},
	{"attributes reversed after signing", func(s *gen.SignerOf) {
		s.Post = func(si *gen.SI) { si.Attrs[0], si.Attrs[1] = si.Attrs[1], si.Attrs[0] }
	}},
	{"attribute added after signing", func(s *gen.SignerOf) {
		s.Post = func(si *gen.SI) {
			si.Attrs = append(si.Attrs, gen.P7Attr{OID: gen.OIDSignTime, Vals: gen.TLV(0x17, []byte("200101000000Z"))})
		}
	}},
	{"attributes added after signing the file itself", func(s *gen.SignerOf) {
		s.Attrs = false
		s.Post = func(si *gen.SI) {
			si.Attrs = []gen.P7Attr{{OID: gen.OIDContentType, Vals: gen.OID(gen.OIDData)}, {OID: gen.OIDMsgDigest, Vals: gen.Octets(hashOf(crypto.SHA256, c09SF))}}
		}
	}},
	{"attributes removed after signing", func(s *gen.SignerOf) { s.Post = func(si *gen.SI) { si.Attrs = nil } }},
	{"message digest corrected after signing", func(s *gen.SignerOf) {
		s.MD = make([]byte, 32)
		s.Post = func(si *gen.SI) { si.Attrs[1].Vals = gen.Octets(hashOf(crypto.SHA256, c09SF)) }
	}},
	{"signed in the [0] form", func(s *gen.SignerOf) { s.AsIs = true }},
	{"attributes empty", func(s *gen.SignerOf) { s.Attrs = false; s.Post = func(si *gen.SI) { si.HasAttr = true } }},
	{"signed by another key", func(s *gen.SignerOf) { s.SignKey = gen.EC(9) }},
	{"signature flipped", func(s *gen.SignerOf) {
		s.Post = func(si *gen.SI) { si.Sig = flipIn(si.Sig, len(si.Sig)-1) }
	}},
	{"signature empty", func(s *gen.SignerOf) { s.Post = func(si *gen.SI) { si.Sig = nil } }},
	{"signature with trailing byte", func(s *gen.SignerOf) { s.Post = func(si *gen.SI) { si.Sig = append(clone(si.Sig), 0) } }},
	{"other issuer", func(s *gen.SignerOf) { s.Edit = func(si *gen.SI) { si.Issuer = gen.CN("nobody").DER() } }},
	{"other serial", func(s *gen.SignerOf) {
		s.Edit = func(si *gen.SI) { si.Serial = new(big.Int).Add(si.Serial, big.NewInt(1)) }
	}},
	{"unknown digest algorithm", func(s *gen.SignerOf) { s.DigOID = "1.2.3" }},
	{"unknown digest algorithm without attributes", func(s *gen.SignerOf) { s.Attrs, s.DigOID = false, "1.2.3" }},
	{"unknown encryption algorithm", func(s *gen.SignerOf) { s.EncOID = "1.2.3" }},
	{"SHA-1", func(s *gen.SignerOf) { s.Hash = crypto.SHA1 }},
}

func hashOf(h crypto.Hash, b []byte) []byte {
	x := h.New()
	x.Write(b)
	return x.Sum(nil)
}

// c09Infos: several SignerInfos with any deviation each.
func c09Infos(c *mc.Ctx) {
	n := c.Choose("signer infos", 3)
	if c.Deep() {
		n = c.Choose("one more", 2) + n
	}
	keys := []*gen.Key{gen.EC(0), gen.K("rsa1024-1"), gen.EC(2)}
	b := ref.P7Block{}
	for i := 0; i < n; i++ {
		m := c09Muts[c.Choose("info", len(c09Muts))]
		c.Label("%s", m.name)
		s := gen.SignerOf{Key: keys[i], Cert: gen.SelfCert(keys[i]), Hash: crypto.SHA256, Attrs: true}
		m.do(&s)
		b.Signers = append(b.Signers, s.Make(c09SF))
		b.Certs = append(b.Certs, selfP7(keys[i]))
	}
	if n == 0 {
		b.Certs = []ref.P7Cert{selfP7(keys[0])}
	}
	c09Judge(c, b, p7Of(b))
}

// c09Block: the rest of the block.
func c09Block(c *mc.Ctx) {
	k := gen.K(mc.Pick(c, "key", "ec256-0", "rsa1024-0"))
	b := ref.P7Block{Certs: []ref.P7Cert{selfP7(k)}}
	b.CType = mc.Pick(c, "content type", "", gen.OIDSignedData, "1.2.3")
	so := gen.SignerOf{Key: k, Cert: gen.SelfCert(k), Hash: crypto.SHA256, Attrs: c.Bool("attributes")}
	if c.Bool("same content type signed") {
		so.CType = b.CType
	}
	if c.Bool("unsigned content present") {
		so.CType = ""
	}
	b.Signers = []*gen.SI{so.Make(c09SF)}
	s := gen.P7Spec{CType: b.CType, Signers: b.Signers, Certs: [][]byte{gen.SelfCert(k)}}
	switch c.Choose("content", 3) {
	case 1:
		s.Content = []byte("something else")
	case 2:
		s.Content = c09SF
	}
	switch c.Choose("digest algorithms", 3) {
	case 1:
		s.DigAlgs = gen.AlgID("1.2.3", gen.Null())
	case 2:
		s.DigAlgs = gen.Cat(gen.AlgID(gen.DigestOIDs[crypto.SHA256], nil), gen.AlgID(gen.DigestOIDs[crypto.SHA1], gen.Null()))
	}
	switch c.Choose("certificates", 3) {
	case 1:
		s.NoCerts, b.Certs = true, nil
	case 2:
		s.Certs, b.Certs = nil, nil
	}
	c09Judge(c, b, s.DER())
}

var c09ValueKeys = []struct {
	key string
	h   crypto.Hash
}{{"rsa1024-0", crypto.SHA1}, {"rsa1024-0", crypto.SHA224}, {"rsa2048-0", crypto.SHA256}, {"dsa1024-0", crypto.SHA1}, {"dsa1024-0", crypto.SHA256}, {"dsa2048-0", crypto.SHA256}, {"dsa2048q224-0", crypto.SHA224}, {"ec224-0", crypto.SHA224}, {"ec256-0", crypto.SHA224}, {"ec256-0", crypto.SHA256}, {"ec521-0", crypto.SHA512}}

// c09ZeroSI is a SignerInfo with an RSA signature that starts with a zero byte.
var c09ZeroSI = newCache[int, gen.SI]()

func c09Zero(i int, mk func(nonce int) *gen.SI) gen.SI {
	return c09ZeroSI.get(i, func() gen.SI {
		for n := 0; n < 10000; n++ {
			if si := mk(n); si.Sig[0] == 0 && si.Sig[1] != 0 {
				return *si
			}
		}
		panic("no signature with a leading zero")
	})
}

// c09Values: all forms of the signature value itself.
func c09Values(c *mc.Ctx) {
	i := c.Choose("key", len(c09ValueKeys))
	k, h := gen.K(c09ValueKeys[i].key), c09ValueKeys[i].h
	c.Label("%s %v", k.Name, h)
	mk := func(nonce int) *gen.SI {
		s := gen.SignerOf{Key: k, Cert: gen.SelfCert(k), Hash: h, Attrs: true}
		if nonce >= 0 {
			s.Extra = []gen.P7Attr{{OID: "1.2.3.4", Vals: gen.Octets([]byte{byte(nonce >> 8), byte(nonce)})}}
		}
		return s.Make(c09SF)
	}
	si := *mk(-1)
	num := func(b []byte, n int) []byte { return new(big.Int).SetBytes(b).FillBytes(make([]byte, n)) }
	if pub, ok := k.Priv.(*rsa.PrivateKey); ok {
		if c.Bool("leading zero") {
			si = c09Zero(i, mk)
		}
		size, x := len(si.Sig), new(big.Int).SetBytes(si.Sig)
		forms := [][]byte{si.Sig, si.Sig[1:], si.Sig[2:], si.Sig[:size-1], append(clone(si.Sig), 0), append([]byte{0}, si.Sig...), append([]byte{0, 0}, si.Sig...), append([]byte{1}, si.Sig...), nil, {0}, {1}, make([]byte, size), make([]byte, size+1),
			num(pub.N.Bytes(), size), num(new(big.Int).Sub(pub.N, x).Bytes(), size), new(big.Int).Add(pub.N, x).Bytes(), num(big.NewInt(1).Bytes(), size), flip(si.Sig, 0, 0x80), flip(si.Sig, 0, 1), bytes.Repeat([]byte{0xff}, size)}
		si.Sig = forms[c.Choose("form", len(forms))]
	} else {
		var rs struct{ R, S *big.Int }
		if _, err := asn1.Unmarshal(si.Sig, &rs); err != nil {
			panic(err)
		}
		var q *big.Int
		switch p := k.Priv.(type) {
		case *ecdsa.PrivateKey:
			q = p.Params().N
		case *dsa.PrivateKey:
			q = p.Q
		}
		pick := func(name string, v, other *big.Int) *big.Int {
			l := []*big.Int{v, big.NewInt(0), big.NewInt(1), new(big.Int).Neg(v), new(big.Int).Sub(q, v), new(big.Int).Add(q, v), new(big.Int).Sub(v, q), q, new(big.Int).Neg(q), other, new(big.Int).Add(v, big.NewInt(1)), new(big.Int).Lsh(v, 8), new(big.Int).Lsh(big.NewInt(1), 4000)}
			return l[c.Choose(name, len(l))]
		}
		r, s := pick("R", rs.R, rs.S), pick("S", rs.S, rs.R)
		body := gen.Cat(gen.BigInt(r), gen.BigInt(s))
		switch c.Choose("frame", 8) {
		case 0:
			si.Sig = gen.Seq(body)
		case 1:
			si.Sig = append(gen.Seq(body), 0)
		case 2:
			si.Sig = append(gen.Seq(body), gen.Seq(body)...)
		case 3:
			si.Sig = gen.Seq(body)[:len(body)]
		case 4:
			si.Sig = body
		case 5:
			si.Sig = gen.Set(body)
		case 6:
			si.Sig = gen.Seq(gen.BigInt(r))
		case 7: // as in other protocols
			si.Sig = gen.Cat(new(big.Int).Abs(r).Bytes(), new(big.Int).Abs(s).Bytes())
		}
	}
	b := ref.P7Block{Certs: []ref.P7Cert{selfP7(k)}, Signers: []*gen.SI{&si}}
	c09Judge(c, b, p7Of(b))
}

var c09Names = []string{"A", "B", "C"}

// c09Pool: the signer's certificate and its issuers among other certificates.
func c09Pool(c *mc.Ctx) {
	n := 2
	if c.Deep() {
		n = 3
	}
	n = 1 + c.Choose("certificates", n)
	keys := []*gen.Key{gen.EC(0), gen.EC(1)}
	b := ref.P7Block{}
	for i := 0; i < n; i++ {
		sub, iss := c.Choose("subject", 3), c.Choose("issuer", 3)
		ser, key := 1+c.Choose("serial", 2), 0
		if i < 2 {
			key = c.Choose("key", 2)
		}
		if i == 2 && ser == 2 {
			c.Skip()
		}
		b.Certs = append(b.Certs, poolCert(keys[key], sub, iss, ser))
	}
	si := gen.SignerOf{Key: keys[0], Cert: gen.SelfCert(keys[0]), Hash: crypto.SHA256}.Make(c09SF)
	si.Issuer = gen.CN(c09Names[c.Choose("named issuer", 2)]).DER()
	si.Serial = big.NewInt(1)
	b.Signers = []*gen.SI{si}
	c09Judge(c, b, p7Of(b))
}

var poolCache = newCache[[4]int, ref.P7Cert]()

func poolCert(k *gen.Key, sub, iss, ser int) ref.P7Cert {
	ki := int(k.Name[len(k.Name)-1] - '0')
	return poolCache.get([4]int{ki, sub, iss, ser}, func() ref.P7Cert {
		s := gen.CN(c09Names[sub]).DER()
		return ref.P7Cert{Subject: s, DER: gen.CertSpec{Serial: big.NewInt(int64(ser)), Issuer: gen.CN(c09Names[iss]), RawSubject: s, Key: k, DummySig: true}.DER()}
	})
}

// c09Chains: longer issuer chains in any order with loops.
func c09Chains(c *mc.Ctx) {
	n := 4
	names := []string{"A", "B", "C", "D"}
	b := ref.P7Block{}
	if k := c.Choose("subjects", 4); k > 0 { // certificates with one name
		names = strings.Split([]string{"A B B C", "A B B B", "A A B C"}[k-1], " ")
	}
	sub := 0
	for i := 0; i < n; i++ {
		iss := c.Choose("issuer", n)
		b.Certs = append(b.Certs, ref.P7Cert{Subject: gen.CN(names[sub]).DER(), DER: gen.CertSpec{Serial: big.NewInt(int64(i + 1)), Issuer: gen.CN(names[iss]), RawSubject: gen.CN(names[sub]).DER(), Key: gen.EC(i), DummySig: true}.DER()})
		sub++
	}
	signer := b.Certs[0]
	switch c.Choose("order", 4) {
	case 1:
		b.Certs[0], b.Certs[3] = b.Certs[3], b.Certs[0]
	case 2:
		b.Certs[1], b.Certs[2] = b.Certs[2], b.Certs[1]
	case 3:
		b.Certs = b.Certs[:3]
	}
	b.Signers = []*gen.SI{gen.SignerOf{Key: gen.EC(0), Cert: signer.DER, Hash: crypto.SHA256}.Make(c09SF)}
	c09Judge(c, b, p7Of(b))
}

// c09NameForms are encoded names; some are equal in canonical form.
var c09NameForms = func() [][]byte {
	cn := func(tag byte, v string) gen.ATV { return gen.ATV{OID: "2.5.4.3", Tag: tag, Val: v} }
	o := func(v string) gen.ATV { return gen.ATV{OID: "2.5.4.10", Tag: 0x13, Val: v} }
	mail := func(v string) gen.ATV { return gen.ATV{OID: "1.2.840.113549.1.9.1", Tag: 0x16, Val: v} }
	dc := func(v string) gen.ATV { return gen.ATV{OID: "0.9.2342.19200300.100.1.25", Tag: 0x16, Val: v} }
	multi := func(oids ...string) []byte { // one RDN of several attributes
		var l []byte
		for _, o := range oids {
			l = append(l, gen.Seq(gen.OID(o), gen.TLV(0x13, []byte("v"+o)))...)
		}
		return gen.Seq(gen.Set(l))
	}
	return [][]byte{
		gen.Name{cn(0x13, "Alice")}.DER(), gen.Name{cn(0x0c, "Alice")}.DER(), gen.Name{cn(0x13, "ALICE")}.DER(), gen.Name{cn(0x13, " Alice ")}.DER(),
		gen.Name{cn(0x13, "Al ice")}.DER(), gen.Name{cn(0x13, "Al  ice")}.DER(), gen.Name{cn(0x0c, "A,lice")}.DER(), gen.Name{cn(0x0c, "A+lice")}.DER(),
		gen.Name{cn(0x0c, "A\\lice")}.DER(), gen.Name{cn(0x0c, "#Alice")}.DER(), gen.Name{cn(0x0c, "\\#Alice")}.DER(), gen.Name{cn(0x0c, "Alicé")}.DER(),
		gen.Name{o("x"), cn(0x13, "Alice")}.DER(), gen.Name{cn(0x13, "Alice"), o("x")}.DER(), gen.Name{cn(0x13, "Alice"), cn(0x13, "Bob")}.DER(), gen.Name{cn(0x13, "Bob"), cn(0x13, "Alice")}.DER(),
		gen.Name{cn(0x13, "Alice"), mail("a@x")}.DER(), gen.Name{cn(0x13, "Alice"), mail("b@x")}.DER(), gen.Name{dc("x"), dc("y")}.DER(), gen.Name{dc("y"), dc("x")}.DER(),
		gen.Name{}.DER(), gen.Name{cn(0x0c, "Alice, CN=Bob")}.DER(), gen.Name{cn(0x0c, "Alice,2.5.4.3=Bob")}.DER(), gen.Name{cn(0x0c, "")}.DER(),
		gen.Seq(gen.Set(gen.Seq(gen.OID("2.5.4.3"), gen.TLV(0x13, []byte("Alice"))), gen.Seq(gen.OID("2.5.4.10"), gen.TLV(0x13, []byte("x"))))),
		gen.Seq(gen.Set(gen.Seq(gen.OID("2.5.4.10"), gen.TLV(0x13, []byte("x"))), gen.Seq(gen.OID("2.5.4.3"), gen.TLV(0x13, []byte("Alice"))))),
		multi("2.5.4.3", "2.5.4.3.1"), multi("2.5.4.3.1", "2.5.4.3"), multi("2.5.4.3", "2.5.4.10", "2.5.4.11"), multi("2.5.4.11", "2.5.4.3", "2.5.4.10"), multi("2.5.4.10", "2.5.4.11", "2.5.4.3"), multi("2.5.4.3.1", "2.5.4.3", "2.5.4.3.1.1", "2.5.4.4"), multi("2.5.4.4", "2.5.4.3", "2.5.4.3.1.1", "2.5.4.3.1"),
		gen.Name{cn(0x16, "Alice")}.DER(), gen.Name{{OID: "2.5.4.5", Tag: 0x12, Val: "1"}}.DER(), gen.Name{{OID: "2.5.4.5", Tag: 0x13, Val: "01"}}.DER(),
	}
}()

// c09NamesEq: the certificate is looked up by issuer in canonical form.
func c09NamesEq(c *mc.Ctx) {
	l := len(c09NameForms)
	malformed := [][]byte{gen.Seq(gen.Int(5)), gen.Seq(gen.Set(gen.Null())), gen.Int(5), gen.Null(), gen.Seq(gen.Null())}
	want, decoy := c.Choose("named issuer", l+len(malformed)), c.Choose("first certificate's issuer", l)
	second := 0
	if want < l {
		second = c.Choose("second certificate", 3) // none, the exact one, the canonical first
	}
	kd, ks := gen.EC(1), gen.EC(0)
	if second == 0 {
		kd = gen.EC(0)
	}
	mk := func(k *gen.Key, iss []byte) ref.P7Cert {
		return ref.P7Cert{Subject: gen.CN("subject").DER(), DER: gen.CertSpec{Serial: big.NewInt(7), RawIssuer: iss, RawSubject: gen.CN("subject").DER(), Key: k, DummySig: true}.DER()}
	}
	b := ref.P7Block{Certs: []ref.P7Cert{mk(kd, c09NameForms[decoy])}}
	switch second {
	case 1:
		b.Certs = append(b.Certs, mk(ks, c09NameForms[want]))
	case 2:
		// an issuer whose subject is any form: does the chain find it?
		b.Certs[0] = mk(ks, c09NameForms[want])
		b.Certs = append(b.Certs, ref.P7Cert{Subject: c09NameForms[decoy], DER: gen.CertSpec{Serial: big.NewInt(8), RawIssuer: gen.CN("root").DER(), RawSubject: c09NameForms[decoy], Key: gen.EC(2), DummySig: true}.DER()})
	}
	si := gen.SignerOf{Key: ks, Cert: gen.SelfCert(ks), Hash: crypto.SHA256}.Make(c09SF)
	si.Issuer, si.Serial = append(append([][]byte{}, c09NameForms...), malformed...)[want], big.NewInt(7)
	b.Signers = []*gen.SI{si}
	c09Judge(c, b, p7Of(b))
}

func ext(oid string, critical bool, val []byte) []byte {
	if critical {
		return gen.Seq(gen.OID(oid), gen.Bool(true), gen.Octets(val))
	}
	return gen.Seq(gen.OID(oid), gen.Octets(val))
}

// c09Exts: critical extensions and serial numbers of the signer's certificate.
func c09Exts(c *mc.Ctx) {
	k := gen.EC(0)
	sub := gen.CN("x").DER()
	spec := gen.CertSpec{RawIssuer: sub, RawSubject: sub, Key: k, DummySig: true}
	bad := false
	switch c.Choose("extension", 9) {
	case 1:
		spec.Exts, bad = ext("1.2.3.4", true, gen.Null()), true
	case 2:
		spec.Exts = ext("1.2.3.4", false, gen.Null())
	case 3:
		spec.Exts = ext("2.5.29.15", true, []byte{3, 2, 7, 0x80})
	case 4:
		spec.Exts = ext("2.5.29.19", true, gen.Seq(gen.Bool(true)))
	case 5:
		spec.Exts = ext("2.5.29.37", true, gen.Seq(gen.OID("1.3.6.1.5.5.7.3.3")))
	case 6:
		spec.Exts, bad = gen.Cat(ext("2.5.29.19", true, gen.Seq(gen.Bool(true))), ext("1.3.6.1.4.1.99999.1", true, []byte("x"))), true
	case 7:
		spec.Version = 1
	case 8:
		spec.Exts = ext("2.5.29.14", false, gen.Octets([]byte("keyid")))
	}
	serials := []*big.Int{big.NewInt(1), big.NewInt(0), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(big.NewInt(1), 160), big.NewInt(1 << 31)}
	spec.Serial = serials[c.Choose("serial", len(serials))]
	named := serials[c.Choose("named serial", len(serials))]
	signer := ref.P7Cert{DER: spec.DER(), Subject: sub, BadExt: bad}
	b := ref.P7Block{Certs: []ref.P7Cert{signer}}
	if c.Bool("other certificate with an unknown critical extension") {
		o := ref.P7Cert{Subject: gen.CN("o").DER(), BadExt: true, DER: gen.CertSpec{Issuer: gen.CN("o"), Subject: gen.CN("o"), Key: gen.EC(1), DummySig: true, Exts: ext("1.2.3.4", true, gen.Null())}.DER()}
		b.Certs = append(b.Certs, o)
	}
	si := gen.SignerOf{Key: k, Cert: signer.DER, Hash: crypto.SHA256}.Make(c09SF)
	si.Serial = named
	b.Signers = []*gen.SI{si}
	c09Judge(c, b, p7Of(b))
}

type c09Sample struct {
	name string
	p7   []byte
	cert []byte
}

var c09Samples = func() (out []c09Sample) {
	for _, k := range []string{"ec256-0", "rsa1024-0", "dsa1024-0"} {
		for _, at := range []bool{false, true} {
			h := crypto.SHA256
			if k == "dsa1024-0" {
				h = crypto.SHA1
			}
			out = append(out, c09Sample{k, gen.P7(gen.K(k), h, at, c09SF), gen.SelfCert(gen.K(k))})
		}
	}
	return
}()

// c09Bytes: every byte edit of a signature block and of a signature file.
func c09Bytes(c *mc.Ctx) {
	s := c09Samples[c.Choose("block", len(c09Samples))]
	p7, sf := clone(s.p7), clone(c09SF)
	inSF := c.Bool("edit the signature file")
	t := p7
	if inSF {
		t = sf
	}
	i := c.Choose("byte", len(t))
	kinds := []int{1, 0x80}
	if c.Deep() {
		kinds = []int{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x101, 0x102}
	}
	switch m := mc.Pick(c, "edit", kinds...); m {
	case 0x101:
		t = append(t[:i], t[i+1:]...)
	case 0x102:
		t = append(t[:i], append([]byte{t[i]}, t[i:]...)...)
	default:
		t[i] ^= byte(m)
	}
	if inSF {
		sf = t
	} else {
		p7 = t
	}
	w := signV1(c09Zip, nil, "SHA1", v1Signer{Key: gen.K("rsa1024-0")})
	w.Zip.Find("META-INF/CERT.SF").Data = sf
	w.Zip.Find("META-INF/CERT.RSA").Data = p7
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	for _, r := range [][2]int32{{1, 17}, {24, anyMax}} {
		o := impl.Verify(apk, r[0], r[1])
		c.Trace(1)
		c.Note("accept=%v", o.Accept)
		switch {
		case o.Panic != "":
			c.Failf("%s", o.Panic)
		case !o.Accept:
		case inSF:
			c.Failf("accepted with an edited signature file")
		case len(o.Certs) != 1 || len(o.Certs[0]) == 0 || !bytes.Contains(p7, o.Certs[0][0]):
			c.Failf("reported certificate is not in the block")
		default:
			// accepted: then key and signature must be untouched; only fields nobody signs may differ
			var crt struct {
				TBS asn1.RawValue
				A   asn1.RawValue
				S   asn1.BitString
			}
			if _, err := asn1.Unmarshal(o.Certs[0][0], &crt); err != nil {
				c.Note("certificate only the lenient parser reads")
			}
			if k := gen.K(s.name); !bytes.Contains(o.Certs[0][0], k.SPKI[len(k.SPKI)/2:]) {
				c.Failf("accepted with another key in the certificate")
			}
		}
	}
}

func init() {
	_ = strings.ToLower
	register(&Check{
		ID:   "C09",
		Rule: "all PKCS#7 blocks over a fixed signature file within the stated spaces, each in four SDK ranges; a state is a distinct APK",
		Spaces: []*mc.Space{
			{Name: "combos", Doc: "9 keys x 6 digests x declared digest x 22 encryption algorithms x attributes", Run: c09Combos},
			{Name: "infos", Doc: "0-2 (thorough 3) SignerInfos with each of 31 deviations", Run: c09Infos},
			{Name: "block", Doc: "content, content type, digest algorithm list, certificate list", Run: c09Block},
			{Name: "values", Doc: "20 forms of an RSA, 13 x 13 x 8 forms of a DSA and ECDSA signature value, 11 keys and digests", Run: c09Values},
			{Name: "pool", Doc: "1-2 (thorough 3) certificates with all subjects, issuers, serials and keys", Run: c09Pool},
			{Name: "chains", Doc: "all issuer graphs over four certificates, some with one name, in four orders", Run: c09Chains},
			{Name: "names", Doc: "36 x 36 name forms and five malformed ones for lookup of the signer and of issuers", Run: c09NamesEq},
			{Name: "extensions", Doc: "critical extensions and serial numbers", Run: c09Exts},
			{Name: "bytes", Doc: "every byte edit of six signature blocks and their signature file", Run: c09Bytes},
		},
	})
}
