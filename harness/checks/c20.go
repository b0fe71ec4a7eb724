package checks

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/md5"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/internal/x509andr"
	"github.com/avast/apkverifier/signingblock"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// samePublic compares the key material.
func samePublic(a, b any) bool {
	switch x := a.(type) {
	case *rsa.PublicKey:
		y, ok := b.(*rsa.PublicKey)
		return ok && x.N.Cmp(y.N) == 0 && x.E == y.E
	case *dsa.PublicKey:
		y, ok := b.(*dsa.PublicKey)
		return ok && x.Y.Cmp(y.Y) == 0 && x.P.Cmp(y.P) == 0 && x.Q.Cmp(y.Q) == 0 && x.G.Cmp(y.G) == 0
	case *ecdsa.PublicKey:
		y, ok := b.(*ecdsa.PublicKey)
		return ok && x.Curve == y.Curve && x.X.Cmp(y.X) == 0 && x.Y.Cmp(y.Y) == 0
	}
	return false
}

func ourKey(k any) bool {
	switch k.(type) {
	case *rsa.PublicKey, *dsa.PublicKey, *ecdsa.PublicKey:
		return true
	}
	return false
}

// nameString is what the certificate info says of a name.
func nameString(n pkix.Name) string {
	var parts []string
	add := func(k string, v []string) {
		if len(v) > 0 {
			parts = append(parts, k+"="+strings.Join(v, ";"))
		}
	}
	add("C", n.Country)
	add("ST", n.Province)
	add("L", n.Locality)
	add("O", n.Organization)
	add("OU", n.OrganizationalUnit)
	if n.CommonName != "" {
		add("CN", []string{n.CommonName})
	}
	return strings.Join(parts, ", ")
}

// sameName compares what is text; values of other types are presented differently by different decoders.
func sameName(a, b pkix.Name) bool {
	return nameString(a) == nameString(b) && a.SerialNumber == b.SerialNumber &&
		slices.Equal(a.StreetAddress, b.StreetAddress) && slices.Equal(a.PostalCode, b.PostalCode) &&
		slices.EqualFunc(a.Names, b.Names, func(x, y pkix.AttributeTypeAndValue) bool {
			_, text := y.Value.(string)
			return x.Type.Equal(y.Type) && (!text || reflect.DeepEqual(x.Value, y.Value))
		})
}

func questioned(n pkix.Name) pkix.Name {
	var seq pkix.RDNSequence
	for _, a := range n.Names {
		if s, ok := a.Value.(string); ok {
			a.Value = strings.Map(func(r rune) rune {
				if r > 0x7f || !ref.Printable(byte(r)) {
					return '?'
				}
				return r
			}, s)
		}
		seq = append(seq, pkix.RelativeDistinguishedNameSET{a})
	}
	var out pkix.Name
	out.FillFromRDNSequence(&seq)
	return out
}

// c20Same: got describes the same certificate as want; raw: including the bytes it is written in.
func c20Same(got, want *x509.Certificate, raw bool) string {
	// the canonical form has ? for what a PrintableString may not hold; T61String has no agreed meaning
	if got != nil && (!raw || bytes.IndexByte(want.RawSubject, 0x14) >= 0 || bytes.IndexByte(want.RawIssuer, 0x14) >= 0) {
		g, w := *got, *want
		g.Subject, g.Issuer, w.Subject, w.Issuer = questioned(g.Subject), questioned(g.Issuer), questioned(w.Subject), questioned(w.Issuer)
		got, want = &g, &w
	}
	switch {
	case got == nil:
		return "no certificate"
	case got.PublicKeyAlgorithm != want.PublicKeyAlgorithm:
		return fmt.Sprintf("key algorithm %v, not %v", got.PublicKeyAlgorithm, want.PublicKeyAlgorithm)
	case !samePublic(got.PublicKey, want.PublicKey):
		return fmt.Sprintf("key %v, not %v", got.PublicKey, want.PublicKey)
	case want.SignatureAlgorithm == 0 && got.SignatureAlgorithm >= x509.SHA256WithRSAPSS && got.SignatureAlgorithm <= x509.SHA512WithRSAPSS:
		return fmt.Sprintf("signature algorithm %v", got.SignatureAlgorithm)
	case want.SignatureAlgorithm != 0 && want.SignatureAlgorithm != x509.PureEd25519 && got.SignatureAlgorithm != want.SignatureAlgorithm:
		return fmt.Sprintf("signature algorithm %v, not %v", got.SignatureAlgorithm, want.SignatureAlgorithm)
	case got.Version != want.Version:
		return fmt.Sprintf("version %d, not %d", got.Version, want.Version)
	case got.SerialNumber.Cmp(want.SerialNumber) != 0:
		return fmt.Sprintf("serial %v, not %v", got.SerialNumber, want.SerialNumber)
	case !sameName(got.Subject, want.Subject):
		return fmt.Sprintf("subject %#v, not %#v", got.Subject, want.Subject)
	case !sameName(got.Issuer, want.Issuer):
		return fmt.Sprintf("issuer %#v, not %#v", got.Issuer, want.Issuer)
	case !got.NotBefore.Equal(want.NotBefore) || !got.NotAfter.Equal(want.NotAfter):
		return fmt.Sprintf("valid %v to %v, not %v to %v", got.NotBefore, got.NotAfter, want.NotBefore, want.NotAfter)
	case !bytes.Equal(got.Signature, want.Signature):
		return fmt.Sprintf("signature %x, not %x", got.Signature, want.Signature)
	case want.Version != 3: // extensions mean nothing there and not every parser lists them
		want = &x509.Certificate{Raw: want.Raw, RawTBSCertificate: want.RawTBSCertificate, RawSubjectPublicKeyInfo: want.RawSubjectPublicKeyInfo, RawSubject: want.RawSubject, RawIssuer: want.RawIssuer, Extensions: got.Extensions}
	case len(got.Extensions) != len(want.Extensions):
		return fmt.Sprintf("%d extensions, not %d", len(got.Extensions), len(want.Extensions))
	}
	for i, e := range got.Extensions {
		if w := want.Extensions[i]; !e.Id.Equal(w.Id) || e.Critical != w.Critical || !bytes.Equal(e.Value, w.Value) {
			return fmt.Sprintf("extension %v, not %v", e, w)
		}
	}
	if !raw {
		return ""
	}
	for _, p := range []struct {
		what string
		a, b []byte
	}{
		{"bytes", got.Raw, want.Raw}, {"signed part", got.RawTBSCertificate, want.RawTBSCertificate},
		{"key info", got.RawSubjectPublicKeyInfo, want.RawSubjectPublicKeyInfo},
		{"raw subject", got.RawSubject, want.RawSubject}, {"raw issuer", got.RawIssuer, want.RawIssuer},
	} {
		if !bytes.Equal(p.a, p.b) {
			return fmt.Sprintf("%s %x, not %x", p.what, p.a, p.b)
		}
	}
	return ""
}

// c20Info: the certificate info of crt, whose encoding is raw.
func c20Info(c *mc.Ctx, crt *x509.Certificate, raw []byte) {
	m, s1, s2 := md5.Sum(raw), sha1.Sum(raw), sha256.Sum256(raw)
	want := apkverifier.CertInfo{Md5: hex.EncodeToString(m[:]), Sha1: hex.EncodeToString(s1[:]), Sha256: hex.EncodeToString(s2[:]),
		ValidFrom: crt.NotBefore, ValidTo: crt.NotAfter, Issuer: nameString(crt.Issuer), Subject: nameString(crt.Subject),
		SignatureAlgorithm: crt.SignatureAlgorithm.String(), SerialNumber: crt.SerialNumber}
	got := apkverifier.NewCertInfo(crt)
	var reused apkverifier.CertInfo
	reused.Fill(c20Other())
	reused.Fill(crt)
	for i, g := range []*apkverifier.CertInfo{got, &reused} {
		gs, ws := *g, want
		if gs.SerialNumber == nil || gs.SerialNumber.Cmp(ws.SerialNumber) != 0 || !gs.ValidFrom.Equal(ws.ValidFrom) || !gs.ValidTo.Equal(ws.ValidTo) {
			c.Failf("info %d: serial %v, %v to %v", i, gs.SerialNumber, gs.ValidFrom, gs.ValidTo)
		}
		gs.SerialNumber, ws.SerialNumber, gs.ValidFrom, ws.ValidFrom, gs.ValidTo, ws.ValidTo = nil, nil, time.Time{}, time.Time{}, time.Time{}, time.Time{}
		if gs != ws {
			c.Failf("info %d: %+v, not %+v", i, gs, ws)
		}
	}
	text := got.String()
	for _, part := range []string{want.Sha1, want.Subject, want.Issuer, crt.NotBefore.Format(time.RFC3339), crt.NotAfter.Format(time.RFC3339)} {
		if !strings.Contains(text, part) {
			c.Failf("%q does not say %q", text, part)
		}
	}
	if s := signingblock.PkixNameToString(&crt.Subject); s != want.Subject {
		c.Failf("name %q, not %q", s, want.Subject)
	}
}

var c20Other = sync.OnceValue(func() *x509.Certificate {
	crt, err := x509.ParseCertificate(gen.SelfCert(gen.EC(9)))
	if err != nil {
		panic(err)
	}
	return crt
})

func c20Parse(b []byte) (crt *x509.Certificate, err error, panicked string) {
	panicked = guardPanic(func() { crt, err = x509andr.ParseCertificateForGo(b) })
	return
}

// c20Judge parses b and, where the standard parser takes canon (b itself, if nil), compares. It tells whether it could.
func c20Judge(c *mc.Ctx, b, canon []byte, info bool) bool {
	c.Trace(1)
	if len(c.Fails()) > 3 {
		return false
	}
	got, err, p := c20Parse(b)
	if p != "" {
		c.Failf("panic %s for %x", p, b)
		return false
	}
	raw := canon == nil || bytes.Equal(b, canon)
	if raw {
		canon = b
	}
	want, werr := x509.ParseCertificate(canon)
	if werr != nil || !ourKey(want.PublicKey) {
		mc.Outcome("not a certificate")
		return false
	}
	if err != nil {
		// the standard parser overlooks junk after the parts of the structures
		var strict a20Cert
		if _, e := asn1.Unmarshal(canon, &strict); e != nil || !a20Tidy(strict.TBS.Exts) {
			mc.Outcome("refusal not judged")
			return false
		}
		if back, e := asn1.Marshal(strict); e != nil || !bytes.Equal(back, canon) || !a20Name(strict.TBS.Issuer) || !a20Name(strict.TBS.Subject) {
			mc.Outcome("refusal not judged")
			return false
		}
		// nothing after the key, in or after its structure, and no junk in the parameters
		if key := strict.TBS.SPKI.Key.RightAlign(); want.PublicKeyAlgorithm != x509.ECDSA {
			back := gen.BigInt(big.NewInt(0))
			if k, ok := want.PublicKey.(*rsa.PublicKey); ok {
				back = gen.Seq(gen.BigInt(k.N), gen.Int(int64(k.E)))
			} else if k, ok := want.PublicKey.(*dsa.PublicKey); ok {
				back = gen.BigInt(k.Y)
				if !bytes.Equal(strict.TBS.SPKI.Alg.Parameters.FullBytes, gen.Seq(gen.BigInt(k.P), gen.BigInt(k.Q), gen.BigInt(k.G))) {
					mc.Outcome("refusal not judged")
					return false
				}
			}
			if !bytes.Equal(key, back) {
				mc.Outcome("refusal not judged")
				return false
			}
		}
		c.Failf("not parsed (%v): %.200x…", err, b)
		return false
	}
	mc.Outcome("certificate compared")
	if d := c20Same(got, want, raw); d != "" {
		c.Failf("%s: %.60x…", d, b)
	}
	if !bytes.Equal(got.Raw, b) {
		c.Failf("Raw is %x, not %x", got.Raw, b)
	}
	if info {
		c20Info(c, got, b)
	}
	return true
}

// a20Name tells whether a name is made of sets of pairs of an identifier and a string, and of nothing else.
func a20Name(name asn1.RawValue) bool {
	if name.Class != 0 || name.Tag != 16 || !name.IsCompound {
		return false
	}
	for b := name.Bytes; len(b) > 0; {
		var set asn1.RawValue
		var err error
		if b, err = asn1.Unmarshal(b, &set); err != nil || set.Class != 0 || set.Tag != 17 || !set.IsCompound || len(set.Bytes) == 0 {
			return false
		}
		for in := set.Bytes; len(in) > 0; {
			var at struct {
				Type  asn1.ObjectIdentifier
				Value asn1.RawValue
			}
			var v any
			rest, err := asn1.Unmarshal(in, &at)
			if err != nil {
				return false
			}
			if _, err := asn1.Unmarshal(at.Value.FullBytes, &v); err != nil {
				return false
			}
			if _, ok := v.(string); !ok {
				return false
			}
			if back, err := asn1.Marshal(at); err != nil || !bytes.Equal(back, in[:len(in)-len(rest)]) {
				return false
			}
			in = rest
		}
	}
	return true
}

type a20Cert struct {
	TBS struct {
		Version  int `asn1:"optional,explicit,default:0,tag:0"`
		Serial   *big.Int
		Alg      pkix.AlgorithmIdentifier
		Issuer   asn1.RawValue
		Validity struct{ From, To time.Time }
		Subject  asn1.RawValue
		SPKI     struct {
			Alg pkix.AlgorithmIdentifier
			Key asn1.BitString
		}
		ID1  asn1.BitString   `asn1:"optional,tag:1"`
		ID2  asn1.BitString   `asn1:"optional,tag:2"`
		Exts []pkix.Extension `asn1:"optional,explicit,tag:3"`
	}
	Alg pkix.AlgorithmIdentifier
	Sig asn1.BitString
}

type (
	a20Sub struct {
		Base asn1.RawValue
		Min  int `asn1:"optional,tag:0"`
		Max  int `asn1:"optional,tag:1"`
	}
	a20Names struct {
		Permitted []a20Sub `asn1:"optional,tag:0"`
		Excluded  []a20Sub `asn1:"optional,tag:1"`
	}
	a20Basic struct {
		CA  bool `asn1:"optional"`
		Len int  `asn1:"optional,default:-1"`
	}
	a20Point struct {
		Name struct {
			Full     []asn1.RawValue                   `asn1:"optional,tag:0"`
			Relative pkix.RelativeDistinguishedNameSET `asn1:"optional,tag:1"`
		} `asn1:"optional,tag:0"`
		Reasons asn1.BitString `asn1:"optional,tag:1"`
		Issuer  asn1.RawValue  `asn1:"optional,tag:2"`
	}
	a20AKI struct {
		ID     []byte        `asn1:"optional,tag:0"`
		Issuer asn1.RawValue `asn1:"optional,tag:1"`
		Serial *big.Int      `asn1:"optional,tag:2"`
	}
	a20Policy struct {
		ID         asn1.ObjectIdentifier
		Qualifiers []asn1.RawValue `asn1:"optional"`
	}
	a20Access struct {
		Method   asn1.ObjectIdentifier
		Location asn1.RawValue
	}
)

// a20Tidy tells whether the extensions the parsers look into have no junk in or after them: the standard parser
// overlooks some of it.
func a20Tidy(exts []pkix.Extension) bool {
	for _, e := range exts {
		var v any
		switch e.Id.String() {
		case "2.5.29.15":
			v = new(asn1.BitString)
		case "2.5.29.19":
			v = new(a20Basic)
		case "2.5.29.17":
			v = new([]asn1.RawValue)
		case "2.5.29.14":
			v = new([]byte)
		case "2.5.29.35":
			v = new(a20AKI)
		case "2.5.29.37":
			v = new([]asn1.ObjectIdentifier)
		case "2.5.29.32":
			v = new([]a20Policy)
		case "2.5.29.30":
			v = new(a20Names)
		case "2.5.29.31":
			v = new([]a20Point)
		case "1.3.6.1.5.5.7.1.1":
			v = new([]a20Access)
		default:
			continue
		}
		if rest, err := asn1.Unmarshal(e.Value, v); err != nil || len(rest) > 0 {
			return false
		}
		if l, ok := v.(*[]asn1.RawValue); ok && slices.ContainsFunc(*l, func(r asn1.RawValue) bool {
			return r.Class != 2 || r.IsCompound == (r.Tag == 1 || r.Tag == 2 || r.Tag == 6 || r.Tag == 7 || r.Tag == 8)
		}) {
			return false
		}
		back, err := asn1.Marshal(reflect.ValueOf(v).Elem().Interface())
		if err != nil || !bytes.Equal(back, e.Value) {
			return false
		}
	}
	return true
}

// ---- the spaces

type c20Key struct {
	name string
	spki []byte
	key  *gen.Key // of the same type
}

func rsaSPKI(n *big.Int, e int64, params []byte) []byte {
	return gen.Seq(gen.AlgID("1.2.840.113549.1.1.1", params), gen.Bits(gen.Seq(gen.BigInt(n), gen.Int(e))))
}

func c20Keys() (out []c20Key) {
	for _, n := range gen.Names() {
		out = append(out, c20Key{n, gen.K(n).SPKI, gen.K(n)})
	}
	r := gen.K("rsa1024-0")
	for _, bits := range []uint{2, 8, 9, 64, 127, 128, 511, 512, 1023, 1024, 2047, 2048, 3072, 4096, 8192} {
		n := new(big.Int).Lsh(big.NewInt(1), bits)
		n.Sub(n, big.NewInt(159))
		n.Abs(n)
		n.SetBit(n, 0, 1)
		for _, e := range []int64{1, 2, 3, 17, 127, 128, 65537, 1<<31 - 1, 1 << 31} {
			out = append(out, c20Key{fmt.Sprintf("rsa %d bits, exponent %d", bits, e), rsaSPKI(n, e, gen.Null()), r})
		}
	}
	for _, v := range [][4]int64{{1, 1, 1, 1}, {1 << 62, 3, 127, 128}, {255, 256, 32767, 32768}} {
		out = append(out, c20Key{fmt.Sprint("dsa ", v), gen.Seq(gen.AlgID("1.2.840.10040.4.1", gen.Seq(gen.Int(v[0]), gen.Int(v[1]), gen.Int(v[2]))), gen.Bits(gen.Int(v[3]))), gen.K("dsa1024-0")})
	}
	return
}

func c20Keyspace(c *mc.Ctx) {
	k := mc.Pick(c, "key", c20Keys()...)
	version := mc.Pick(c, "version", 1, 2, 0)
	c.Label("%s, version %d", k.name, version)
	spec := gen.CertSpec{Version: version, Issuer: gen.CN("issuer"), Subject: gen.CN("subject"), Key: k.key, RawSPKI: k.spki}
	if version == 0 {
		spec.Exts = gen.Seq(gen.OID("2.5.29.14"), gen.Octets(gen.Octets([]byte{1, 2, 3})))
	}
	c.State([]byte(k.name), []byte{byte(version)})
	c20Judge(c, spec.DER(), nil, true)
	c20PKIX(c, k.spki, nil)
}

// c20PKIX is c20Judge for a public key.
func c20PKIX(c *mc.Ctx, b, canon []byte) bool {
	c.Trace(1)
	if len(c.Fails()) > 3 {
		return false
	}
	var got any
	var err error
	if p := guardPanic(func() { got, err = x509andr.ParsePKIXPublicKey(b) }); p != "" {
		c.Failf("key: panic %s for %x", p, b)
		return false
	}
	if canon == nil {
		canon = b
	}
	want, werr := x509.ParsePKIXPublicKey(canon)
	if werr != nil || !ourKey(want) {
		return false
	}
	if err != nil {
		c.Failf("key not parsed (%v): %.200x…", err, b)
	} else if !samePublic(got, want) {
		c.Failf("key %v, not %v: %x", got, want, b)
	}
	return true
}

var c20Attrs = []string{"2.5.4.6", "2.5.4.8", "2.5.4.7", "2.5.4.10", "2.5.4.11", "2.5.4.3", "2.5.4.5", "2.5.4.9", "2.5.4.17", "2.5.4.4", "1.2.840.113549.1.9.1", "0.9.2342.19200300.100.1.25", "2.999.3"}

var c20Values = []struct {
	tag byte
	val string
}{
	{0x13, "CZ"}, {0x0c, "Žluťoučký, kůň; O=x"}, {0x16, "a@b.example"}, {0x1e, "\x01\x7d\x00l"}, {0x14, "plain"}, {0x12, "01 23"}, {0x0c, ""}, {0x13, ""},
	{0x13, strings.Repeat("long ", 60)}, {0x13, "*&"}, {0x0c, "\x00"}, {0x0c, "\xff"}, {0x13, "@"}, {0x1e, "\x00"}, {0x16, "\x80"}, {0x1c, "\x00\x00\x00a"},
	{0x1b, "general"}, {0x04, "octets"}, {0x02, "\x05"}, {0x05, ""},
}

// c20Names: every list of attributes, every split of it into sets, as the subject and as the issuer.
func c20Names(c *mc.Ctx) {
	n := c.Choose("attributes", 4)
	var list [][]byte
	long := n == 3 && !c.Deep()
	for i := 0; i < n; i++ {
		attrs, values := c20Attrs, c20Values
		if n == 3 {
			attrs, values = c20Attrs[:8], c20Values[:5]
		}
		if long {
			attrs, values = c20Attrs[:6], c20Values[:2]
		}
		a := mc.Pick(c, "attribute", attrs...)
		v := mc.Pick(c, "value", values...)
		list = append(list, gen.Seq(gen.OID(a), gen.TLV(v.tag, []byte(v.val))))
	}
	split := 0
	if n > 1 {
		split = c.Choose("sets", 1<<(n-1))
	}
	var name []byte
	for i := 0; i < n; {
		set := list[i]
		for i++; i < n && split>>(i-1)&1 == 1; i++ {
			set = gen.Cat(set, list[i])
		}
		name = append(name, gen.Set(set)...)
	}
	name = gen.Seq(name)
	c.State(name)
	other := gen.CN("other").DER()
	for _, b := range []gen.CertSpec{{RawSubject: name, RawIssuer: other}, {RawSubject: other, RawIssuer: name}} {
		b.Key, b.DummySig = gen.EC(0), true
		c20Judge(c, b.DER(), nil, true)
	}
}

func c20Ext(oid string, critical int, val []byte) []byte {
	var crit []byte
	if critical == 1 {
		crit = gen.Bool(true)
	} else if critical == 2 {
		crit = gen.Bool(false)
	}
	return gen.Seq(gen.OID(oid), crit, gen.Octets(val))
}

func c20ExtTable() (out [][]byte) {
	gn := func(tag byte, b ...byte) []byte { return gen.TLV(0x80|tag, b) }
	dir := gen.TLV(0xa4, gen.CN("dir").DER())
	ip := func(n int) []byte { return gn(7, bytes.Repeat([]byte{255}, n)...) }
	sub := func(b ...[]byte) []byte { return gen.Seq(b...) }
	dns, mail, uri := gn(2, []byte("a.example")...), gn(1, []byte("x@a.example")...), gn(6, []byte("http://a.example/x")...)
	mailDom, uriDom := gn(1, []byte("a.example")...), gn(6, []byte(".a.example")...)
	other := gen.TLV(0xa0, gen.OID("1.2.3"), gen.TLV(0xa0, gen.Null()))
	rid := gn(8, 0x2a, 3)
	add := func(oid string, vals ...[]byte) {
		for _, v := range vals {
			for crit := 0; crit < 2; crit++ {
				out = append(out, c20Ext("2.5.29."+oid, crit, v))
			}
		}
	}
	cat := func(b ...[]byte) []byte { return gen.Seq(b...) }
	add("15", []byte{3, 1, 0}, []byte{3, 2, 0, 0xff}, []byte{3, 2, 5, 0xa0}, []byte{3, 3, 7, 0xff, 0x80}, []byte{3, 5, 0, 1, 2, 3, 4})
	add("19", cat(), cat(gen.Bool(true)), cat(gen.Bool(true), gen.Int(0)), cat(gen.Bool(true), gen.Int(300)), cat(gen.Int(5)), cat(gen.Bool(true), gen.Int(-1)), cat(gen.Bool(true), gen.Int(1<<40)))
	add("17", cat(), cat(dns), cat(mail), cat(uri), cat(ip(4)), cat(ip(16)), cat(ip(5)), cat(dir), cat(other), cat(rid), cat(dns, mail, uri, ip(4), dir, other, rid), cat(gn(2, 0xe9)), cat(gn(2)))
	add("18", cat(dns))
	add("14", gen.Octets([]byte("key id")), gen.Octets(nil))
	add("35", cat(gn(0, 1, 2)), cat(), cat(gen.TLV(0xa1, dir), gn(2, 5)), cat(gn(0, 1, 2), gen.TLV(0xa1, dir), gn(2, 5)))
	add("37", cat(), cat(gen.OID("2.5.29.37.0")), cat(gen.OID("1.3.6.1.5.5.7.3.1"), gen.OID("1.2.3.4")), cat(gen.OID("1.3.6.1.4.1.311.10.3.3")))
	add("32", cat(), cat(cat(gen.OID("2.5.29.32.0"))), cat(cat(gen.OID("1.2.3"), cat(cat(gen.OID("1.3.6.1.5.5.7.2.1"), gen.TLV(0x16, []byte("http://x"))))), cat(gen.OID("1.2.4"))))
	tree := func(b ...[]byte) []byte {
		var subs [][]byte
		for _, x := range b {
			subs = append(subs, sub(x))
		}
		return gen.Cat(subs...)
	}
	for _, base := range [][]byte{dns, mailDom, uriDom, ip(8), ip(32), dir, other, rid, gn(2), gn(2, []byte(".b.example")...), mail} {
		add("30", cat(gen.TLV(0xa0, tree(base))), cat(gen.TLV(0xa1, tree(base))), cat(gen.TLV(0xa0, tree(dns, base)), gen.TLV(0xa1, tree(base, dns))))
	}
	add("30", cat(gen.TLV(0xa0, sub(dns, gn(0, 0)))), cat(gen.TLV(0xa0, sub(dns, gn(0, 0), gn(1, 3)))))
	full := func(b ...[]byte) []byte { return gen.TLV(0xa0, gen.TLV(0xa0, b...)) }
	add("31", cat(), cat(cat(full(uri))), cat(cat(full(dir))), cat(cat(full(dir, uri))), cat(cat(full(uri, uri)), cat(full(uri))), cat(cat(full(uri), gn(1, 0, 1))), cat(cat(gen.TLV(0xa2, dir))),
		cat(cat(gen.TLV(0xa0, gen.TLV(0xa1, gen.Seq(gen.OID("2.5.4.3"), gen.TLV(0x13, []byte("x"))))), gen.TLV(0xa2, dir))), cat(cat()))
	add("36", cat(gn(0, 1)), cat())
	add("33", cat(cat(gen.OID("1.2"), gen.OID("1.3"))))
	add("54", gen.Int(3))
	add("99", []byte("not DER"), nil)
	for crit := 0; crit < 2; crit++ {
		for _, loc := range [][]byte{uri, dir, dns} {
			out = append(out, c20Ext("1.3.6.1.5.5.7.1.1", crit, cat(cat(gen.OID("1.3.6.1.5.5.7.48.1"), loc), cat(gen.OID("1.3.6.1.5.5.7.48.2"), loc), cat(gen.OID("1.2.3"), loc))))
		}
		out = append(out, c20Ext("1.3.6.1.4.1.11129.2.4.2", crit, []byte("sct")), c20Ext("2.16.840.1.113730.1.13", crit, gen.TLV(0x16, []byte("comment"))))
	}
	return
}

var c20Table = sync.OnceValue(c20ExtTable)

// c20Exts: every single extension and every pair of them.
func c20Exts(c *mc.Ctx) {
	t := c20Table()
	a := t[c.Choose("extension", len(t))]
	list := [][]byte{nil}
	for _, b := range t {
		list = append(list, b)
	}
	if !c.Deep() {
		list = list[:1+len(t)/2]
	}
	c.State(a)
	for _, b := range list {
		exts := gen.Cat(a, b)
		if b != nil && bytes.HasPrefix(b, a) {
			continue
		}
		spec := gen.CertSpec{Issuer: gen.CN("i"), Subject: gen.CN("s"), Key: gen.EC(1), Exts: exts, DummySig: true}
		c20Judge(c, spec.DER(), nil, b == nil)
	}
}

// c20Forms: version, serial, dates, signature algorithm and unique identifiers.
func c20Forms(c *mc.Ctx) {
	which := c.Choose("part", 5)
	version := gen.TLV(0xa0, gen.Int(2))
	serial := gen.Int(1)
	alg := gen.AlgID("1.2.840.10045.4.3.2", nil)
	validity := gen.Seq(gen.TLV(0x17, []byte("150101000000Z")), gen.TLV(0x18, []byte("20510101000000Z")))
	var ids []byte
	sig := gen.Bits([]byte("some signature"))
	switch which {
	case 0:
		v := new(big.Int).Lsh(big.NewInt(1), mc.Pick[uint](c, "bits", 0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 158, 159, 160, 167, 168, 1000))
		v.Add(v, big.NewInt(int64(c.Choose("off", 3)-1)))
		if c.Bool("negative") {
			v.Neg(v)
		}
		serial = gen.BigInt(v)
	case 1:
		times := [][]byte{}
		for _, s := range []string{"500101000000Z", "491231235959Z", "000229235959Z", "010229000000Z", "991231235959Z", "150101000000+0100", "1501010000Z", "150101000060Z", "150131240000Z", "150431000000Z", "160229120000Z"} {
			times = append(times, gen.TLV(0x17, []byte(s)))
		}
		for _, s := range []string{"20500101000000Z", "20491231235959Z", "19500101000000Z", "19491231235959Z", "00010101000000Z", "99991231235959Z", "20000229120000Z", "21000229120000Z", "20150101000000+0100", "201501010000Z", "20150101000000.5Z", "00000101000000Z"} {
			times = append(times, gen.TLV(0x18, []byte(s)))
		}
		validity = gen.Seq(mc.Pick(c, "not before", times...), mc.Pick(c, "not after", times...))
	case 2:
		var oids []string
		for i := 1; i <= 15; i++ {
			oids = append(oids, fmt.Sprintf("1.2.840.113549.1.1.%d", i))
		}
		for i := 1; i <= 4; i++ {
			oids = append(oids, fmt.Sprintf("1.2.840.10045.4.3.%d", i), fmt.Sprintf("2.16.840.1.101.3.4.3.%d", i))
		}
		oids = append(oids, "1.2.840.10045.4.1", "1.2.840.10040.4.1", "1.2.840.10040.4.3", "1.3.14.3.2.29", "1.3.14.3.2.27", "1.3.101.112", "1.2.3.4")
		h := func(n int) []byte { return gen.AlgID(fmt.Sprintf("2.16.840.1.101.3.4.2.%d", n), gen.Null()) }
		pss := func(hash, mgf []byte, salt int64, rest ...[]byte) []byte {
			return gen.Seq(gen.TLV(0xa0, hash), gen.TLV(0xa1, gen.AlgID("1.2.840.113549.1.1.8", mgf)), gen.TLV(0xa2, gen.Int(salt)), gen.Cat(rest...))
		}
		sha1id := gen.AlgID("1.3.14.3.2.26", gen.Null())
		params := [][]byte{nil, gen.Null(), gen.Seq(), pss(h(1), h(1), 32), pss(h(2), h(2), 48), pss(h(3), h(3), 64), pss(sha1id, sha1id, 20), pss(h(1), h(2), 32), pss(h(1), h(1), 31), pss(h(2), h(2), 32), pss(h(3), h(3), 63),
			pss(h(1), h(1), 32, gen.TLV(0xa3, gen.Int(1))), pss(h(1), h(1), 32, gen.TLV(0xa3, gen.Int(2))), gen.OID("1.2.840.10045.3.1.7"), pss(gen.AlgID("2.16.840.1.101.3.4.2.1", nil), gen.AlgID("2.16.840.1.101.3.4.2.1", nil), 32)}
		alg = gen.AlgID(mc.Pick(c, "algorithm", oids...), mc.Pick(c, "parameters", params...))
	case 3:
		version = mc.Pick(c, "version", nil, gen.TLV(0xa0, gen.Int(0)), gen.TLV(0xa0, gen.Int(1)), gen.TLV(0xa0, gen.Int(2)), gen.TLV(0xa0, gen.Int(3)))
		ids = mc.Pick(c, "ids", nil, gen.TLV(0x81, []byte{0, 1}), gen.TLV(0x82, []byte{0, 1}), gen.TLV(0x81, []byte{0, 1}, nil), gen.Cat(gen.TLV(0x81, []byte{0, 1}), gen.TLV(0x82, []byte{0, 2})),
			gen.TLV(0xa3, gen.Seq()), gen.Cat(gen.TLV(0x81, []byte{0}), gen.TLV(0xa3, gen.Seq(c20Ext("2.5.29.14", 0, gen.Octets([]byte{1}))))), gen.TLV(0xa3, gen.Seq(c20Ext("2.5.29.14", 2, gen.Octets([]byte{1})))))
	case 4:
		pad := c.Choose("unused bits", 9)
		body := mc.Pick(c, "signature", []byte(nil), []byte{0x80}, []byte{0xff, 0x00}, []byte{1, 2, 3, 0xf0})
		sig = gen.TLV(3, []byte{byte(pad)}, body)
	}
	tbs := gen.Seq(version, serial, alg, gen.CN("issuer").DER(), validity, gen.CN("subject").DER(), gen.EC(0).SPKI, ids)
	c.State(tbs, sig)
	c20Judge(c, gen.Seq(tbs, alg, sig), nil, true)
}

var c20Bases = sync.OnceValue(func() [][]byte {
	rich := gen.Cat(c20Ext("2.5.29.15", 1, []byte{3, 2, 5, 0xa0}), c20Ext("2.5.29.19", 1, gen.Seq(gen.Bool(true), gen.Int(2))), c20Ext("2.5.29.14", 0, gen.Octets([]byte("id"))),
		c20Ext("2.5.29.17", 0, gen.Seq(gen.TLV(0x82, []byte("a.b")), gen.TLV(0x87, []byte{1, 2, 3, 4}))), c20Ext("2.5.29.30", 0, gen.Seq(gen.TLV(0xa0, gen.Seq(gen.TLV(0x82, []byte("a.b")))))),
		c20Ext("2.5.29.31", 0, gen.Seq(gen.Seq(gen.TLV(0xa0, gen.TLV(0xa0, gen.TLV(0x86, []byte("u:v"))))))), c20Ext("2.5.29.32", 0, gen.Seq(gen.Seq(gen.OID("1.2.3")))), c20Ext("2.5.29.35", 0, gen.Seq(gen.TLV(0x80, []byte("aki")))),
		c20Ext("2.5.29.37", 0, gen.Seq(gen.OID("1.3.6.1.5.5.7.3.3"))), c20Ext("1.3.6.1.5.5.7.1.1", 0, gen.Seq(gen.Seq(gen.OID("1.3.6.1.5.5.7.48.1"), gen.TLV(0x86, []byte("u:v"))))))
	small := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 1024), big.NewInt(105))
	p := gen.Name{{OID: "2.5.4.6", Tag: 0x13, Val: "CZ"}, {OID: "2.5.4.3", Tag: 0x0c, Val: "x"}}
	return [][]byte{
		gen.CertSpec{Version: 1, Issuer: gen.CN("i"), Subject: p, Key: gen.EC(0), DummySig: true}.DER(),
		gen.CertSpec{Issuer: gen.CN("i"), Subject: p, Key: gen.K("rsa1024-0"), RawSPKI: rsaSPKI(small, 65537, gen.Null()), Exts: rich, DummySig: true}.DER(),
		gen.CertSpec{Version: 1, Issuer: gen.CN("i"), Subject: p, Key: gen.K("dsa1024-0"), DummySig: true}.DER(),
	}
})

// c20Flips: every byte of some certificates set to every value.
func c20Flips(c *mc.Ctx) {
	b := c20Bases()
	base := b[c.Choose("certificate", len(b))]
	pos := c.Choose("position", len(base))
	c.State(base, []byte{byte(pos), byte(pos >> 8)})
	x := bytes.Clone(base)
	for v := 0; v < 256; v++ {
		x[pos] = byte(v)
		c20Judge(c, x, nil, false)
	}
	if pos > 0 {
		c20Judge(c, base[:pos], nil, false)
	}
}

// c20Quirk: the structural edits, one or two at a time; whatever is the same as an acceptable certificate to the
// lenient decoder is parsed to the same thing.
func c20Quirks(c *mc.Ctx) {
	b := c20Bases()
	i := c.Choose("certificate", len(b))
	pairs := c.Bool("two edits")
	size := 0
	a19Parse(b[i]).walk(func(*a19Node) { size++ })
	target := c.Choose("node", size)
	edit := c.Choose("edit", len(a19Edits))
	pick := func(root *a19Node, k int) (n *a19Node) {
		root.walk(func(x *a19Node) {
			if k == 0 {
				n = x
			}
			k--
		})
		return
	}
	mk := func() *a19Node {
		root := a19Parse(b[i])
		a19Edits[edit].f(pick(root, target))
		return root
	}
	c.State([]byte{byte(i), byte(target), byte(edit), byte(b2i(pairs))})
	one := mk().encode()
	good := c20Judge(c, one, c20Canon(one), false)
	if !pairs || !good && !c.Deep() {
		return
	}
	// a second edit elsewhere, of one that was acceptable
	n2 := 0
	mk().walk(func(*a19Node) { n2++ })
	for k := 0; k < n2; k++ {
		for e := range a19Edits {
			root := mk()
			a19Edits[e].f(pick(root, k))
			enc := root.encode()
			c20Judge(c, enc, c20Canon(enc), false)
		}
	}
}

// c20Canon is the certificate in DER, or itself if it cannot be.
func c20Canon(b []byte) []byte {
	if n := ref.NormDER(b, 0, false); n != nil {
		if _, rest := derRest(n); rest == 0 {
			return n
		}
	}
	return b
}

func derRest(b []byte) (ok bool, rest int) {
	h := a19RawLen(b)
	return h >= 0, len(b) - h
}

// a19RawLen is the size of the first DER value of b, -1 if there is none.
func a19RawLen(b []byte) int {
	if len(b) < 2 {
		return -1
	}
	n, l := 2, int(b[1])
	if l >= 0x80 {
		k := l & 0x7f
		l = 0
		for i := 0; i < k && n < len(b); i++ {
			l = l<<8 | int(b[n])
			n++
		}
	}
	return n + l
}

// c20RSA: RSA keys written in the ways Android tolerates are the canonical key.
func c20RSA(c *mc.Ctx) {
	bits := mc.Pick[uint](c, "bits", 8, 16, 24, 64, 128, 512, 1024, 2048, 4096)
	var n *big.Int
	switch c.Choose("modulus", 7) {
	case 0:
		n = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	case 1:
		n = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), bits-1), big.NewInt(1))
	case 2:
		n = new(big.Int).Lsh(big.NewInt(1), bits-1)
	case 3:
		n = new(big.Int).SetBytes(bytes.Repeat([]byte{0xa5}, int(bits/8)))
	case 4:
		x := bytes.Repeat([]byte{0}, int(bits/8))
		x[len(x)-1] = 0x01
		x[0] |= 0x81
		n = new(big.Int).SetBytes(x)
	case 5:
		x := bytes.Repeat([]byte{0x7f}, int(bits/8))
		x[0] = 0xff
		n = new(big.Int).SetBytes(x)
	case 6:
		x := bytes.Repeat([]byte{0}, int(bits/8))
		x[0] = 0xff
		x[len(x)-1] |= 1
		n = new(big.Int).SetBytes(x)
	}
	e := mc.Pick[int64](c, "exponent", 3, 65537, 1<<31-1)
	params := mc.Pick(c, "parameters", gen.Null(), nil, gen.Seq(), gen.OID("1.2.3"))
	negative := c.Bool("negative")
	longLen := c.Bool("long length")
	num := gen.BigInt(n)
	if negative {
		if b := n.Bytes(); len(b) > 1 && b[0] == 0xff && b[1] >= 0x80 {
			c.Skip() // would not be the minimal form of any integer
		}
		num = gen.TLV(2, n.Bytes()) // as if written without the sign byte
	}
	exp := gen.Int(e)
	if longLen {
		exp = append([]byte{2, 0x82, 0}, exp[1:]...)
	}
	spki := gen.Seq(gen.AlgID("1.2.840.113549.1.1.1", params), gen.Bits(gen.Seq(num, exp)))
	canon := rsaSPKI(n, e, gen.Null())
	c.State(spki)
	if !c20PKIX(c, spki, canon) {
		return
	}
	mk := func(spki []byte) []byte {
		return gen.CertSpec{Issuer: gen.CN("i"), Subject: gen.CN("s"), Key: gen.K("rsa1024-0"), RawSPKI: spki, DummySig: true}.DER()
	}
	quirky, plain := mk(spki), mk(canon)
	c20Judge(c, quirky, plain, true)
	if negative { // what is compared as the key is the canonical key
		if crt, err, _ := c20Parse(quirky); err == nil && !bytes.Equal(crt.RawSubjectPublicKeyInfo, canon) {
			c.Failf("key info %x, not %x", crt.RawSubjectPublicKeyInfo, canon)
		}
	} else if crt, err, _ := c20Parse(quirky); err == nil && !bytes.Equal(crt.RawSubjectPublicKeyInfo, spki) {
		c.Failf("key info %x, not %x", crt.RawSubjectPublicKeyInfo, spki)
	}
	if crt, err, _ := c20Parse(quirky); err == nil { // and it verifies what the canonical key verifies
		std, _ := x509.ParsePKIXPublicKey(canon)
		h := sha256.Sum256([]byte("x"))
		if std != nil && (rsa.VerifyPKCS1v15(std.(*rsa.PublicKey), crypto.SHA256, h[:], nil) == nil) != (rsa.VerifyPKCS1v15(crt.PublicKey.(*rsa.PublicKey), crypto.SHA256, h[:], nil) == nil) {
			c.Failf("the keys verify differently")
		}
	}
}

// c20Lists: concatenated certificates.
func c20Lists(c *mc.Ctx) {
	n := c.Choose("certificates", 4)
	var all []byte
	var each [][]byte
	bad := false
	for i := 0; i < n; i++ {
		k := c.Choose("certificate", 5)
		var b []byte
		switch k {
		case 0, 1, 2:
			b = c20Bases()[k]
		case 3:
			b = append(bytes.Clone(c20Bases()[0]), 0)
			bad = true
		case 4:
			b = c20Bases()[1][:100]
			bad = true
		}
		each = append(each, b)
		all = append(all, b...)
	}
	c.State(all)
	c.Trace(1)
	var got []*x509.Certificate
	var err error
	if p := guardPanic(func() { got, err = x509andr.ParseCertificatesForGo(all) }); p != "" {
		c.Failf("panic %s", p)
		return
	}
	if bad {
		if err == nil {
			c.Failf("trailing or missing bytes in a list of %d accepted", n)
		}
		return
	}
	if err != nil || len(got) != n {
		c.Failf("%d certificates: %d, %v", n, len(got), err)
		return
	}
	for i, b := range each {
		want, _ := x509.ParseCertificate(b)
		if d := c20Same(got[i], want, true); d != "" {
			c.Failf("certificate %d: %s", i, d)
		}
	}
	if n > 1 {
		if _, err, _ := c20Parse(all); err == nil {
			c.Failf("several certificates parsed as one")
		}
	}
}

// c20Pool are leaves that differ in what the choice looks at, and in nothing but their bytes.
var c20Pool = sync.OnceValue(func() []*x509.Certificate {
	day := func(y int) time.Time { return time.Date(y, 6, 1, 0, 0, 0, 0, time.UTC) }
	serial := int64(1000)
	mk := func(name, sig string, from, to int) *x509.Certificate {
		serial++
		b := gen.CertSpec{Serial: big.NewInt(serial % 1010), Issuer: gen.CN("i"), Subject: gen.CN(name), Key: gen.K("rsa1024-0"), SigOID: "1.2.840.113549.1.1." + sig, NotBefore: day(from), NotAfter: day(to), DummySig: true}.DER()
		crt, err := x509.ParseCertificate(b)
		if err != nil {
			panic(err)
		}
		return crt
	}
	return []*x509.Certificate{
		mk("a", "11", 2000, 2100), mk("b", "11", 2000, 2100), mk("c", "11", 2000, 2010), mk("d", "11", 1990, 2010), mk("e", "11", 2000, 2090),
		mk("f", "5", 2005, 2100), mk("g", "5", 1990, 2000), mk("h", "13", 2090, 2100), mk("i", "13", 1980, 1990), mk("j", "99", 2000, 2100), mk("a", "11", 2000, 2100), mk("f", "5", 2005, 2100), mk("k", "11", 2080, 2100),
	}
})

func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// c20Best: every multiset of leaves in every order.
func c20Best(c *mc.Ctx) {
	pool := c20Pool()
	max := 4
	if c.Deep() {
		max = 6
	}
	n := c.Choose("signers", max+1)
	var set []*x509.Certificate
	last := 0
	for i := 0; i < n; i++ {
		last += c.Choose("leaf", len(pool)-last)
		set = append(set, pool[last])
	}
	// what follows the leaf in a chain
	var rest []*x509.Certificate
	if n > 0 && n < 4 {
		rest = mc.Pick(c, "chain", nil, []*x509.Certificate{pool[7]}, []*x509.Certificate{pool[0], pool[5]})
	}
	for _, s := range set {
		c.State(s.Raw, []byte{byte(len(rest))})
	}
	var first *x509.Certificate
	permutations(n, func(p []int) {
		if len(c.Fails()) > 2 {
			return
		}
		chains := make([][]*x509.Certificate, n)
		for i, k := range p {
			chains[i] = append([]*x509.Certificate{set[k]}, rest...)
		}
		c.Trace(1)
		var info *apkverifier.CertInfo
		var best *x509.Certificate
		if pn := guardPanic(func() { info, best = apkverifier.PickBestApkCert(chains) }); pn != "" {
			c.Failf("panic %s", pn)
			return
		}
		if n == 0 {
			if info != nil || best != nil {
				c.Failf("a certificate out of none")
			}
			return
		}
		if best == nil || info == nil {
			c.Failf("no certificate out of %d", n)
			return
		}
		if !slices.ContainsFunc(set, func(x *x509.Certificate) bool { return bytes.Equal(x.Raw, best.Raw) }) {
			c.Failf("%s is not a leaf", best.Subject)
		}
		if sum := sha256.Sum256(best.Raw); info.Sha256 != hex.EncodeToString(sum[:]) {
			c.Failf("the info is of another certificate")
		}
		if first == nil {
			first = best
		} else if !bytes.Equal(first.Raw, best.Raw) {
			c.Failf("%s or %s, depending on the order", first.Subject, best.Subject)
		}
	})
	// the exact information for the choice
	if n > 0 && first != nil {
		c20Info(c, first, first.Raw)
	}
}

func init() {
	register(&Check{ID: "C20", Spaces: []*mc.Space{
		{Name: "best", Doc: "multisets of up to 4 (6) leaves out of 13, all orders, three chain shapes", Run: c20Best},
		{Name: "keys", Doc: "every key type, curve, RSA size and exponent, certificate version", Run: c20Keyspace},
		{Name: "rsa", Doc: "RSA sizes x moduli x exponents x parameters x sign x length form", Run: c20RSA},
		{Name: "names", Doc: "names of up to 3 attributes: type x string type and value x grouping", Run: c20Names},
		{Name: "extensions", Doc: "every extension of a table, alone and in pairs", Run: c20Exts},
		{Name: "forms", Doc: "serials, dates, signature algorithms with parameters, versions, identifiers, signatures", Run: c20Forms},
		{Name: "flips", Doc: "every byte of three certificates, all 256 values; every truncation", Run: c20Flips},
		{Name: "quirks", Doc: "one structural edit anywhere in a certificate; two where the first leaves it acceptable", Run: c20Quirks},
		{Name: "lists", Doc: "up to 3 concatenated certificates, good and bad", Run: c20Lists},
	}})
}
