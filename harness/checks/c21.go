package checks

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"encoding/asn1"
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"sync"
	"time"

	"github.com/avast/apkverifier/fullsailor/pkcs7"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

var c21Certs = newCache[string, *x509.Certificate]()

func c21Cert(k string) *x509.Certificate {
	return c21Certs.get(k, func() *x509.Certificate {
		crt, err := x509.ParseCertificate(gen.SelfCert(gen.K(k)))
		if err != nil {
			panic(err)
		}
		return crt
	})
}

var c21RSA = []string{"rsa1024-0", "rsa1024-1", "rsa2048-0"}

func c21Content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + 3)
	}
	return b
}

// ---- what the library signs

type c21Attr struct {
	oid asn1.ObjectIdentifier
	val any
	out func() any // where it is decoded to; nil: not a type the decoder knows
}

func c21Out[T any]() func() any { return func() any { return new(T) } }

var c21Attrs = []c21Attr{
	{asn1.ObjectIdentifier{1, 2, 3}, "text", c21Out[string]()},
	{asn1.ObjectIdentifier{2, 999, 1}, []byte{0, 1, 2}, c21Out[[]byte]()},
	{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 2}, 1 << 40, c21Out[int64]()},
	{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 9}, asn1.ObjectIdentifier{1, 2, 3, 4}, c21Out[asn1.ObjectIdentifier]()},
	{asn1.ObjectIdentifier{1, 1}, []int{3, 2, 1}, c21Out[[]int]()},
	{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 6}, time.Date(2020, 2, 29, 1, 2, 3, 0, time.UTC), c21Out[time.Time]()},
	{asn1.ObjectIdentifier{0, 1}, c21Content(300), c21Out[[]byte]()},
	{asn1.ObjectIdentifier{2, 5, 4, 3}, []byte{}, c21Out[[]byte]()},
	{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3, 1}, "Ž", c21Out[string]()},
}

var (
	oidCT   = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}
	oidMD   = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
	oidTime = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}
)

func c21Sign(c *mc.Ctx) {
	n := c.Choose("signers", 4)
	var keys []string
	for i := 0; i < n; i++ {
		if n == 3 && !c.Deep() {
			keys = append(keys, c21RSA[(i+len(keys))%3])
			continue
		}
		keys = append(keys, mc.Pick(c, "key", c21RSA...))
	}
	size := mc.Pick(c, "content", 20, 0, 1, 64, 127, 128, 300, 70000)
	var attrs []c21Attr
	for i := 0; i < 2; i++ {
		if k := c.Choose("attribute", len(c21Attrs)+1); k > 0 && (len(attrs) == 0 || k < len(c21Attrs)) {
			attrs = append(attrs, c21Attrs[k-1])
		} else {
			break
		}
	}
	if len(attrs) == 2 && (reflect.DeepEqual(attrs[0].oid, attrs[1].oid) || n > 1 && size != 20 && !c.Deep()) {
		c.Skip()
	}
	extra := c.Choose("other certificates", 3)
	early := extra > 0 && c.Bool("before the signers")
	detached := c.Bool("detached")
	c.State([]byte(fmt.Sprint(keys, size, attrs, extra, early, detached)))
	c.Trace(1)

	content := c21Content(size)
	given := bytes.Clone(content)
	var want [][]byte
	from := time.Now().Add(-time.Second)
	sd, err := pkcs7.NewSignedData(given)
	if err != nil {
		c.Failf("NewSignedData: %v", err)
		return
	}
	other := func() {
		for i := 0; i < extra; i++ {
			crt := c21Cert([]string{"ec256-0", "rsa1024-2"}[i])
			sd.AddCertificate(crt)
			want = append(want, crt.Raw)
		}
	}
	if early {
		other()
	}
	for i, k := range keys {
		var conf pkcs7.SignerInfoConfig
		for _, a := range attrs {
			conf.ExtraSignedAttributes = append(conf.ExtraSignedAttributes, pkcs7.Attribute{Type: a.oid, Value: a.val})
		}
		if err := sd.AddSigner(c21Cert(k), gen.K(k).Priv, conf); err != nil {
			c.Failf("AddSigner %d: %v", i, err)
			return
		}
		want = append(want, c21Cert(k).Raw)
	}
	if !early {
		other()
	}
	if detached {
		sd.Detach()
	}
	msg, err := sd.Finish()
	if err != nil {
		c.Failf("Finish: %v", err)
		return
	}
	to := time.Now().Add(time.Second)
	if !bytes.Equal(given, content) {
		c.Failf("the content was changed")
	}
	c21Foreign(c, msg, content, detached, n)

	p7, err := pkcs7.Parse(msg)
	if err != nil {
		c.Failf("Parse: %v", err)
		return
	}
	if detached {
		if len(p7.Content) != 0 {
			c.Failf("detached, but it has content")
		}
		if size > 0 && p7.Verify() == nil {
			c.Failf("verifies without the content")
		}
		p7.Content = append(bytes.Clone(content), 0)
		if p7.Verify() == nil {
			c.Failf("verifies with other content")
		}
		p7.Content = content
	}
	if !bytes.Equal(p7.Content, content) {
		c.Failf("content %x, not %x", p7.Content, content)
	}
	var got [][]byte
	for _, crt := range p7.Certificates {
		got = append(got, crt.Raw)
	}
	if !slices.EqualFunc(got, want, bytes.Equal) {
		c.Failf("%d certificates, not the %d", len(got), len(want))
	}
	if err := p7.Verify(); (err == nil) != (n > 0) {
		c.Failf("Verify: %v", err)
	}
	infos := p7.GetSignerInfos()
	if len(infos) != n || len(p7.Signers) != n {
		c.Failf("%d signers, %d infos, not %d", len(p7.Signers), len(infos), n)
		return
	}
	only := p7.GetOnlySigner()
	if (n == 1) != (only != nil) || n == 1 && !bytes.Equal(only.Raw, c21Cert(keys[0]).Raw) {
		c.Failf("the only signer is %v", only)
	}
	left := slices.Clone(keys)
	digest := sha1.Sum(content)
	for i := -1; i < n; i++ {
		read := p7.UnmarshalSignedAttribute
		if i >= 0 {
			read = infos[i].UnmarshalSignedAttribute
			for j := range left { // they are a set
				if infos[i].IssuerAndSerialNumber.SerialNumber.Cmp(c21Cert(left[j]).SerialNumber) == 0 && bytes.Equal(infos[i].IssuerAndSerialNumber.IssuerName.FullBytes, c21Cert(left[j]).RawIssuer) {
					left = slices.Delete(left, j, j+1)
					break
				}
			}
			if len(left) != n-1-i {
				c.Failf("signer %d is %v", i, infos[i].IssuerAndSerialNumber)
			}
		}
		var md []byte
		var ct asn1.ObjectIdentifier
		var at time.Time
		if n == 0 {
			if read(oidMD, &md) == nil {
				c.Failf("an attribute without signers")
			}
			continue
		}
		e1, e2, e3 := read(oidMD, &md), read(oidCT, &ct), read(oidTime, &at)
		if e1 != nil || e2 != nil || e3 != nil || !bytes.Equal(md, digest[:]) || ct.String() != gen.OIDData || at.Before(from.Truncate(time.Second)) || at.After(to) {
			c.Failf("attributes: %x %v, %v %v, %v %v", md, e1, ct, e2, at, e3)
		}
		for _, a := range attrs {
			out := a.out()
			if err := read(a.oid, out); err != nil || fmt.Sprint(reflect.ValueOf(out).Elem().Interface()) != fmt.Sprint(a.val) {
				c.Failf("attribute %v: %v, %v", a.oid, reflect.ValueOf(out).Elem().Interface(), err)
			}
		}
		if read(asn1.ObjectIdentifier{1, 2, 99}, &md) == nil {
			c.Failf("an attribute that is not there")
		}
	}
	// the same signed by another key does not verify
	if n == 1 {
		sd, _ := pkcs7.NewSignedData(content)
		wrong := c21RSA[(slices.Index(c21RSA, keys[0])+1)%3]
		if err := sd.AddSigner(c21Cert(keys[0]), gen.K(wrong).Priv, pkcs7.SignerInfoConfig{}); err == nil {
			msg, err := sd.Finish()
			if err == nil {
				if p7, err := pkcs7.Parse(msg); err == nil && p7.Verify() == nil {
					c.Failf("verifies with a signature by another key")
				}
			}
		}
	}
}

// c21Foreign verifies a message the way others do.
func c21Foreign(c *mc.Ctx, msg, content []byte, detached bool, n int) {
	root := a19Parse(msg)
	sd := root.kids[1].kids[0]
	ci := sd.kids[2]
	if detached != (len(ci.kids) == 1) {
		c.Failf("content info with %d parts", len(ci.kids))
		return
	}
	if !detached && !bytes.Equal(ci.kids[1].kids[0].content, content) {
		c.Failf("the message holds other content")
	}
	set := sd.kids[len(sd.kids)-1]
	if set.tag != 17 || len(set.kids) != n {
		c.Failf("the message holds %d signers", len(set.kids))
		return
	}
	digest := sha1.Sum(content)
	for i, si := range set.kids {
		if len(si.kids) != 6 {
			c.Failf("signer %d: %d parts", i, len(si.kids))
			return
		}
		iss, ser := si.kids[1].kids[0].encode(), new(big.Int).SetBytes(si.kids[1].kids[1].content)
		found := false
		var key *x509.Certificate
		for _, k := range c21RSA {
			crt := c21Cert(k)
			if bytes.Equal(crt.RawIssuer, iss) && crt.SerialNumber.Cmp(ser) == 0 {
				key = crt
			}
		}
		attrs := si.kids[3]
		for _, a := range attrs.kids {
			if bytes.Equal(a.kids[0].encode(), gen.OID(gen.OIDMsgDigest)) {
				found = bytes.Equal(a.kids[1].kids[0].content, digest[:])
			}
		}
		if key == nil || !found || attrs.class != 2 || attrs.tag != 0 {
			c.Failf("signer %d: certificate %v, digest %v", i, key != nil, found)
			return
		}
		attrs.class, attrs.tag = 0, 17
		if !ref.VerifyP7Sig(key.RawSubjectPublicKeyInfo, "rsa", crypto.SHA1, attrs.encode(), si.kids[5].content) {
			c.Failf("signer %d: the signature is not one of the attributes as written", i)
		}
	}
}

// ---- tampering

type c21Signed struct {
	name     string
	msg      []byte
	content  []byte
	detached bool
	signers  []c21Signer
}

type c21Signer struct {
	sig   []byte
	attrs []byte // as c21AttrKey sees them
	key   any
}

func c21AttrKey(si pkcs7.SignerInfo) []byte {
	var parts [][]byte
	for _, a := range si.AuthenticatedAttributes {
		parts = append(parts, []byte(fmt.Sprintf("%v=%x;", a.Type, a.Value.Bytes)))
	}
	slices.SortFunc(parts, bytes.Compare)
	return bytes.Join(parts, nil)
}

type c21Want struct {
	key   string
	h     crypto.Hash
	attrs bool
	enc   string
}

func c21Make(name string, content []byte, detached bool, ws ...c21Want) c21Signed {
	out := c21Signed{name: name, content: content, detached: detached}
	spec := gen.P7Spec{Content: content}
	if detached {
		spec.Content = nil
	}
	for _, w := range ws {
		k := gen.K(w.key)
		crt := gen.SelfCert(k)
		if !slices.ContainsFunc(spec.Certs, func(b []byte) bool { return bytes.Equal(b, crt) }) {
			spec.Certs = append(spec.Certs, crt)
		}
		spec.Signers = append(spec.Signers, gen.SignerOf{Key: k, Cert: crt, Hash: w.h, Attrs: w.attrs, EncOID: w.enc}.Make(content))
	}
	out.msg = spec.DER()
	p7, err := pkcs7.Parse(out.msg)
	if err != nil {
		panic(err)
	}
	for i, si := range p7.GetSignerInfos() {
		out.signers = append(out.signers, c21Signer{sig: si.EncryptedDigest, attrs: c21AttrKey(si), key: c21Cert(ws[i].key).PublicKey})
	}
	return out
}

// c21Base are messages to tamper with. They all verify.
var c21Base = sync.OnceValue(func() []c21Signed {
	text, attrs := []byte("the signed content"), true
	ec := gen.ComboOID(gen.EC(0), crypto.SHA256)
	return []c21Signed{
		c21Make("rsa, attributes", text, false, c21Want{"rsa1024-0", crypto.SHA256, attrs, ""}),
		c21Make("ec, no attributes", text, false, c21Want{"ec256-0", crypto.SHA256, false, ec}),
		c21Make("two signers, detached", text, true, c21Want{"rsa1024-0", crypto.SHA1, attrs, ""}, c21Want{"ec256-1", crypto.SHA256, attrs, ec}),
		c21Make("rsa, sha1, no attributes", text, false, c21Want{"rsa1024-1", crypto.SHA1, false, gen.ComboOID(gen.K("rsa1024-1"), crypto.SHA1)}),
	}
})

// c21Tampered: a message that verifies is as it was made.
func c21Tampered(c *mc.Ctx, base *c21Signed, b []byte) {
	if len(c.Fails()) > 3 {
		return
	}
	c.Trace(1)
	ok := false
	var p7 *pkcs7.PKCS7
	if p := guardPanic(func() {
		var err error
		if p7, err = pkcs7.Parse(b); err != nil || p7 == nil {
			return
		}
		if base.detached && len(p7.Content) == 0 {
			p7.Content = base.content
		}
		ok = p7.Verify() == nil
		p7.GetOnlySigner()
	}); p != "" {
		c.Failf("panic %s: %x", p, b)
		return
	}
	if !ok {
		return
	}
	if !bytes.Equal(p7.Content, base.content) {
		c.Failf("verifies with content %x: %x", p7.Content, b)
	}
	infos := p7.GetSignerInfos()
	if len(infos) == 0 {
		c.Failf("verifies without signers: %x", b)
	}
	for _, si := range infos {
		attrs := c21AttrKey(si)
		var key any
		for _, crt := range p7.Certificates {
			if crt.SerialNumber.Cmp(si.IssuerAndSerialNumber.SerialNumber) == 0 && bytes.Equal(crt.RawIssuer, si.IssuerAndSerialNumber.IssuerName.FullBytes) {
				key = crt.PublicKey
				break
			}
		}
		if !slices.ContainsFunc(base.signers, func(s c21Signer) bool {
			return bytes.Equal(s.sig, si.EncryptedDigest) && bytes.Equal(s.attrs, attrs) && samePublic(key, s.key)
		}) {
			c.Failf("verifies with signature %x, attributes %s, key %v: %x", si.EncryptedDigest, attrs, key, b)
		}
	}
}

func c21Flips(c *mc.Ctx) {
	all := c21Base()
	base := &all[c.Choose("message", len(all))]
	pos := c.Choose("position", len(base.msg))
	c.Label("%s", base.name)
	c.State([]byte(base.name), []byte{byte(pos), byte(pos >> 8)})
	if pos == 0 {
		if p7, err := pkcs7.Parse(base.msg); err != nil {
			c.Failf("Parse: %v", err)
		} else {
			if base.detached {
				p7.Content = base.content
			}
			if err := p7.Verify(); err != nil {
				c.Failf("Verify: %v", err)
			}
		}
	}
	b := bytes.Clone(base.msg)
	for v := 0; v < 256; v++ {
		b[pos] = byte(v)
		c21Tampered(c, base, b)
	}
	c21Tampered(c, base, base.msg[:pos])
	c21Tampered(c, base, slices.Delete(bytes.Clone(base.msg), pos, pos+1))
	for _, v := range []byte{0, 1, 0x30, 0x80, 0xff, base.msg[pos]} {
		c21Tampered(c, base, slices.Insert(bytes.Clone(base.msg), pos, v))
	}
}

// c21Edits: the structural edits of C19, one or two; parts exchanged or repeated.
func c21Edits(c *mc.Ctx) {
	all := c21Base()
	base := &all[c.Choose("message", len(all))]
	size := 0
	a19Parse(base.msg).walk(func(*a19Node) { size++ })
	target := c.Choose("node", size)
	edit := c.Choose("edit", len(a19Edits)+2)
	c.Label("%s", base.name)
	c.State([]byte(base.name), []byte{byte(target), byte(target >> 8), byte(edit)})
	pick := func(root *a19Node, k int) (n *a19Node) {
		root.walk(func(x *a19Node) {
			if k == 0 {
				n = x
			}
			k--
		})
		return
	}
	if edit == len(a19Edits) { // the node replaced by each other node
		for k := 0; k < size; k++ {
			root := a19Parse(base.msg)
			*pick(root, target) = *pick(a19Parse(base.msg), k)
			c21Tampered(c, base, root.encode())
		}
		return
	}
	if edit == len(a19Edits)+1 { // the node replaced by the same one of the other messages
		whole := *base // the others sign the same text
		for i := range all {
			whole.signers = append(slices.Clip(whole.signers), all[i].signers...)
		}
		base := &whole
		for i := range all {
			other := a19Parse(all[i].msg)
			m := 0
			other.walk(func(*a19Node) { m++ })
			for k := 0; k < m; k++ {
				root := a19Parse(base.msg)
				*pick(root, target) = *pick(other, k)
				c21Tampered(c, base, root.encode())
			}
		}
		return
	}
	mk := func() *a19Node {
		root := a19Parse(base.msg)
		a19Edits[edit].f(pick(root, target))
		return root
	}
	c21Tampered(c, base, mk().encode())
	n2 := 0
	mk().walk(func(*a19Node) { n2++ })
	for k := target; k < n2; k++ {
		for e := range a19Edits {
			if !c.Deep() && (e+k+edit)%48 != 0 && e != edit {
				continue
			}
			root := mk()
			a19Edits[e].f(pick(root, k))
			c21Tampered(c, base, root.encode())
		}
	}
}

// c21Pieces: contents, attributes, signatures and certificates of two messages in every combination.
func c21Pieces(c *mc.Ctx) {
	h := mc.Pick(c, "hash", crypto.SHA256, crypto.SHA1)
	k := [2]string{"rsa1024-0", "rsa1024-1"}
	if c.Bool("ec") {
		k = [2]string{"ec256-0", "ec256-1"}
	}
	enc := ""
	if k[0][0] == 'e' || c.Bool("combined algorithm") {
		enc = gen.ComboOID(gen.K(k[0]), h)
	}
	texts := [2][]byte{[]byte("one text"), []byte("another text")}
	pc := func(name string, n int) int { return c.Choose(name, n) }
	content, attrs, sigText, sigAttrs, sigKey, crt, named := pc("content", 2), pc("attributes", 3), pc("signature of text", 2), c.Bool("signature of attributes"), pc("signature by", 2), pc("certificate", 3), pc("signer named", 2)
	mk := func(text []byte, with bool, key string) *gen.SI {
		return gen.SignerOf{Key: gen.K(key), Cert: gen.SelfCert(gen.K(key)), Hash: h, Attrs: with, EncOID: enc}.Make(text)
	}
	si := mk(texts[sigText], sigAttrs, k[sigKey]) // the signature
	x := mk(texts[0], false, k[named])
	x.Sig = si.Sig
	if attrs < 2 {
		x.Attrs = mk(texts[attrs], true, k[named]).Attrs
	}
	spec := gen.P7Spec{Content: texts[content], Signers: []*gen.SI{x}}
	for i := 0; i < 2; i++ {
		if crt == i || crt == 2 {
			spec.Certs = append(spec.Certs, gen.SelfCert(gen.K(k[i])))
		}
	}
	detached := c.Bool("detached")
	if detached {
		spec.Content = nil
	}
	second := c.Bool("after a good signer")
	if second {
		good := mk(texts[content], true, k[0])
		spec.Signers = []*gen.SI{good, x}
	}
	msg := spec.DER()
	c.State(msg)
	c.Trace(1)
	want := sigKey == named && (crt == 2 || crt == named)
	if attrs == 2 {
		want = want && !sigAttrs && sigText == content
	} else {
		want = want && sigAttrs && attrs == content && sigText == attrs
	}
	if second {
		want = want && (crt == 2 || crt == 0)
	}
	var err error
	if p := guardPanic(func() {
		var p7 *pkcs7.PKCS7
		if p7, err = pkcs7.Parse(msg); err == nil {
			if detached {
				p7.Content = texts[content]
			}
			err = p7.Verify()
		}
	}); p != "" {
		c.Failf("panic %s", p)
	}
	if (err == nil) != want {
		c.Failf("Verify: %v; should it: %v", err, want)
	}
}

// c21Digests: signed attributes with any digest but the right one do not verify.
func c21Digests(c *mc.Ctx) {
	h := mc.Pick(c, "hash", crypto.SHA256, crypto.SHA1)
	k := mc.Pick(c, "key", "rsa1024-0", "ec256-0")
	content := c21Content(mc.Pick(c, "content", 20, 0, 1, 64, 200))
	sum := func(h crypto.Hash, b []byte) []byte {
		x := h.New()
		x.Write(b)
		return x.Sum(nil)
	}
	md := sum(h, content)
	good := false
	of := gen.SignerOf{Key: gen.K(k), Cert: gen.SelfCert(gen.K(k)), Hash: h, Attrs: true}
	if k[0] == 'e' || c.Bool("combined algorithm") {
		of.EncOID = gen.ComboOID(gen.K(k), h)
	}
	switch c.Choose("digest", 7) {
	case 0:
		good = true
	case 1:
		md = md[:c.Choose("prefix", len(md))]
	case 2:
		md = append(md, byte(c.Choose("last", 256)))
	case 3:
		b := c.Choose("bit", len(md)*8)
		md[b/8] ^= 1 << (b % 8)
	case 4:
		md = sum(crypto.SHA256+crypto.SHA1-h, content)
	case 5:
		md = sum(h, append(bytes.Clone(content), 0))
	case 6:
		of.NoMD = true
		md = nil
	}
	of.MD = md
	if md != nil && len(md) == 0 {
		of.NoMD, of.MD = true, nil
		of.Extra = []gen.P7Attr{{OID: gen.OIDMsgDigest, Vals: gen.Octets(nil)}}
	}
	of.Edit = func(si *gen.SI) {
		slices.SortFunc(si.Attrs, func(a, b gen.P7Attr) int {
			return bytes.Compare(gen.EncP7Attrs([]gen.P7Attr{a}), gen.EncP7Attrs([]gen.P7Attr{b}))
		})
	}
	detached := c.Bool("detached")
	other := c.Bool("after a good signer")
	spec := gen.P7Spec{Content: content, Certs: [][]byte{of.Cert}, Signers: []*gen.SI{of.Make(content)}}
	if detached {
		spec.Content = nil
	}
	if other {
		ok := of
		ok.MD, ok.NoMD, ok.Extra = nil, false, nil
		spec.Signers = append([]*gen.SI{ok.Make(content)}, spec.Signers...)
	}
	msg := spec.DER()
	c.State(msg)
	c.Trace(1)
	var err error
	if p := guardPanic(func() {
		var p7 *pkcs7.PKCS7
		if p7, err = pkcs7.Parse(msg); err == nil {
			if detached {
				p7.Content = content
			}
			err = p7.Verify()
		}
	}); p != "" {
		c.Failf("panic %s", p)
	}
	if (err == nil) != good {
		c.Failf("Verify: %v; digest %x: %x", err, md, msg)
	}
}

// c21Forms: content in parts is their concatenation.
func c21Forms(c *mc.Ctx) {
	content := c21Content(mc.Pick(c, "content", 7, 1, 20, 128, 300))
	n := 1 + c.Choose("parts", 4)
	var cuts []int
	for i := 1; i < n; i++ {
		cuts = append(cuts, mc.Pick(c, "cut", 0, 1, len(content)/2, len(content)-1, len(content)))
	}
	if !slices.IsSorted(cuts) {
		c.Skip()
	}
	cuts = append(cuts, len(content))
	var parts []byte
	last := 0
	for _, x := range cuts {
		parts = append(parts, gen.Octets(content[last:x])...)
		last = x
	}
	body := gen.TLV(0x24, parts)
	if c.Bool("indefinite length") {
		body = gen.Cat([]byte{0x24, 0x80}, parts, []byte{0, 0})
	}
	if c.Bool("of indefinite length outside") {
		body = gen.Cat([]byte{0xa0, 0x80}, body, []byte{0, 0})
	} else {
		body = gen.TLV(0xa0, body)
	}
	attrs := c.Bool("attributes")
	k := gen.K("rsa1024-0")
	si := gen.SignerOf{Key: k, Cert: gen.SelfCert(k), Hash: crypto.SHA256, Attrs: attrs}.Make(content)
	signed := gen.Cat(gen.OID(gen.OIDData), body)
	msg := gen.Seq(gen.OID(gen.OIDSignedData), gen.TLV(0xa0, gen.Seq(gen.Int(1), gen.Set(gen.AlgID(gen.DigestOIDs[crypto.SHA256], gen.Null())),
		gen.Seq(signed), gen.TLV(0xa0, gen.SelfCert(k)), gen.Set(si.Enc()))))
	c.State(msg)
	c.Trace(1)
	var err error
	var got []byte
	if p := guardPanic(func() {
		var p7 *pkcs7.PKCS7
		if p7, err = pkcs7.Parse(msg); err == nil {
			err, got = p7.Verify(), p7.Content
		}
	}); p != "" {
		c.Failf("panic %s", p)
	}
	if err != nil || !bytes.Equal(got, content) {
		c.Failf("%v, content %x, not %x", err, got, content)
	}
}

// ---- envelopes

type c21Cipher struct {
	name   string
	oid    string
	block  int // 0: GCM
	keys   []int
	cipher func(key []byte) (cipher.Block, error)
}

var c21Ciphers = []c21Cipher{
	{"des", "1.3.14.3.2.7", 8, []int{8}, des.NewCipher},
	{"3des", "1.2.840.113549.3.7", 8, []int{24}, des.NewTripleDESCipher},
	{"aes128", "2.16.840.1.101.3.4.1.2", 16, []int{16}, aes.NewCipher},
	{"aes256", "2.16.840.1.101.3.4.1.42", 16, []int{32}, aes.NewCipher},
	{"gcm", "2.16.840.1.101.3.4.1.6", 0, []int{16}, aes.NewCipher},
}

// c21EncryptKey is RSAES-PKCS1-v1_5 with fixed padding.
func c21EncryptKey(k *gen.Key, key []byte) []byte {
	pub := &k.Priv.(*rsa.PrivateKey).PublicKey
	em := bytes.Repeat([]byte{0x5a}, pub.Size())
	em[0], em[1] = 0, 2
	em[len(em)-len(key)-1] = 0
	copy(em[len(em)-len(key):], key)
	return new(big.Int).Exp(new(big.Int).SetBytes(em), big.NewInt(int64(pub.E)), pub.N).FillBytes(make([]byte, pub.Size()))
}

type c21Env struct {
	oid    string
	params []byte // encoded
	body   []byte // the encrypted content field, encoded
	key    []byte
	to     []string
}

func (e c21Env) DER() []byte {
	var ris []byte
	for _, t := range e.to {
		iss, ser := gen.CertIssuerSerial(gen.SelfCert(gen.K(t)))
		ris = append(ris, gen.Seq(gen.Int(0), gen.Seq(iss, gen.BigInt(ser)), gen.AlgID("1.2.840.113549.1.1.1", gen.Null()), gen.Octets(c21EncryptKey(gen.K(t), e.key)))...)
	}
	ed := gen.Seq(gen.Int(0), gen.Set(ris), gen.Seq(gen.OID(gen.OIDData), gen.AlgID(e.oid, e.params), e.body))
	return gen.Seq(gen.OID(gen.OIDEnveloped), gen.TLV(0xa0, ed))
}

// c21Open decrypts with a recipient's certificate and key.
func c21Open(c *mc.Ctx, msg []byte, cert, key string) (out []byte, err error, ok bool) {
	c.Trace(1)
	if p := guardPanic(func() {
		var p7 *pkcs7.PKCS7
		if p7, err = pkcs7.Parse(msg); err == nil {
			out, err = p7.Decrypt(c21Cert(cert), gen.K(key).Priv)
		}
	}); p != "" {
		c.Failf("panic %s: %x", p, msg)
		return nil, nil, false
	}
	return out, err, true
}

// c21Envelopes: what Encrypt makes, its recipients and nobody else can read.
func c21Envelopes(c *mc.Ctx) {
	alg := c.Choose("cipher", 2)
	long := []int{65, 127, 128, 255, 256, 1000, 65535, 65536}
	size := c.Choose("size", 65+len(long))
	if size > 64 {
		size = long[size-65]
	}
	names := []string{"rsa1024-0", "rsa1024-1", "rsa2048-0", "rsa2048-1"}
	n := c.Choose("recipients", 4)
	var to []string
	first := 0
	if n > 0 {
		first = c.Choose("first", len(names))
	}
	for i := 0; i < n; i++ {
		to = append(to, names[(first+i)%len(names)])
	}
	room := c.Choose("room after the content", 3) * 9
	c.State([]byte(fmt.Sprint(alg, size, to, room)))
	content := c21Content(size)
	buf := append(bytes.Clone(content), bytes.Repeat([]byte{0xcc}, room)...)
	given := buf[:size:len(buf)]
	var certs []*x509.Certificate
	for _, t := range to {
		certs = append(certs, c21Cert(t))
	}
	var msg []byte
	var err error
	c21Global.Lock()
	pkcs7.ContentEncryptionAlgorithm = []int{pkcs7.EncryptionAlgorithmDESCBC, pkcs7.EncryptionAlgorithmAES128GCM}[alg]
	if p := guardPanic(func() { msg, err = pkcs7.Encrypt(given, certs) }); p != "" {
		c.Failf("panic %s", p)
	}
	c21Global.Unlock()
	if err != nil {
		c.Failf("Encrypt: %v", err)
		return
	}
	if !bytes.Equal(buf, append(bytes.Clone(content), bytes.Repeat([]byte{0xcc}, room)...)) {
		c.Failf("Encrypt wrote into the buffer of its %d bytes of content: %x", size, buf[size:])
	}
	if size >= 8 && bytes.Contains(msg, content) {
		c.Failf("the content is in the message")
	}
	for _, who := range names {
		listed := slices.Contains(to, who)
		got, err, ok := c21Open(c, msg, who, who)
		if ok && listed && (err != nil || !bytes.Equal(got, content)) {
			c.Failf("%s: %x, %v; not %x", who, got, err, content)
		}
		if ok && !listed && err == nil {
			c.Failf("%s is no recipient and got %x", who, got)
		}
		for _, key := range names {
			if key == who || size%16 > 1 {
				continue
			}
			if got, err, ok := c21Open(c, msg, who, key); ok && err == nil && bytes.Equal(got, content) && size > 0 {
				c.Failf("certificate of %s, key of %s: %x", who, key, got)
			}
		}
	}
}

var c21Global sync.Mutex

// c21CBC: every padding, every length of data, parameters and keys, in every division into parts.
func c21CBC(c *mc.Ctx) {
	ci := &c21Ciphers[c.Choose("cipher", 4)]
	bs := ci.block
	env := c21Env{oid: ci.oid, to: []string{"rsa1024-0"}}
	env.key = c21Content(ci.keys[0])
	ivLen, keyLen := bs, ci.keys[0]
	var want []byte
	bad := false
	blocks := 0
	var plain []byte
	cut := -1
	switch c.Choose("part", 4) {
	case 0: // paddings
		blocks = 1 + c.Choose("blocks", 3)
		plain = c21Content(blocks * bs)
		pad := c.Choose("padding", 256)
		wrong := c.Choose("wrong byte", bs+1) // 0: none, i: i-th from the end (but for the last)
		by := 0x40
		if wrong > 1 && c.Bool("smaller") {
			by = pad & -pad
		}
		for i := 1; i <= pad && i <= len(plain); i++ {
			plain[len(plain)-i] = byte(pad)
		}
		plain[len(plain)-1] = byte(pad)
		if wrong > 1 {
			plain[len(plain)-wrong] ^= byte(by)
		} else if wrong == 1 {
			c.Skip()
		}
		bad = pad < 1 || pad > bs || wrong > 1 && wrong <= pad && by != 0
		if !bad {
			want = bytes.Clone(plain[:len(plain)-pad])
		}
	case 1: // lengths
		n := c.Choose("length", 3*bs+1)
		blocks = 3
		plain = c21Content(3 * bs)
		for i := n - bs; i >= 0 && i < n; i++ {
			plain[i] = byte(bs)
		}
		cut = n
		bad = n%bs != 0 || n == 0
		if !bad {
			want = plain[:n-bs]
		}
	case 2: // iv and key
		ivLen = c.Choose("iv", 2*bs+2)
		keyLen = mc.Pick(c, "key", ci.keys[0], 0, 1, 7, 9, 15, 17, 23, 25, 31, 33, 64)
		blocks = 1
		plain = bytes.Repeat([]byte{byte(bs)}, bs)
		bad = ivLen != bs || keyLen != ci.keys[0]
		want = []byte{}
	case 3: // parts
		blocks = 2
		plain = append(c21Content(bs+3), bytes.Repeat([]byte{byte(bs - 3)}, bs-3)...)
		want = plain[:bs+3]
	}
	iv := c21Content(2*bs + 2)[:ivLen]
	realIV := c21Content(2*bs + 2)[:bs]
	block, err := ci.cipher(env.key)
	if err != nil {
		panic(err)
	}
	enc := make([]byte, len(plain))
	cipher.NewCBCEncrypter(block, realIV).CryptBlocks(enc, plain)
	if cut >= 0 {
		enc = enc[:cut]
	}
	env.key = c21Content(keyLen)
	env.params = gen.Octets(iv)
	forms := c21Parts(enc)
	env.body = forms[0]
	if blocks == 2 || cut >= 0 {
		env.body = forms[c.Choose("form", len(forms))]
	}
	msg := env.DER()
	c.State(msg)
	got, err, ok := c21Open(c, msg, "rsa1024-0", "rsa1024-0")
	if !ok {
		return
	}
	if bad && err == nil {
		c.Failf("%s: %x accepted", ci.name, got)
	}
	if !bad && (err != nil || !bytes.Equal(got, want)) {
		c.Failf("%s: %x, %v; not %x", ci.name, got, err, want)
	}
}

// c21Parts writes encrypted content in the forms it may have.
func c21Parts(enc []byte) (out [][]byte) {
	o := func(b []byte) []byte { return gen.Octets(b) }
	out = append(out, gen.TLV(0x80, enc), gen.TLV(0xa0, o(enc)))
	for _, k := range []int{0, 1, len(enc) / 2, len(enc) - 1} {
		if k >= 0 && k <= len(enc) {
			out = append(out, gen.TLV(0xa0, o(enc[:k]), o(enc[k:])))
			indef := gen.Cat([]byte{0xa0, 0x80}, o(enc[:k]), o(enc[k:]), []byte{0, 0})
			out = append(out, indef)
		}
	}
	var bytewise []byte
	for _, b := range enc {
		bytewise = append(bytewise, o([]byte{b})...)
	}
	return append(out, gen.TLV(0xa0, bytewise), gen.TLV(0xa0, o(nil), o(enc), o(nil)))
}

// c21GCM: lengths of nonce, tag, key; every changed byte.
func c21GCM(c *mc.Ctx) {
	nonceLen, icv, keyLen := 12, 16, 16
	size := 20
	flipAt, flipBy := -1, 0
	cut := 0
	switch c.Choose("part", 4) {
	case 0:
		nonceLen = c.Choose("nonce", 20)
	case 1:
		icv = c.Choose("icv", 24) - 2
	case 2:
		keyLen = mc.Pick(c, "key", 16, 0, 1, 8, 15, 17, 23, 25, 31, 33)
		cut = c.Choose("cut", 37)
	case 3:
		size = c.Choose("size", 34)
		flipAt = c.Choose("changed byte", size+17) - 1
		if flipAt >= 0 {
			flipBy = mc.Pick(c, "changed by", 1, 0x80, 0xff)
		}
	}
	content, key, nonce := c21Content(size), c21Content(16), c21Content(12)
	block, _ := aes.NewCipher(key)
	gcm, _ := cipher.NewGCM(block)
	enc := gcm.Seal(nil, nonce, content, nil)
	if flipAt >= 0 {
		enc[flipAt] ^= byte(flipBy)
	}
	enc = enc[:len(enc)-cut]
	form := c.Choose("form", 3)
	env := c21Env{oid: c21Ciphers[4].oid, to: []string{"rsa1024-0"}, key: c21Content(keyLen), body: c21Parts(enc)[form]}
	env.params = gen.TLV(0x30, gen.Seq(gen.TLV(0x84, c21Content(20)[:nonceLen]), gen.Int(int64(icv))))
	msg := env.DER()
	c.State(msg)
	bad := nonceLen != 12 || icv != 16 || keyLen != 16 || flipAt >= 0 || cut > 0
	got, err, ok := c21Open(c, msg, "rsa1024-0", "rsa1024-0")
	if ok && bad && err == nil {
		c.Failf("%x accepted", got)
	}
	if ok && !bad && (err != nil || !bytes.Equal(got, content)) {
		c.Failf("%x, %v; not %x", got, err, content)
	}
}

// c21EnvFlips: every byte of an envelope set to every value; nobody reads anything else from a GCM one.
func c21EnvFlips(c *mc.Ctx) {
	g := c.Bool("gcm")
	content, key := []byte("the content of it"), c21Content(16)
	block, _ := aes.NewCipher(key)
	env := c21Env{oid: c21Ciphers[2].oid, to: []string{"rsa1024-0"}, key: key}
	if g {
		gcm, _ := cipher.NewGCM(block)
		env.oid = c21Ciphers[4].oid
		env.params = gen.TLV(0x30, gen.Seq(gen.TLV(0x84, c21Content(12)), gen.Int(16)))
		env.body = c21Parts(gcm.Seal(nil, c21Content(12), content, nil))[1]
	} else {
		plain := append(bytes.Clone(content), bytes.Repeat([]byte{15}, 15)...)
		enc := make([]byte, 32)
		cipher.NewCBCEncrypter(block, c21Content(16)).CryptBlocks(enc, plain)
		env.params = gen.Octets(c21Content(16))
		env.body = c21Parts(enc)[0]
	}
	msg := env.DER()
	pos := c.Choose("position", len(msg))
	c.State(msg, []byte{byte(pos), byte(pos >> 8)})
	for v := 0; v < 256 && len(c.Fails()) < 3; v++ {
		b := bytes.Clone(msg)
		b[pos] = byte(v)
		got, err, ok := c21Open(c, b, "rsa1024-0", "rsa1024-0")
		if ok && err == nil && g && !bytes.Equal(got, content) {
			c.Failf("%x: %x", got, b)
		}
		if ok && v == int(msg[pos]) && (err != nil || !bytes.Equal(got, content)) {
			c.Failf("unchanged: %x, %v", got, err)
		}
	}
	c21Open(c, msg[:pos], "rsa1024-0", "rsa1024-0")
}

// c21Misc: what cannot be done is an error.
func c21Misc(c *mc.Ctx) {
	fail := func(what string, f func() error) {
		c.Trace(1)
		c.State([]byte(what))
		var err error
		if p := guardPanic(func() { err = f() }); p != "" {
			c.Failf("%s: panic %s", what, p)
		} else if err == nil {
			c.Failf("%s: no error", what)
		}
	}
	switch c.Choose("case", 3) {
	case 0:
		signed := c21Base()[0].msg
		env := c21Env{oid: c21Ciphers[2].oid, to: []string{"rsa1024-0"}, key: c21Content(16), params: gen.Octets(c21Content(16)), body: c21Parts(c21Content(16))[0]}.DER()
		fail("decrypting a signed message", func() error {
			p, err := pkcs7.Parse(signed)
			if err == nil {
				_, err = p.Decrypt(c21Cert("rsa1024-0"), gen.K("rsa1024-0").Priv)
			}
			return err
		})
		fail("verifying an envelope", func() error {
			p, err := pkcs7.Parse(env)
			if err == nil {
				err = p.Verify()
			}
			return err
		})
		fail("an attribute of an envelope", func() error {
			p, err := pkcs7.Parse(env)
			var x []byte
			if err == nil {
				err = p.UnmarshalSignedAttribute(oidMD, &x)
			}
			return err
		})
		fail("decrypting with an EC key", func() error {
			p, err := pkcs7.Parse(env)
			if err == nil {
				_, err = p.Decrypt(c21Cert("rsa1024-0"), gen.EC(0).Priv)
			}
			return err
		})
		fail("encrypting to an EC key", func() error {
			c21Global.Lock()
			defer c21Global.Unlock()
			_, err := pkcs7.Encrypt([]byte("x"), []*x509.Certificate{c21Cert("rsa1024-0"), c21Cert("ec256-0")})
			return err
		})
		fail("encrypting with an unknown cipher", func() error {
			c21Global.Lock()
			defer c21Global.Unlock()
			old := pkcs7.ContentEncryptionAlgorithm
			pkcs7.ContentEncryptionAlgorithm = 2
			_, err := pkcs7.Encrypt([]byte("x"), []*x509.Certificate{c21Cert("rsa1024-0")})
			pkcs7.ContentEncryptionAlgorithm = old
			return err
		})
		for _, k := range []any{gen.EC(0).Priv, gen.K("dsa1024-0").Priv, nil, (*ecdsa.PrivateKey)(nil)} {
			fail(fmt.Sprintf("signing with a %T", k), func() error {
				sd, err := pkcs7.NewSignedData([]byte("x"))
				if err == nil {
					err = sd.AddSigner(c21Cert("ec256-0"), k, pkcs7.SignerInfoConfig{})
				}
				return err
			})
		}
		for _, oid := range []string{gen.OIDData, "1.2.840.113549.1.7.4", "1.2.840.113549.1.7.5", "1.2.840.113549.1.7.6", "1.2.3"} {
			fail("parsing "+oid, func() error {
				_, err := pkcs7.Parse(gen.Seq(gen.OID(oid), gen.TLV(0xa0, gen.Octets([]byte("x")))))
				return err
			})
		}
		fail("parsing nothing", func() error { _, err := pkcs7.Parse(nil); return err })
	case 1: // unknown ciphers and recipients
		for _, oid := range []string{"1.2.840.113549.3.4", "2.16.840.1.101.3.4.1.22", "2.16.840.1.101.3.4.1.46", "1.2.3"} {
			env := c21Env{oid: oid, to: []string{"rsa1024-0"}, key: c21Content(16), params: gen.Octets(c21Content(16)), body: c21Parts(c21Content(16))[0]}
			fail("cipher "+oid, func() error { _, err, _ := c21Open(c, env.DER(), "rsa1024-0", "rsa1024-0"); return err })
		}
	case 2: // only certificates
		n := c.Choose("certificates", 4)
		var raw []byte
		for i := 0; i < n; i++ {
			raw = append(raw, gen.SelfCert(gen.EC(i))...)
		}
		c.State(raw)
		c.Trace(1)
		msg, err := pkcs7.DegenerateCertificate(raw)
		if err != nil {
			c.Failf("DegenerateCertificate: %v", err)
			return
		}
		p7, err := pkcs7.Parse(msg)
		if err != nil {
			c.Failf("Parse: %v", err)
			return
		}
		var back []byte
		for _, crt := range p7.Certificates {
			back = append(back, crt.Raw...)
		}
		if !bytes.Equal(back, raw) || len(p7.Content) != 0 || len(p7.Signers) != 0 || p7.Verify() == nil {
			c.Failf("%d certificates, %d signers, content %x", len(p7.Certificates), len(p7.Signers), p7.Content)
		}
	}
}

func init() {
	register(&Check{ID: "C21", Spaces: []*mc.Space{
		{Name: "sign", Doc: "0..3 signers x keys x content sizes x up to 2 of 9 attributes x other certificates x detached: parsed and verified by the library and by an independent verifier", Run: c21Sign},
		{Name: "pieces", Doc: "content, attributes, signature (of what, by whom), certificates and signer of two messages in every combination", Run: c21Pieces},
		{Name: "digests", Doc: "a key's signature of attributes with every prefix, bit change and other form of the digest", Run: c21Digests},
		{Name: "forms", Doc: "content in up to four octet strings, of definite and indefinite length", Run: c21Forms},
		{Name: "envelopes", Doc: "both ciphers x content lengths 0..64 and eight longer x 0..3 of 4 recipients, everybody's certificate and key", Run: c21Envelopes},
		{Name: "cbc", Doc: "five ciphers' envelopes by hand: every padding byte and wrong padding byte, every length of data, IV and key, every form of the content", Run: c21CBC},
		{Name: "gcm", Doc: "nonce, tag and key lengths, every byte of the content and tag changed", Run: c21GCM},
		{Name: "misc", Doc: "unsupported keys, ciphers, content types; certificates only", Run: c21Misc},
		{Name: "flips", Doc: "every byte value at every position of four signed messages, every truncation, deletion and six insertions: verifies only with the content, attributes, signatures and keys it was made with", Run: c21Flips},
		{Name: "envelope flips", Doc: "every byte value at every position of a CBC and a GCM envelope", Run: c21EnvFlips},
		{Name: "edits", Doc: "structural edits of the messages, one anywhere and a second after it (a 48th of the pairs in the quick tier), any node in place of any other, also of other messages", Run: c21Edits},
	}})
}
