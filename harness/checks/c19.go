package checks

import (
	"bytes"
	"crypto"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
	"github.com/avast/apkverifier/internal/asn1andr"
	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// The structures the verifier decodes, with the tags it uses, plus small ones that exercise every decoder feature.
type (
	a19AlgID struct {
		Algorithm  asn1.ObjectIdentifier
		Parameters asn1.RawValue `asn1:"optional"`
	}
	a19SPKI struct {
		Raw       asn1.RawContent
		Algorithm pkix.AlgorithmIdentifier
		PublicKey asn1.BitString
	}
	a19Validity struct{ NotBefore, NotAfter time.Time }
	a19TBS      struct {
		Raw                asn1.RawContent
		Version            int `asn1:"optional,explicit,default:0,tag:0"`
		SerialNumber       *big.Int
		SignatureAlgorithm pkix.AlgorithmIdentifier
		Issuer             asn1.RawValue
		Validity           a19Validity
		Subject            asn1.RawValue
		PublicKey          a19SPKI
		UniqueId           asn1.BitString   `asn1:"optional,tag:1"`
		SubjectUniqueId    asn1.BitString   `asn1:"optional,tag:2"`
		Extensions         []pkix.Extension `asn1:"optional,explicit,tag:3"`
	}
	a19Cert struct {
		Raw                asn1.RawContent
		TBSCertificate     a19TBS
		SignatureAlgorithm pkix.AlgorithmIdentifier
		SignatureValue     asn1.BitString
	}
	a19RSA struct {
		N *big.Int
		E int
	}
	a19DSA   struct{ P, Q, G *big.Int }
	a19Sig   struct{ R, S *big.Int }
	a19Basic struct {
		IsCA       bool `asn1:"optional"`
		MaxPathLen int  `asn1:"optional,default:-1"`
	}
	a19Content struct {
		ContentType asn1.ObjectIdentifier
		Content     asn1.RawValue `asn1:"explicit,optional,tag:0"`
	}
	a19RawCerts struct{ Raw asn1.RawContent }
	a19Issuer   struct {
		IssuerName   asn1.RawValue
		SerialNumber *big.Int
	}
	a19Attr struct {
		Type  asn1.ObjectIdentifier
		Value asn1.RawValue `asn1:"set"`
	}
	a19Signer struct {
		Version     int `asn1:"default:1"`
		Issuer      a19Issuer
		DigestAlg   pkix.AlgorithmIdentifier
		Attrs       []a19Attr `asn1:"optional,tag:0"`
		EncAlg      pkix.AlgorithmIdentifier
		Sig         []byte
		UnauthAttrs []a19Attr `asn1:"optional,tag:1"`
	}
	a19Signed struct {
		Version      int                        `asn1:"default:1"`
		DigestAlgs   []pkix.AlgorithmIdentifier `asn1:"set"`
		Content      a19Content
		Certificates a19RawCerts            `asn1:"optional,tag:0"`
		CRLs         []pkix.CertificateList `asn1:"optional,tag:1"`
		Signers      []a19Signer            `asn1:"set"`
	}
	a19GCM struct {
		Nonce  []byte `asn1:"tag:4"`
		ICVLen int
	}
	a19Opt struct {
		A int  `asn1:"optional,default:7"`
		B bool `asn1:"optional"`
	}
	a19Tagged struct {
		A int           `asn1:"optional,tag:1,default:5"`
		F asn1.Flag     `asn1:"optional,tag:2"`
		R asn1.RawValue `asn1:"optional"`
	}
	a19IntSET []int
	a19Any    struct{ V interface{} }
)

type a19Target struct {
	name   string
	mk     func() any
	params string
	as     int    // what an implicitly tagged primitive is read as
	alpha  []byte // extra symbols
}

func a19of[T any](name, params string, as int, alpha ...byte) a19Target {
	return a19Target{name, func() any { return new(T) }, params, as, alpha}
}

var a19Targets = []a19Target{
	a19of[bool]("bool", "", 0, 1, 0x21),
	a19of[int]("int", "", 0, 2, 0x22, 0x7f),
	a19of[int32]("int32", "", 0, 2, 0x7f),
	a19of[int64]("int64", "", 0, 2),
	a19of[*big.Int]("big", "", 0, 2, 0x7f),
	a19of[asn1.Enumerated]("enumerated", "", 0, 10),
	a19of[asn1.BitString]("bits", "", 0, 3, 7, 8, 0x23),
	a19of[asn1.ObjectIdentifier]("oid", "", 0, 6, 0x2a, 0x50, 0x26),
	a19of[asn1.RawValue]("raw", "", 0, 6, 0x30, 0x13, 0x40),
	a19of[interface{}]("any", "", 0, 2, 3, 4, 6, 0x13, 0x14, 0x16, 0x0c, 0x30),
	a19of[string]("string", "", 0, 0x13, 0x12, 0x16, 0x0c, 0x14, 0x1b, 0x40),
	a19of[string]("bmp", "", 0, 0x1e, 0x33, 0x1f),
	a19of[string]("utf8", "", 0, 0x0c, 0xc3, 0xa4, 0x2c),
	a19of[[]byte]("octets", "", 0, 4, 0x24),
	a19of[[]int]("ints", "", 0, 0x30, 2, 0x31),
	a19of[a19IntSET]("int set", "", 0, 0x31, 2, 0x30),
	a19of[[]string]("strings", "", 0, 0x30, 0x13, 0x16),
	a19of[[]asn1.ObjectIdentifier]("oids", "", 0, 0x30, 6, 0x2a),
	a19of[[][]int]("int lists", "", 0, 0x30, 2),
	a19of[[]asn1.RawValue]("raws", "", 0, 0x30, 6, 0x13),
	a19of[[]interface{}]("anys", "", 0, 0x30, 6, 2),
	a19of[a19Opt]("optional fields", "", 0, 0x30, 2, 1),
	a19of[a19Tagged]("tagged fields", "", 0, 0x30, 0x81, 0xa2, 2),
	a19of[a19AlgID]("algorithm", "", 0, 0x30, 6, 5),
	a19of[a19Basic]("basic constraints", "", 0, 0x30, 1, 2),
	a19of[a19Sig]("signature", "", 0, 0x30, 2),
	a19of[a19RawCerts]("raw content", "", 0, 0x30, 6),
	a19of[a19GCM]("gcm", "", 0, 0x30, 0x84, 2),
	a19of[a19Any]("any field", "", 0, 0x30, 6, 0x13),
	a19of[int]("int implicit", "tag:1", 0, 0x81, 0x9f, 0xa1, 0x41),
	a19of[int]("int explicit", "explicit,tag:0", 0, 0xa0, 2, 0xbf, 0x60),
	a19of[int]("int explicit default", "optional,explicit,tag:0,default:9", 0, 0xa0, 2, 0x30),
	a19of[asn1.Flag]("flag explicit", "optional,explicit,tag:1", 0, 0xa1, 2),
	a19of[asn1.RawValue]("raw explicit", "explicit,tag:0", 0, 0xa0, 6),
	a19of[[]int]("ints as set", "set", 0, 0x31, 2, 0x30),
	a19of[a19Sig]("struct as set", "set", 0, 0x31, 2, 0x30),
	a19of[int]("int application", "application,tag:3", 0, 0x43, 0x5f, 0x83, 3),
	a19of[int]("int private", "private,tag:3", 0, 0xc3, 0xdf, 3),
	a19of[int]("int explicit application", "explicit,application,tag:3", 0, 0x63, 0x7f, 3, 2),
	a19of[asn1.ObjectIdentifier]("oid implicit", "tag:1", 6, 0x81, 0x9f, 0x2a),
	a19of[string]("string implicit", "tag:1", 19, 0x81, '*', '@'),
	a19of[string]("string implicit ia5", "tag:1,ia5", 22, 0x81, '*', '@'),
	a19of[string]("string implicit numeric", "tag:1,numeric", 18, 0x81, '1', '@'),
	a19of[[]int]("ints implicit", "tag:1", 0, 0xa1, 2, 0xbf),
	a19of[int]("int high tag", "tag:31", 0, 0x9f, 0x1f, 0xbf),
	a19of[int]("int optional", "optional,default:4", 0, 2, 4),
	a19of[[]byte]("octets optional", "optional", 0, 4, 2),
}

// a19Eq compares a value decoded by the lenient decoder with one the standard decoder made of the normalised bytes.
func a19Eq(a, s reflect.Value, explicit bool) bool {
	if a.Kind() == reflect.Interface || a.Kind() == reflect.Pointer {
		if a.IsNil() || s.IsNil() {
			return a.IsNil() == s.IsNil()
		}
		if x, ok := a.Interface().(*big.Int); ok {
			y, ok := s.Interface().(*big.Int)
			return ok && x.Cmp(y) == 0
		}
		return a19Eq(a.Elem(), s.Elem(), explicit)
	}
	if a.Type() != s.Type() {
		return false
	}
	switch x := a.Interface().(type) {
	case asn1.RawValue:
		y := s.Interface().(asn1.RawValue)
		return x.Class == y.Class && x.Tag == y.Tag && x.IsCompound == y.IsCompound && bytes.Equal(ref.NormDER(x.FullBytes, 0, explicit), y.FullBytes) && bytes.HasSuffix(x.FullBytes, x.Bytes)
	case asn1.RawContent:
		return bytes.Equal(ref.NormDER(x, 0, false), s.Interface().(asn1.RawContent))
	case time.Time:
		return x.Equal(s.Interface().(time.Time))
	}
	switch a.Kind() {
	case reflect.String:
		x, y := a.String(), s.String()
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] && (y[i] != '?' || ref.Printable(x[i])) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !a19Eq(a.Field(i), s.Field(i), strings.Contains(a.Type().Field(i).Tag.Get("asn1"), "explicit")) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != s.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !a19Eq(a.Index(i), s.Index(i), false) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), s.Interface())
}

// a19Version tells of inputs on which the standard library's releases themselves disagree.
func a19Version(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface:
		return !v.IsNil() && (v.Elem().Kind() == reflect.Bool || a19Version(v.Elem()))
	case reflect.String:
		for _, c := range []byte(v.String()) {
			if c >= 0x80 {
				return true
			}
		}
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			return v.Interface().(time.Time).Nanosecond() != 0
		}
		for i := 0; i < v.NumField(); i++ {
			if a19Version(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if a19Version(v.Index(i)) {
				return true
			}
		}
	}
	return false
}

// a19Judge decodes b both ways and compares.
func a19Judge(t *a19Target, b []byte) (problem string) { return a19JudgeX(t, b, false) }

// a19JudgeX: oneWay leaves out what the standard decoder rejects.
func a19JudgeX(t *a19Target, b []byte, oneWay bool) (problem string) {
	defer func() {
		if p := recover(); p != nil {
			problem = fmt.Sprintf("%s from %x: panic %v", t.name, b, p)
		}
	}()
	av, sv := t.mk(), t.mk()
	in := append([]byte{}, b...)
	restA, errA := asn1andr.UnmarshalWithParams(in, av, t.params)
	restS, errS := asn1.UnmarshalWithParams(b, sv, t.params)
	if !bytes.Equal(in, b) {
		return fmt.Sprintf("%s from %x: the input was modified", t.name, b)
	}
	if errS == nil && a19Version(reflect.ValueOf(sv).Elem()) {
		mc.Outcome("not judged: BMP strings and the like")
		return ""
	}
	if errS == nil {
		mc.Outcome("DER")
		if errA != nil {
			return fmt.Sprintf("%s from %x: the standard decoder accepts it, the lenient one does not: %v", t.name, b, errA)
		}
		if !reflect.DeepEqual(av, sv) && !a19Same(av, sv) || !bytes.Equal(restA, restS) {
			return fmt.Sprintf("%s from %x: decoded %+v (rest %x), the standard decoder has %+v (rest %x)", t.name, b, reflect.ValueOf(av).Elem(), restA, reflect.ValueOf(sv).Elem(), restS)
		}
		return ""
	}
	if oneWay {
		mc.Outcome("not judged: tags")
		return ""
	}
	norm := ref.NormDER(b, t.as, strings.Contains(t.params, "explicit"))
	nv := t.mk()
	restN, errN := asn1.UnmarshalWithParams(norm, nv, t.params)
	if errN == nil && a19Version(reflect.ValueOf(nv).Elem()) || errA == nil && a19Version(reflect.ValueOf(av).Elem()) {
		mc.Outcome("not judged: BMP strings and the like")
		return ""
	}
	if (errA == nil) != (errN == nil) {
		if hasAny[t.name] && hasBool(norm) {
			mc.Outcome("not judged: booleans")
			return "" // a BOOLEAN in an interface{}: only newer releases of the standard decoder look inside
		}
		return fmt.Sprintf("%s from %x: lenient decoder says %v, the standard decoder says %v of its normal form %x", t.name, b, errA, errN, norm)
	}
	if errA != nil {
		mc.Outcome("refused by both")
		return ""
	}
	mc.Outcome("lenient")
	if len(restA) == len(b) && len(b) > 0 {
		restA = ref.NormDER(restA, t.as, strings.Contains(t.params, "explicit"))
	}
	if !a19Eq(reflect.ValueOf(av).Elem(), reflect.ValueOf(nv).Elem(), strings.Contains(t.params, "explicit")) || !bytes.Equal(restA, restN) {
		return fmt.Sprintf("%s from %x: decoded %+v (rest %x), its normal form %x gives %+v (rest %x)", t.name, b, reflect.ValueOf(av).Elem(), restA, norm, reflect.ValueOf(nv).Elem(), restN)
	}
	return ""
}

var hasAny = map[string]bool{"any": true, "anys": true, "any field": true, "name": true}

// hasBool tells whether there is a primitive BOOLEAN somewhere.
func hasBool(b []byte) bool {
	for len(b) > 0 {
		var rv asn1.RawValue
		rest, err := asn1.Unmarshal(b, &rv)
		if err != nil {
			return false
		}
		if rv.Class == 0 && rv.Tag == 1 && !rv.IsCompound || rv.IsCompound && hasBool(rv.Bytes) {
			return true
		}
		b = rest
	}
	return false
}

// a19Same is equality up to the representation of equal numbers and times.
func a19Same(a, s any) bool {
	return a19Exact(reflect.ValueOf(a).Elem(), reflect.ValueOf(s).Elem())
}

func a19Exact(a, s reflect.Value) bool {
	if a.Type() != s.Type() {
		return false
	}
	switch x := a.Interface().(type) {
	case *big.Int:
		y := s.Interface().(*big.Int)
		return x == nil && y == nil || x != nil && y != nil && x.Cmp(y) == 0
	case time.Time:
		return x.Equal(s.Interface().(time.Time))
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !a19Exact(a.Field(i), s.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != s.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !a19Exact(a.Index(i), s.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || s.IsNil() {
			return a.IsNil() == s.IsNil()
		}
		return a19Exact(a.Elem(), s.Elem())
	}
	return reflect.DeepEqual(a.Interface(), s.Interface())
}

// ---- all byte strings over a small alphabet

func c19Bytes(c *mc.Ctx) {
	t := &a19Targets[c.Choose("target", len(a19Targets))]
	c.Label("%s", t.name)
	alpha := []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xff}
	for _, x := range t.alpha {
		if bytes.IndexByte(alpha, x) < 0 {
			alpha = append(alpha, x)
		}
	}
	max := 5
	if c.Deep() {
		max = 6
	}
	first := c.Choose("first byte", len(alpha)+1)
	second := c.Choose("second byte", len(alpha)+1)
	buf := []byte{}
	if first > 0 {
		buf = append(buf, alpha[first-1])
		if second > 0 {
			buf = append(buf, alpha[second-1])
		}
	} else if second > 0 {
		c.Skip()
	}
	n := 0
	var rec func(b []byte)
	rec = func(b []byte) {
		n++
		if p := a19Judge(t, b); p != "" && len(c.Fails()) < 3 {
			c.Failf("%s", p)
		}
		if len(b) < 2 || len(b) >= max {
			return
		}
		for _, x := range alpha {
			rec(append(b[:len(b):len(b)], x))
		}
	}
	rec(buf)
	c.State([]byte(t.name), buf)
	c.Trace(n)
}

// ---- edits of real structures

// a19Node is a value of a DER tree.
type a19Node struct {
	class, tag  int
	constructed bool
	content     []byte
	kids        []*a19Node
	// how it is written
	lenForm int // 0 minimal, n>0: n length bytes; -1 indefinite
	tagForm int // 0 minimal, n>0: n groups
	lenOff  int // added to the length
}

func a19Parse(b []byte) *a19Node {
	n, rest := a19parse1(b)
	if len(rest) > 0 {
		panic("trailing data in a generated structure")
	}
	return n
}

func a19parse1(b []byte) (*a19Node, []byte) {
	var rv asn1.RawValue
	rest, err := asn1.Unmarshal(b, &rv)
	if err != nil {
		panic(err)
	}
	n := &a19Node{class: rv.Class, tag: rv.Tag, constructed: rv.IsCompound, content: bytes.Clone(rv.Bytes)}
	if rv.IsCompound {
		for c := rv.Bytes; len(c) > 0; {
			var k *a19Node
			k, c = a19parse1(c)
			n.kids = append(n.kids, k)
		}
	}
	return n, rest
}

func (n *a19Node) encode() []byte {
	body := n.content
	if n.constructed {
		body = nil
		for _, k := range n.kids {
			body = append(body, k.encode()...)
		}
	}
	first := byte(n.class << 6)
	if n.constructed {
		first |= 0x20
	}
	var out []byte
	if n.tag < 0x1f && n.tagForm == 0 {
		out = []byte{first | byte(n.tag)}
	} else {
		g := []byte{byte(n.tag & 0x7f)}
		for v := n.tag >> 7; v > 0; v >>= 7 {
			g = append([]byte{byte(v&0x7f) | 0x80}, g...)
		}
		for len(g) < n.tagForm {
			g = append([]byte{0x80}, g...)
		}
		out = append([]byte{first | 0x1f}, g...)
	}
	l := len(body) + n.lenOff
	if l < 0 {
		l = 0
	}
	switch {
	case n.lenForm == -1:
		return append(append(append(out, 0x80), body...), 0, 0)
	case n.lenForm == 0:
		return append(append(out, gen.DerLen(l)...), body...)
	}
	var lb []byte
	for i := n.lenForm - 1; i >= 0; i-- {
		lb = append(lb, byte(l>>(8*i)))
	}
	return append(append(append(out, 0x80|byte(n.lenForm)), lb...), body...)
}

func (n *a19Node) walk(f func(*a19Node)) {
	f(n)
	for _, k := range append([]*a19Node{}, n.kids...) {
		k.walk(f)
	}
}

type a19Edit struct {
	name string
	f    func(n *a19Node)
}

func a19Content1(f func(b []byte) []byte) func(n *a19Node) {
	return func(n *a19Node) {
		if !n.constructed {
			n.content = f(append([]byte{}, n.content...))
		} else if len(n.kids) > 0 {
			n.kids[len(n.kids)-1].content = f(append([]byte{}, n.kids[len(n.kids)-1].content...))
		}
	}
}

var a19Edits = []a19Edit{
	{"length in one more byte", func(n *a19Node) { n.lenForm = len(gen.DerLen(len(n.encode()))) }},
	{"length in four bytes", func(n *a19Node) { n.lenForm = 4 }},
	{"length in nine bytes", func(n *a19Node) { n.lenForm = 9 }},
	{"long tag", func(n *a19Node) { n.tagForm = 1 }},
	{"long tag with a leading zero", func(n *a19Node) { n.tagForm = 3 }},
	{"indefinite length", func(n *a19Node) { n.lenForm = -1 }},
	{"constructed bit", func(n *a19Node) {
		if n.constructed {
			var b []byte
			for _, k := range n.kids {
				b = append(b, k.encode()...)
			}
			n.content = b
		} else {
			n.kids = nil
		}
		n.constructed = !n.constructed
	}},
	{"length less one", func(n *a19Node) { n.lenOff = -1 }},
	{"length plus one", func(n *a19Node) { n.lenOff = 1 }},
	{"length plus a lot", func(n *a19Node) { n.lenOff = 70000 }},
	{"next tag", func(n *a19Node) { n.tag++ }},
	{"another class", func(n *a19Node) { n.class = (n.class + 1) % 4 }},
	{"no last part", func(n *a19Node) {
		if len(n.kids) > 0 {
			n.kids = n.kids[:len(n.kids)-1]
		} else if len(n.content) > 0 {
			n.content = n.content[:len(n.content)-1]
		}
	}},
	{"no first part", func(n *a19Node) {
		if len(n.kids) > 0 {
			n.kids = n.kids[1:]
		} else if len(n.content) > 0 {
			n.content = n.content[1:]
		}
	}},
	{"empty", func(n *a19Node) { n.kids, n.content = nil, nil }},
	{"twice the last part", func(n *a19Node) {
		if len(n.kids) > 0 {
			n.kids = append(n.kids, n.kids[len(n.kids)-1])
		} else if len(n.content) > 0 {
			n.content = append(n.content, n.content[len(n.content)-1])
		}
	}},
	{"leading 80", a19Content1(func(b []byte) []byte { return append([]byte{0x80}, b...) })},
	{"leading 80 80 80 80 80", a19Content1(func(b []byte) []byte { return append([]byte{0x80, 0x80, 0x80, 0x80, 0x80}, b...) })},
	{"leading 00", a19Content1(func(b []byte) []byte { return append([]byte{0}, b...) })},
	{"leading ff", a19Content1(func(b []byte) []byte { return append([]byte{0xff}, b...) })},
	{"last byte 80", a19Content1(func(b []byte) []byte { return append(b, 0x80) })},
	{"@ inside", a19Content1(func(b []byte) []byte {
		if len(b) > 0 {
			b[len(b)/2] = '@'
		}
		return b
	})},
	{"e9 inside", a19Content1(func(b []byte) []byte {
		if len(b) > 0 {
			b[len(b)/2] = 0xe9
		}
		return b
	})},
	{"80 before the last", a19Content1(func(b []byte) []byte {
		if len(b) > 0 {
			b = append(b[:len(b)-1:len(b)-1], 0x80, b[len(b)-1])
		}
		return b
	})},
	{"first byte plus one", a19Content1(func(b []byte) []byte {
		if len(b) > 0 {
			b[0]++
		}
		return b
	})},
	{"junk at the end", func(n *a19Node) {
		if n.constructed {
			n.kids = append(n.kids, &a19Node{class: 2, tag: 9, content: []byte{1}})
		} else {
			n.content = append(append([]byte{}, n.content...), 0xee)
		}
	}},
}

type a19Struct struct {
	name string
	t    a19Target
	der  []byte
}

var c19Structs = sync.OnceValue(func() []a19Struct {
	rdns := func(tags ...byte) []byte {
		var out []byte
		for i, t := range tags {
			v := []byte("ab 12")
			if t == 0x1e {
				v = []byte{0, 'a', 4, 0x30}
			} else if t == 0x12 {
				v = []byte("12 34")
			}
			out = append(out, gen.Set(gen.Seq(gen.OID(fmt.Sprintf("2.5.4.%d", 3+i)), gen.TLV(t, v)))...)
		}
		return gen.Seq(out)
	}
	key := gen.K("rsa1024-0")
	spec := &gen.CertSpec{Serial: big.NewInt(300), RawIssuer: rdns(0x13, 0x0c), RawSubject: rdns(0x13, 0x16), Key: key, SignKey: key}
	spec.Exts = nil
	crt := spec.DER()
	full := (&gen.CertSpec{Version: 2, Serial: big.NewInt(-128), RawIssuer: rdns(0x13), RawSubject: rdns(0x0c), Key: gen.EC(0), SignKey: gen.EC(0),
		Exts: gen.Seq(gen.Seq(gen.OID("2.5.29.19"), gen.Bool(true), gen.Octets(gen.Seq(gen.Bool(true), gen.Int(3)))), gen.Seq(gen.OID("2.5.29.15"), gen.Octets([]byte{3, 2, 5, 0xa0})))}).DER()
	p7 := c19Block(2, true)
	inner := a19Parse(p7).kids[1].kids[0]
	si := inner.kids[len(inner.kids)-1].kids[0]
	return []a19Struct{
		{"spki rsa", a19of[a19SPKI]("spki", "", 0), key.SPKI},
		{"spki ec", a19of[a19SPKI]("spki", "", 0), gen.EC(0).SPKI},
		{"rsa key", a19of[a19RSA]("rsa", "", 0), gen.Seq(gen.Int(0x7fee1234), gen.Int(65537))},
		{"dsa params", a19of[a19DSA]("dsa", "", 0), gen.Seq(gen.Int(1<<40), gen.Int(-1<<20), gen.Int(255))},
		{"ecdsa signature", a19of[a19Sig]("sig", "", 0), gen.Seq(gen.Int(0x80), gen.Int(-129))},
		{"algorithm with null", a19of[pkix.AlgorithmIdentifier]("alg", "", 0), gen.AlgID("1.2.840.113549.1.1.11", gen.Null())},
		{"algorithm with oid", a19of[pkix.AlgorithmIdentifier]("alg", "", 0), gen.AlgID("1.2.840.10045.2.1", gen.OID("1.2.840.10045.3.1.7"))},
		{"algorithm alone", a19of[pkix.AlgorithmIdentifier]("alg", "", 0), gen.AlgID("2.999.16383.2147483647", nil)},
		{"name", a19of[pkix.RDNSequence]("name", "", 0), rdns(0x13, 0x16, 0x0c, 0x14, 0x12, 0x1e)},
		{"extensions", a19of[[]pkix.Extension]("extensions", "", 0), gen.Seq(gen.Seq(gen.OID("2.5.29.19"), gen.Bool(true), gen.Octets([]byte{0x30, 0})), gen.Seq(gen.OID("2.5.29.15"), gen.Octets([]byte{3, 2, 5, 0xa0})))},
		{"validity utc", a19of[a19Validity]("validity", "", 0), gen.Seq(gen.TLV(0x17, []byte("490102030405Z")), gen.TLV(0x17, []byte("5001020304Z")))},
		{"validity generalized", a19of[a19Validity]("validity", "", 0), gen.Seq(gen.TLV(0x18, []byte("20500102030405Z")), gen.TLV(0x17, []byte("991231235959+0130")))},
		{"basic constraints", a19of[a19Basic]("basic", "", 0), gen.Seq(gen.Bool(true), gen.Int(3))},
		{"content info", a19of[a19Content]("content info", "", 0), gen.Seq(gen.OID(gen.OIDData), gen.TLV(0xa0, gen.Octets([]byte("abc"))))},
		{"key purposes", a19of[[]asn1.ObjectIdentifier]("eku", "", 0), gen.Seq(gen.OID("1.3.6.1.5.5.7.3.1"), gen.OID("2.5.29.37.0"))},
		{"strings", a19of[[]string]("strings", "", 0), gen.Seq(gen.TLV(0x13, []byte("ab")), gen.TLV(0x16, []byte("a@")), gen.TLV(0x0c, []byte("a\xc3\xa9")), gen.TLV(0x14, []byte("t")), gen.TLV(0x12, []byte("12")), gen.TLV(0x1b, []byte("g")), gen.TLV(0x1e, []byte{0, 'b', 4, 0x30, 0, 0}))},
		{"times", a19of[[]time.Time]("times", "", 0), gen.Seq(gen.TLV(0x17, []byte("490102030405Z")), gen.TLV(0x18, []byte("20500102030405Z")), gen.TLV(0x17, []byte("5001020304Z")))},
		{"values", a19of[[]interface{}]("anys", "", 0), gen.Seq(gen.Int(77), gen.Bits([]byte{1, 2}), gen.Octets([]byte("oct")), gen.OID("1.2.3.4"), gen.TLV(0x13, []byte("p")), gen.TLV(0x0c, []byte("u")), gen.TLV(0x1e, []byte{0, 'b'}), gen.TLV(0x17, []byte("490102030405Z")), gen.TLV(0x18, []byte("20500102030405Z")), gen.Null(), gen.Seq(gen.Int(1)), gen.TLV(0x81, []byte{1}))},
		{"gcm parameters", a19of[a19GCM]("gcm", "", 0), gen.Seq(gen.TLV(0x84, []byte("0123456789ab")), gen.Int(16))},
		{"tagged fields", a19of[a19Tagged]("tagged fields", "", 0), gen.Seq(gen.TLV(0x81, []byte{9}), gen.TLV(0x82, nil), gen.TLV(0xa7, gen.Int(1)))},
		{"lists", a19of[[][]int]("int lists", "", 0), gen.Seq(gen.Seq(gen.Int(1), gen.Int(-300)), gen.Seq(), gen.Seq(gen.Int(1<<40)))},
		{"signer", a19of[a19Signer]("signer", "", 0), si.encode()},
		{"certificate v1", a19of[a19Cert]("certificate", "", 0), crt},
		{"certificate v3", a19of[a19Cert]("certificate", "", 0), full},
		{"tbs", a19of[a19TBS]("tbs", "", 0), a19Parse(full).kids[0].encode()},
		{"signed data", a19of[a19Signed]("signed data", "", 0), inner.encode()},
	}
})

func c19Edits(pairs bool) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		all := c19Structs()
		i := c.Choose("structure", len(all))
		st := &all[i]
		c.Label("%s", st.name)
		size := 0
		a19Parse(st.der).walk(func(*a19Node) { size++ })
		if pairs && size > 22 && !c.Deep() {
			c.Skip()
		}
		if pairs && size > 75 {
			c.Skip()
		}
		target := c.Choose("node", size)
		edit := c.Choose("edit", len(a19Edits)+1)
		if edit == 0 && target > 0 {
			c.Skip()
		}
		tail := [][]byte{nil, {0}, {0x30, 0x81, 0x00}}
		check := func(root *a19Node) {
			enc := root.encode()
			oneWay := false
			root.walk(func(n *a19Node) { // the length of an explicit tag is not looked at, so what is inside depends on the type
				oneWay = oneWay || n.class != 0 && n.constructed && n.lenOff != 0
			})
			for _, t := range tail {
				b := append(append([]byte{}, enc...), t...)
				if p := a19JudgeX(&st.t, b, oneWay); p != "" && len(c.Fails()) < 3 {
					c.Failf("%s: %s", st.name, p)
				}
			}
			if edit == 0 && !pairs {
				for cut := 0; cut < len(enc); cut++ {
					if p := a19Judge(&st.t, enc[:cut]); p != "" && len(c.Fails()) < 3 {
						c.Failf("%s: %s", st.name, p)
					}
				}
				c.Trace(len(enc))
			}
			c.Trace(3)
		}
		pick := func(root *a19Node, k int) (n *a19Node) {
			root.walk(func(x *a19Node) {
				if k == 0 {
					n = x
				}
				k--
			})
			return
		}
		mk := func() *a19Node {
			root := a19Parse(st.der)
			if edit > 0 {
				a19Edits[edit-1].f(pick(root, target))
			}
			return root
		}
		c.State([]byte(st.name), []byte{byte(target), byte(target >> 8), byte(edit), byte(b2i(pairs))})
		if !pairs {
			check(mk())
			return
		}
		if edit == 0 {
			c.Skip()
		}
		size2 := 0
		mk().walk(func(*a19Node) { size2++ })
		for k := 0; k < size2; k++ {
			for e := range a19Edits {
				root := mk()
				a19Edits[e].f(pick(root, k))
				check(root)
			}
		}
	}
}

// c19Flips: every single byte value at every position of the structures.
func c19Flips(c *mc.Ctx) {
	all := c19Structs()
	st := &all[c.Choose("structure", len(all))]
	pos := c.Choose("position", len(st.der))
	c.Label("%s", st.name)
	c.State([]byte(st.name), []byte{byte(pos), byte(pos >> 8)})
	b := append([]byte{}, st.der...)
	for v := 0; v < 256; v++ {
		b[pos] = byte(v)
		if p := a19Judge(&st.t, b); p != "" && len(c.Fails()) < 3 {
			c.Failf("%s: %s", st.name, p)
		}
	}
	c.Trace(256)
}

// c19Times: dates of both kinds with every field at its boundaries and every one-character edit.
func c19Times(c *mc.Ctx) {
	gt := c.Bool("generalized")
	tag, years := byte(0x17), []string{"00", "49", "50", "99", "38"}
	if gt {
		tag, years = 0x18, []string{"0000", "1950", "2049", "2050", "9999"}
	}
	year := mc.Pick(c, "year", years...)
	month := mc.Pick(c, "month", "01", "02", "12", "00", "13")
	day := mc.Pick(c, "day", "01", "28", "29", "30", "31", "00", "32")
	hms := mc.Pick(c, "time", "000000", "235959", "240000", "236000", "235960", "0000", "2359")
	zone := mc.Pick(c, "zone", "Z", "+0000", "-0000", "+0130", "-1200", "+2400", "", "z", "+01")
	s := year + month + day + hms + zone
	c.State([]byte{tag}, []byte(s))
	targets := []a19Target{a19of[time.Time]("time", "", 0), a19of[interface{}]("any", "", 0), a19of[time.Time]("implicit utc", "tag:1,utc", 23)}
	judge := func(s string) {
		b := gen.TLV(tag, []byte(s))
		for i := range targets {
			if i == 2 {
				b = gen.TLV(0x81, []byte(s))
			}
			if p := a19Judge(&targets[i], b); p != "" && len(c.Fails()) < 3 {
				c.Failf("%q: %s", s, p)
			}
			c.Trace(1)
		}
	}
	judge(s)
	for i := range s {
		for _, r := range []string{"", "0", "9", "Z", " ", "-", ".", "\x00"} {
			judge(s[:i] + r + s[i+1:])
		}
	}
}

// c19Chars: every byte, alone, doubled and between good ones, in every type of string.
func c19Chars(c *mc.Ctx) {
	tags := []byte{0x0c, 0x12, 0x13, 0x14, 0x15, 0x16, 0x1a, 0x1b, 0x1c, 0x1e}
	tag := tags[c.Choose("string", len(tags))]
	x := byte(c.Choose("byte", 256))
	shape := mc.Pick(c, "shape", "%s", "%s%s", "1%s", "%s1", "A%sz", "1 %s 9", "\xc3%s", "\xe2\x82%s", "%s\xa4", "%s\x82\xac")
	y := mc.Pick(c, "second", string([]byte{x}), "0", "\x80", "\xbf", " ")
	v := []byte(strings.Replace(strings.Replace(shape, "%s", string([]byte{x}), 1), "%s", y, 1))
	if !strings.Contains(strings.Replace(shape, "%s", "", 1), "%s") && y[0] != x {
		c.Skip()
	}
	c.State([]byte{tag}, v)
	targets := []a19Target{
		a19of[string]("string", "", 0), a19of[interface{}]("any", "", 0), a19of[[]string]("strings", "", 0), a19of[a19Any]("any field", "", 0),
		a19of[string]("string utf8", "utf8", 0), a19of[string]("string printable", "printable", 0), a19of[string]("string numeric", "numeric", 0), a19of[string]("string ia5", "ia5", 0),
		a19of[string]("implicit utf8", "tag:1,utf8", 12), a19of[string]("implicit printable", "tag:1,printable", 19), a19of[string]("implicit numeric", "tag:1,numeric", 18), a19of[string]("implicit ia5", "tag:1,ia5", 22),
		a19of[string]("explicit", "explicit,tag:0", 0),
	}
	for i := range targets {
		t := &targets[i]
		b := gen.TLV(tag, v)
		switch {
		case strings.Contains(t.name, "implicit"):
			b = gen.TLV(0x81, v)
		case t.name == "explicit":
			b = gen.TLV(0xa0, b)
		case t.name == "strings", t.name == "any field":
			b = gen.TLV(0x30, b)
		}
		if p := a19Judge(t, b); p != "" && len(c.Fails()) < 3 {
			c.Failf("%s", p)
		}
		c.Trace(1)
	}
	// a19Judge leaves out what the standard library's releases disagree about, the type itself tells the rest
	good, want := true, string(v)
	switch tag {
	case 0x0c:
		good = utf8.Valid(v)
	case 0x12:
		for _, d := range v {
			good = good && strings.IndexByte("0123456789 ", d) >= 0
		}
	case 0x16:
		for _, d := range v {
			good = good && d < 0x80
		}
	case 0x13:
	case 0x1e:
		good, want = len(v)%2 == 0, ""
		for i := 0; i+1 < len(v); i += 2 {
			u := rune(v[i])<<8 | rune(v[i+1])
			if u >= 0xd800 && u < 0xe000 { // releases differ about surrogates
				return
			}
			if u != 0 || i+2 < len(v) {
				want += string(u)
			}
		}
	default:
		return
	}
	var got string
	var gotAny any
	_, err := asn1andr.Unmarshal(gen.TLV(tag, v), &got)
	_, errAny := asn1andr.Unmarshal(gen.TLV(tag, v), &gotAny)
	if good != (err == nil) || good != (errAny == nil) || good && (got != want || gotAny != want) {
		c.Failf("string of type %d %x: %q %v, in an interface %q %v", tag, v, got, err, gotAny, errAny)
	}
}

// c19Numbers: integers around every power of two and object identifiers with arcs around them, minimal and padded.
func c19Numbers(c *mc.Ctx) {
	bit := c.Choose("bit", 82)
	off := int64(c.Choose("offset", 5)) - 2
	neg := c.Bool("negative")
	pad := c.Choose("padding", 4)
	n := new(big.Int).Lsh(big.NewInt(1), uint(bit))
	if bit == 0 {
		n.SetInt64(0)
	}
	n.Add(n, big.NewInt(off))
	if neg {
		n.Neg(n)
	}
	// two's complement of the least length
	l := 1
	for new(big.Int).Rsh(n, uint(8*l-1)).CmpAbs(big.NewInt(0)) != 0 && new(big.Int).Rsh(n, uint(8*l-1)).Cmp(big.NewInt(-1)) != 0 {
		l++
	}
	l += pad
	m := new(big.Int).And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*l)), big.NewInt(1)))
	v := m.FillBytes(make([]byte, l))
	c.State(v)
	judge := func(t a19Target, b []byte) {
		if p := a19Judge(&t, b); p != "" && len(c.Fails()) < 3 {
			c.Failf("%s", p)
		}
		c.Trace(1)
	}
	for _, tag := range []byte{2, 10} {
		for _, t := range []a19Target{a19of[int]("int", "", 0), a19of[int32]("int32", "", 0), a19of[int64]("int64", "", 0), a19of[*big.Int]("big", "", 0), a19of[asn1.Enumerated]("enumerated", "", 0), a19of[interface{}]("any", "", 0), a19of[int]("int optional", "optional,default:4", 0)} {
			judge(t, gen.TLV(tag, v))
		}
	}
	judge(a19of[int32]("int32 implicit", "tag:1", 0), gen.TLV(0x81, v))
	judge(a19of[*big.Int]("big implicit", "tag:1", 0), gen.TLV(0x81, v))
	judge(a19of[int32]("int32 explicit", "explicit,tag:0", 0), gen.TLV(0xa0, gen.TLV(2, v)))
	judge(a19of[[]int32]("int32s", "", 0), gen.TLV(0x30, append(gen.TLV(2, []byte{1}), gen.TLV(2, v)...)))
	if n.Sign() < 0 {
		return
	}
	// the same number as a component of an object identifier and as a tag
	g := []byte{byte(m.Bit(0)) | byte(new(big.Int).And(m, big.NewInt(0x7e)).Int64())}
	for r := new(big.Int).Rsh(n, 7); r.Sign() > 0; r.Rsh(r, 7) {
		g = append([]byte{byte(new(big.Int).And(r, big.NewInt(0x7f)).Int64()) | 0x80}, g...)
	}
	for range pad {
		g = append([]byte{0x80}, g...)
	}
	for _, o := range [][]byte{g, append([]byte{0x2a}, g...), append(g[:len(g):len(g)], 0x01), append(append([]byte{0x2a}, g...), 0x01), g[:len(g)-1], append([]byte{0x2a}, g[:len(g)-1]...)} {
		judge(a19of[asn1.ObjectIdentifier]("oid", "", 0), gen.TLV(6, o))
		judge(a19of[interface{}]("any", "", 0), gen.TLV(6, o))
		judge(a19of[asn1.ObjectIdentifier]("oid implicit", "tag:1", 6), gen.TLV(0x81, o))
		judge(a19of[[]asn1.ObjectIdentifier]("oids", "", 0), gen.TLV(0x30, append(gen.TLV(6, []byte{0x2a}), gen.TLV(6, o)...)))
	}
	tagged := append(append([]byte{0x9f}, g...), 1, 5)
	judge(a19of[asn1.RawValue]("raw", "", 0), tagged)
	judge(a19of[interface{}]("any", "", 0), tagged)
	judge(a19of[[]asn1.RawValue]("raws", "", 0), gen.TLV(0x30, append(gen.TLV(6, []byte{0x2a}), tagged...)))
	if n.IsInt64() && n.Int64() <= 1<<31-1 {
		judge(a19of[int]("int of that tag", fmt.Sprintf("tag:%d", n.Int64()), 0), tagged)
		judge(a19of[int]("int of the next tag", fmt.Sprintf("tag:%d", n.Int64()+1), 0), tagged)
	}
}

// c19Marshal: the encoder agrees with the standard one and decodes back.
func c19Marshal(c *mc.Ctx) {
	vals := a19Values()
	v := vals[c.Choose("value", len(vals))]
	params := mc.Pick(c, "parameters", "", "optional", "tag:1", "explicit,tag:0", "tag:40", "explicit,tag:300", "set", "optional,default:5", "application,tag:2", "private,tag:2", "explicit,application,tag:2", "utf8", "ia5", "printable", "numeric", "generalized", "utc", "omitempty", "optional,omitempty", "tag:1,set", "optional,explicit,tag:1,default:5")
	c.Label("%T %+v %s", v, v, params)
	c.State([]byte(fmt.Sprintf("%T%+v%s", v, v, params)))
	var a, s []byte
	var errA, errS error
	pa := guardPanic(func() { a, errA = asn1andr.MarshalWithParams(v, params) })
	ps := guardPanic(func() { s, errS = asn1.MarshalWithParams(v, params) })
	if ps != "" {
		return
	}
	if pa != "" {
		c.Failf("encoding %T %+v %q: %s", v, v, params, pa)
		return
	}
	if (errA == nil) != (errS == nil) {
		c.Failf("encoding %T %+v %q: error %v, the standard encoder says %v", v, v, params, errA, errS)
		return
	}
	if errA != nil {
		return
	}
	set := strings.Contains(params, "set") && reflect.TypeOf(v).Kind() == reflect.Slice || reflect.TypeOf(v) == reflect.TypeOf(a19SetOf{}) || reflect.TypeOf(v) == reflect.TypeOf(a19IntSET{})
	if set && len(a) > 0 && len(s) > 0 {
		// the elements of a SET keep their order (checked below), the standard encoder sorts them
		if !bytes.Equal(sortSets(a), sortSets(s)) {
			c.Failf("encoding %T %+v %q: %x, the standard encoder has %x", v, v, params, a, s)
			return
		}
	} else if !bytes.Equal(a, s) {
		c.Failf("encoding %T %+v %q: %x, the standard encoder has %x", v, v, params, a, s)
		return
	}
	// and back
	back, std := reflect.New(reflect.TypeOf(v)), reflect.New(reflect.TypeOf(v))
	var rest []byte
	var err, errStd error
	pad := append(append([]byte{}, a...), 0xaa)
	if p := guardPanic(func() { rest, err = asn1andr.UnmarshalWithParams(pad, back.Interface(), params) }); p != "" {
		c.Failf("decoding %x into %T %q: %s", pad, v, params, p)
		return
	}
	var restStd []byte
	if restStd, errStd = asn1.UnmarshalWithParams(pad, std.Interface(), params); errStd != nil {
		return
	}
	if err != nil {
		c.Failf("%T %+v %q was encoded as %x, which does not decode: %v", v, v, params, a, err)
	} else if !a19Exact(back.Elem(), std.Elem()) || !bytes.Equal(rest, restStd) {
		c.Failf("%T %+v %q was encoded as %x, which decodes to %+v, rest %x", v, v, params, a, back.Elem(), rest)
	} else if l, ok := v.([]int); set && (ok && !slices.Equal(l, back.Elem().Interface().([]int))) {
		c.Failf("%T %+v %q was encoded as %x, in another order", v, v, params, a)
	} else if l, ok := v.(a19IntSET); set && (ok && !slices.Equal(l, back.Elem().Interface().(a19IntSET))) {
		c.Failf("%T %+v %q was encoded as %x, in another order", v, v, params, a)
	} else if l, ok := v.(a19SetOf); set && (ok && !slices.Equal(l.L, back.Elem().Interface().(a19SetOf).L)) {
		c.Failf("%T %+v %q was encoded as %x, in another order", v, v, params, a)
	}
}

// sortSets orders the elements of every list.
func sortSets(b []byte) []byte {
	root := a19Parse(b)
	var rec func(n *a19Node)
	rec = func(n *a19Node) {
		for _, k := range n.kids {
			rec(k)
		}
		sort.Slice(n.kids, func(i, j int) bool { return bytes.Compare(n.kids[i].encode(), n.kids[j].encode()) < 0 })
	}
	rec(root)
	return root.encode()
}

type a19SetOf struct {
	L []int `asn1:"set"`
}
type a19SeqOf struct{ L []int }

func guardPanic(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return
}

func a19Values() []any {
	var out []any
	for _, i := range []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, 1<<31 - 1, -1 << 31, 1<<63 - 1, -1 << 63, 5} {
		out = append(out, i, int(i), big.NewInt(i), asn1.Enumerated(i), a19Opt{A: int(i), B: i > 5}, a19Tagged{A: int(i), F: i > 5}, a19Basic{MaxPathLen: int(i)})
	}
	out = append(out, true, false, asn1.Flag(true), new(big.Int).Lsh(big.NewInt(1), 2047), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 64)))
	for _, s := range []string{"", "a", "a*", "a&b", "a@b", "12 3", "\x00", "é", "\xff", "日本", strings.Repeat("x", 127), strings.Repeat("y", 128), strings.Repeat("z", 70000)} {
		out = append(out, s, []byte(s), []string{s, "b"}, []string{s})
	}
	for _, o := range []asn1.ObjectIdentifier{nil, {1}, {0, 0}, {1, 39}, {1, 40}, {2, 5, 4, 3}, {2, 999, 1}, {2, 47}, {2, 48, 127, 128, 16383, 16384, 1<<31 - 1}, {3, 1}, {1, 2, 840, 113549, 1, 1, 11}} {
		out = append(out, o, []asn1.ObjectIdentifier{o}, pkix.AlgorithmIdentifier{Algorithm: o}, pkix.AlgorithmIdentifier{Algorithm: o, Parameters: asn1.NullRawValue})
	}
	for _, n := range []int{0, 1, 7, 8, 9, 16} {
		b := make([]byte, (n+7)/8)
		for i := 0; i < n; i++ {
			b[i/8] |= 0x80 >> (i % 8)
		}
		out = append(out, asn1.BitString{Bytes: b, BitLength: n})
	}
	for _, y := range []int{1949, 1950, 1999, 2000, 2049, 2050, 9999, 0, 10000, -1} {
		t := time.Date(y, 2, 28, 23, 59, 58, 0, time.UTC)
		out = append(out, t, t.In(time.FixedZone("", 5400)), t.In(time.FixedZone("", -43200)), []time.Time{t, t.Add(time.Second)})
	}
	for _, l := range [][]int{nil, {}, {1}, {3, 1, 2}, {256, 1, 3}, {1, 1}} {
		out = append(out, l, a19IntSET(l), a19SetOf{l}, a19SeqOf{l}, [][]int{l, l})
	}
	raw := asn1.RawValue{Class: 2, Tag: 3, IsCompound: true, Bytes: []byte{2, 1, 5}}
	out = append(out, raw, asn1.RawValue{FullBytes: []byte{4, 1, 9}}, []asn1.RawValue{raw, raw}, a19Content{ContentType: asn1.ObjectIdentifier{1, 2}, Content: raw}, a19Content{ContentType: asn1.ObjectIdentifier{1, 2}},
		a19RawCerts{[]byte{0x30, 1, 7}}, a19Attr{Type: asn1.ObjectIdentifier{1, 2}, Value: asn1.RawValue{Tag: 17, IsCompound: true, Bytes: []byte{5, 0}}}, a19GCM{[]byte("abc"), 16},
		a19Sig{big.NewInt(5), big.NewInt(-5)}, a19Validity{time.Unix(0, 0).UTC(), time.Unix(1<<33, 0).UTC()}, a19RSA{big.NewInt(77), 3})
	return out
}

// c19Large: values at the sizes where the length needs another octet.
func c19Large(c *mc.Ctx) {
	sizes := []int{127, 128, 255, 256, 65535, 65536, 1<<22 - 1, 1 << 22, 1<<23 - 1, 1 << 23, 1<<23 + 1}
	if c.Deep() {
		sizes = append(sizes, 1<<24-1, 1<<24)
	}
	size := mc.Pick(c, "size", sizes...)
	extra := c.Choose("more length octets than needed", 5)
	declared := mc.Pick(c, "declared length", 0, -1, 1, 1<<24, 1<<31, 1<<32, 1<<40, 1<<62) + size
	seq := c.Bool("in a sequence")
	body := bytes.Repeat([]byte{0x5a}, size)
	var lb []byte
	for x := declared; x > 0; x >>= 8 {
		lb = append([]byte{byte(x)}, lb...)
	}
	lb = append(make([]byte, extra), lb...)
	var b []byte
	if extra == 0 && declared < 128 {
		b = append([]byte{4, byte(declared)}, body...)
	} else {
		b = append(append([]byte{4, 0x80 | byte(len(lb))}, lb...), body...)
	}
	t := a19of[[]byte]("octets", "", 0)
	if seq {
		b = gen.Seq(b)
		t = a19of[[][]byte]("octets list", "", 0)
	}
	c.State([]byte(fmt.Sprint(size, extra, declared, seq)))
	if p := a19Judge(&t, b); p != "" {
		c.Failf("%d bytes, length %x: %.200s", size, lb, p)
	}
}

// ---- BER forms of a PKCS#7 block

var c19Blocks = newCache[string, []byte]()

func c19Block(n int, attrs bool) []byte {
	content := []byte("0123456789abcdef0123456789")
	spec := gen.P7Spec{Content: content}
	for i := 0; i < n; i++ {
		k := gen.K([]string{"rsa1024-0", "ec256-1"}[i%2])
		name := gen.CN(fmt.Sprintf("BER %d", i))
		cert := (&gen.CertSpec{Serial: big.NewInt(int64(200 + i)), Issuer: name, Subject: name, Key: k, SignKey: k}).DER()
		spec.Certs = append(spec.Certs, cert)
		spec.Signers = append(spec.Signers, gen.SignerOf{Key: k, Cert: cert, EncOID: gen.ComboOID(k, crypto.SHA256), Attrs: attrs}.Make(content))
	}
	return spec.DER()
}

type berForm struct {
	name string
	f    func(n *a19Node)
}

var berForms = []berForm{
	{"length in one more byte", func(n *a19Node) { n.lenForm = len(gen.DerLen(len(n.encode()))) }},
	{"length in four bytes", func(n *a19Node) { n.lenForm = 4 }},
	{"indefinite length", func(n *a19Node) {
		if n.constructed {
			n.lenForm = -1
		}
	}},
}

func c19BER(c *mc.Ctx) {
	name := mc.Pick(c, "block", "1p", "1a", "2a", "2p")
	der := c19Blocks.get(name, func() []byte { return c19Block(int(name[0]-'0'), name[1] == 'a') })
	root := a19Parse(der)
	content := root.kids[1].kids[0].kids[2].kids[1].kids[0]
	content0 := content.content
	if content.tag != 4 {
		panic("content not found")
	}
	// how the content is cut
	switch k := c.Choose("content", 8); k {
	case 0:
	default:
		cuts := [][]int{{}, {26}, {0, 26}, {1, 26}, {10, 20, 26}, {0, 0, 26}, {26, 26}}[k-1]
		all := content.content
		if k == 1 { // no chunk at all holds no content
			c.Skip()
		}
		content.constructed, content.content = true, nil
		at := 0
		for _, x := range cuts {
			content.kids = append(content.kids, &a19Node{tag: 4, content: all[at:x]})
			at = x
		}
	}
	switch c.Choose("everywhere", 5) {
	case 1:
		root.walk(func(n *a19Node) { n.lenForm = 4 })
	case 2:
		root.walk(func(n *a19Node) {
			if n.constructed {
				n.lenForm = -1
			}
		})
	case 3:
		root.walk(func(n *a19Node) {
			n.lenForm = 2
			if n.constructed {
				n.lenForm = -1
			}
		})
	case 4:
		deep := false
		root.walk(func(n *a19Node) {
			if n.constructed {
				if deep {
					n.lenForm = -1
				}
				deep = !deep
			}
		})
	}
	root.walk(func(n *a19Node) {
		if k := c.Dev("form of a value", len(berForms)+1); k > 0 {
			berForms[k-1].f(n)
		}
	})
	ber := append(root.encode(), mc.DevPick(c, "after the block", []byte(nil), []byte{0}, []byte{0, 0}, []byte("\n"), bytes.Repeat([]byte{0}, 300))...)
	c.State(ber)
	c19Same(c, ber, der, content0)
}

// c19Same: the block, whatever its form, has what the DER block was made of.
func c19Same(c *mc.Ctx, ber, der, content []byte) {
	var got, want *pkcs7.PKCS7
	var err, errW error
	p := guardPanic(func() {
		want, errW = pkcs7.Parse(der)
		got, err = pkcs7.Parse(ber)
	})
	if p != "" || err != nil || errW != nil {
		c.Failf("a good block does not parse: in DER %v, in BER %v %s", errW, err, p)
		return
	}
	if !bytes.Equal(got.Content, content) || !bytes.Equal(want.Content, content) {
		c.Failf("content is %.100q, in DER %.100q, want %.100q", got.Content, want.Content, content)
	}
	if len(got.Certificates) != len(want.Certificates) {
		c.Failf("%d certificates, want %d", len(got.Certificates), len(want.Certificates))
		return
	}
	for i := range got.Certificates {
		if !bytes.Equal(got.Certificates[i].Raw, want.Certificates[i].Raw) || !bytes.Contains(der, got.Certificates[i].Raw) {
			c.Failf("certificate %d differs", i)
		}
	}
	if !reflect.DeepEqual(got.GetSignerInfos(), want.GetSignerInfos()) || len(got.Signers) == 0 {
		c.Failf("signers differ: %+v, want %+v", got.GetSignerInfos(), want.GetSignerInfos())
	}
	if err, errW := got.Verify(), want.Verify(); err != nil || errW != nil {
		c.Failf("the block does not verify: in DER %v, in this form %v", errW, err)
	}
}

// c19Sizes: contents of the sizes at which the length of the content or of what encloses it grows by an octet.
func c19Sizes(c *mc.Ctx) {
	i := c.Choose("size", 300+800)
	if i >= 300 {
		i += 65540 - 300 - 800
	}
	content := bytes.Repeat([]byte{'x'}, i)
	k := gen.K("rsa1024-0")
	cert := gen.SelfCert(k)
	der := gen.P7Spec{Content: content, Certs: [][]byte{cert}, Signers: []*gen.SI{gen.SignerOf{Key: k, Cert: cert, EncOID: gen.ComboOID(k, crypto.SHA256)}.Make(content)}}.DER()
	root := a19Parse(der)
	switch c.Choose("form", 3) {
	case 1:
		root.walk(func(n *a19Node) {
			if n.constructed {
				n.lenForm = -1
			}
		})
	case 2:
		root.walk(func(n *a19Node) { n.lenForm = 4 })
	}
	ber := root.encode()
	c.State(ber)
	c19Same(c, ber, der, content)
}

// c19Tags: values with tags of any class and number, deep in a signed attribute.
func c19Tags(c *mc.Ctx) {
	tag := mc.Pick(c, "tag", 0, 1, 12, 30, 31, 32, 36, 126, 127, 128, 129, 255, 256, 4096, 16383, 16384, 1<<21-1, 1<<21, 1<<28-1)
	class := c.Choose("class", 4)
	n := &a19Node{class: class, tag: tag, constructed: c.Bool("constructed")}
	if class == 0 && tag == 0 { // two zeros would end a value of indefinite length
		n.class = 2
	}
	size := mc.Pick(c, "size", 0, 1, 2, 127, 128, 129)
	if n.constructed {
		n.kids = []*a19Node{{tag: 4, content: bytes.Repeat([]byte{0x9f}, size)}, {tag: 5}}
	} else {
		n.content = bytes.Repeat([]byte{0xa1}, size)
	}
	top := n
	for range []int{0, 1, 2, 40, 90}[c.Choose("depth", 5)] {
		top = &a19Node{tag: 16, constructed: true, kids: []*a19Node{top}}
	}
	content := []byte("Signature-Version: 1.0\r\n\r\n")
	k := gen.K("rsa1024-0")
	cert := gen.SelfCert(k)
	der := gen.P7Spec{Content: content, Certs: [][]byte{cert}, Signers: []*gen.SI{gen.SignerOf{Key: k, Cert: cert, Attrs: true, EncOID: gen.ComboOID(k, crypto.SHA256),
		Extra: []gen.P7Attr{{OID: "1.2.840.113549.1.9.16.2.47", Vals: top.encode()}}, Edit: func(si *gen.SI) {
			slices.SortFunc(si.Attrs, func(a, b gen.P7Attr) int { // as DER wants them
				return bytes.Compare(gen.EncP7Attrs([]gen.P7Attr{a}), gen.EncP7Attrs([]gen.P7Attr{b}))
			})
		}}.Make(content)}}.DER()
	root := a19Parse(der)
	form := c.Choose("form", 5)
	root.walk(func(m *a19Node) {
		mine := m.class == n.class && m.tag == n.tag && bytes.Equal(m.content, n.content) && m.constructed == n.constructed
		switch {
		case form == 1 && m.constructed, form == 2 && m.constructed && mine:
			m.lenForm = -1
		case form == 3, form == 4 && mine:
			m.lenForm = 4
		}
	})
	ber := root.encode()
	c.State(ber)
	c19Same(c, ber, der, content)
}

func init() {
	register(&Check{ID: "C19", Spaces: []*mc.Space{
		{Name: "bytes", Doc: "every byte string of up to five bytes (six in the thorough tier) over an alphabet of length octets, boundary values and the tags of the type, for 47 combinations of type and parameters: the standard decoder of the normalised bytes decides", Run: c19Bytes},
		{Name: "edits", Doc: "certificates, names, keys, algorithms, dates, signer infos, whole signed data: every node of the tree x 26 edits (longer lengths and tags, leading zeros, wrong lengths, parts removed or doubled, class and tag changes), with trailing data, every truncation", Run: c19Edits(false)},
		{Name: "pairs", Doc: "every pair of edits of the smaller structures (thorough: up to 75 nodes)", Run: c19Edits(true)},
		{Name: "flips", Doc: "every byte value at every position of each structure", Run: c19Flips},
		{Name: "times", Doc: "UTCTime and GeneralizedTime with every field at its boundaries, and every one-character edit", Run: c19Times},
		{Name: "characters", Doc: "every byte in ten shapes of ten types of string, decoded as 13 targets", Run: c19Chars},
		{Name: "numbers", Doc: "integers, object identifier components and tag numbers around every power of two up to 2^81, minimal and padded, as 15 targets", Run: c19Numbers},
		{Name: "large", Doc: "OCTET STRINGs at the sizes where the length grows by an octet, declared right and wrong, with up to four superfluous length octets", Run: c19Large},
		{Name: "marshal", Doc: "values of every supported type x parameters: same encoding as the standard encoder (SETs keep their order) and back", Run: c19Marshal},
		{Name: "sizes", Doc: "PKCS#7 blocks with contents of 0..299 and 64740..65539 bytes, in DER, with indefinite and with four-byte lengths", Run: c19Sizes},
		{Name: "tags", Doc: "values of 19 tag numbers x class x size x depth of nesting in a signed attribute, in DER, with long and with indefinite lengths: same signers, and they verify", Run: c19Tags},
		{Name: "ber", Doc: "PKCS#7 blocks re-encoded in BER: longer and indefinite lengths everywhere or at up to two values, content in chunks, trailing bytes: same content, certificates and signers, and they verify", Dev: 1, DevDeep: 2, Run: c19BER},
	}})
}
