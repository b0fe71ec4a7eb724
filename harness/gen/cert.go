package gen

import (
	"crypto"
	"math/big"
	"sync"
	"time"
)

// ATV is one name attribute: OID, string tag, value.
type ATV struct {
	OID string
	Tag byte
	Val string
}

// Name is a list of single-valued RDNs.
type Name []ATV

func (n Name) DER() []byte {
	var out []byte
	for _, a := range n {
		out = append(out, Set(Seq(OID(a.OID), TLV(a.Tag, []byte(a.Val))))...)
	}
	return Seq(out)
}

// CN makes a name C=XX, O=verif, CN=cn.
func CN(cn string) Name {
	return Name{{"2.5.4.6", 0x13, "CZ"}, {"2.5.4.10", 0x13, "verif"}, {"2.5.4.3", 0x0c, cn}}
}

// CertSpec describes a certificate.
type CertSpec struct {
	Serial          *big.Int
	Issuer, Subject Name
	RawIssuer       []byte // overrides Issuer
	RawSubject      []byte
	Key             *Key
	RawSPKI         []byte // overrides the key's
	SignKey         *Key   // default Key
	NotBefore       time.Time
	NotAfter        time.Time
	SigOID          string // default sha256With<key type of SignKey>
	Exts            []byte // contents of SEQUENCE OF Extension, absent if nil
	Version         int    // 0 => v3 (2)
	DummySig        bool
}

var (
	defNB = time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC)
	defNA = time.Date(2045, 1, 1, 0, 0, 0, 0, time.UTC)
)

func utcOrGen(t time.Time) []byte {
	if t.Year() >= 1950 && t.Year() < 2050 {
		return TLV(0x17, []byte(t.UTC().Format("060102150405Z")))
	}
	return TLV(0x18, []byte(t.UTC().Format("20060102150405Z")))
}

// SigAlgID returns the certificate signature AlgorithmIdentifier for a key and hash.
func SigAlgID(k *Key, h crypto.Hash) []byte {
	switch {
	case k.IsRSA():
		m := map[crypto.Hash]string{crypto.SHA1: "1.2.840.113549.1.1.5", crypto.SHA256: "1.2.840.113549.1.1.11", crypto.SHA384: "1.2.840.113549.1.1.12", crypto.SHA512: "1.2.840.113549.1.1.13"}
		return AlgID(m[h], Null())
	case k.IsEC():
		m := map[crypto.Hash]string{crypto.SHA1: "1.2.840.10045.4.1", crypto.SHA256: "1.2.840.10045.4.3.2", crypto.SHA384: "1.2.840.10045.4.3.3", crypto.SHA512: "1.2.840.10045.4.3.4"}
		return AlgID(m[h], nil)
	}
	m := map[crypto.Hash]string{crypto.SHA1: "1.2.840.10040.4.3", crypto.SHA256: "2.16.840.1.101.3.4.3.2"}
	return AlgID(m[h], nil)
}

// DER builds the certificate.
func (c CertSpec) DER() []byte {
	if c.Serial == nil {
		c.Serial = big.NewInt(1)
	}
	if c.SignKey == nil {
		c.SignKey = c.Key
	}
	if c.NotBefore.IsZero() {
		c.NotBefore = defNB
	}
	if c.NotAfter.IsZero() {
		c.NotAfter = defNA
	}
	iss, sub, spki := c.RawIssuer, c.RawSubject, c.RawSPKI
	if iss == nil {
		iss = c.Issuer.DER()
	}
	if sub == nil {
		sub = c.Subject.DER()
	}
	if spki == nil {
		spki = c.Key.SPKI
	}
	alg := SigAlgID(c.SignKey, crypto.SHA256)
	if c.SigOID != "" {
		alg = AlgID(c.SigOID, Null())
	}
	var ver []byte
	switch c.Version {
	case 0:
		ver = TLV(0xa0, Int(2))
	case 1:
		ver = nil
	default:
		ver = TLV(0xa0, Int(int64(c.Version-1)))
	}
	var exts []byte
	if c.Exts != nil {
		exts = TLV(0xa3, Seq(c.Exts))
	}
	tbs := Seq(ver, BigInt(c.Serial), alg, iss, Seq(utcOrGen(c.NotBefore), utcOrGen(c.NotAfter)), sub, spki, exts)
	sig := []byte("not a signature, nobody checks it here")
	if !c.DummySig {
		sig = c.SignKey.Sign(Natural, crypto.SHA256, tbs)
	}
	return Seq(tbs, alg, Bits(sig))
}

var certCache sync.Map

// SelfCert is the default self-issued certificate of a key.
func SelfCert(k *Key) []byte {
	if v, ok := certCache.Load(k.Name); ok {
		return v.([]byte)
	}
	s := int64(0)
	for _, c := range k.Name {
		s = s*31 + int64(c)
		s &= 0xffffff
	}
	d := CertSpec{Serial: big.NewInt(s + 2), Issuer: CN(k.Name), Subject: CN(k.Name), Key: k}.DER()
	certCache.Store(k.Name, d)
	return d
}
