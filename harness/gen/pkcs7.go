package gen

import (
	"crypto"
	_ "crypto/md5"
	"encoding/asn1"
	"math/big"
)

// Digest OIDs.
var DigestOIDs = map[crypto.Hash]string{
	crypto.MD5: "1.2.840.113549.2.5", crypto.SHA1: "1.3.14.3.2.26", crypto.SHA224: "2.16.840.1.101.3.4.2.4",
	crypto.SHA256: "2.16.840.1.101.3.4.2.1", crypto.SHA384: "2.16.840.1.101.3.4.2.2", crypto.SHA512: "2.16.840.1.101.3.4.2.3",
}

// Attribute OIDs.
const (
	OIDContentType = "1.2.840.113549.1.9.3"
	OIDMsgDigest   = "1.2.840.113549.1.9.4"
	OIDSignTime    = "1.2.840.113549.1.9.5"
	OIDData        = "1.2.840.113549.1.7.1"
	OIDSignedData  = "1.2.840.113549.1.7.2"
	OIDEnveloped   = "1.2.840.113549.1.7.3"
)

// KeyOID is the plain key-type encryption OID.
func KeyOID(k *Key) string {
	switch {
	case k.IsRSA():
		return "1.2.840.113549.1.1.1"
	case k.IsDSA():
		return "1.2.840.10040.4.1"
	}
	return "1.2.840.10045.2.1"
}

// ComboOID is the digest-with-key signature OID, "" if none.
func ComboOID(k *Key, h crypto.Hash) string {
	switch {
	case k.IsRSA():
		return map[crypto.Hash]string{crypto.MD5: "1.2.840.113549.1.1.4", crypto.SHA1: "1.2.840.113549.1.1.5", crypto.SHA224: "1.2.840.113549.1.1.14", crypto.SHA256: "1.2.840.113549.1.1.11", crypto.SHA384: "1.2.840.113549.1.1.12", crypto.SHA512: "1.2.840.113549.1.1.13"}[h]
	case k.IsDSA():
		return map[crypto.Hash]string{crypto.SHA1: "1.2.840.10040.4.3", crypto.SHA224: "2.16.840.1.101.3.4.3.1", crypto.SHA256: "2.16.840.1.101.3.4.3.2"}[h]
	}
	return map[crypto.Hash]string{crypto.SHA1: "1.2.840.10045.4.1", crypto.SHA224: "1.2.840.10045.4.3.1", crypto.SHA256: "1.2.840.10045.4.3.2", crypto.SHA384: "1.2.840.10045.4.3.3", crypto.SHA512: "1.2.840.10045.4.3.4"}[h]
}

// P7Attr is a signed attribute: OID and the encoded values (content of the SET).
type P7Attr struct {
	OID  string
	Vals []byte
}

// EncP7Attrs is the concatenation of encoded attributes.
func EncP7Attrs(as []P7Attr) []byte {
	var out []byte
	for _, a := range as {
		out = append(out, Seq(OID(a.OID), Set(a.Vals))...)
	}
	return out
}

// SI is a SignerInfo with every field explicit.
type SI struct {
	Issuer  []byte // encoded Name
	Serial  *big.Int
	DigOID  string
	EncOID  string
	Attrs   []P7Attr
	HasAttr bool // emit [0] even when empty
	Sig     []byte
	RawSig  bool
}

// SignerOf fills a SignerInfo for a certificate and signs sf.
type SignerOf struct {
	Key     *Key
	Cert    []byte // identifies issuer and serial
	Hash    crypto.Hash
	EncOID  string // "" -> KeyOID
	DigOID  string
	Attrs   bool // signed attributes
	CType   string
	NoCT    bool
	NoMD    bool
	MD      []byte // override message digest
	Extra   []P7Attr
	Edit    func(*SI) // before signing
	Post    func(*SI) // after signing
	AsIs    bool      // sign the attributes in their [0] form (broken tools)
	SignKey *Key
}

// Make builds the SignerInfo over content.
func (s SignerOf) Make(content []byte) *SI {
	iss, ser := CertIssuerSerial(s.Cert)
	h := s.Hash
	if h == 0 {
		h = crypto.SHA256
	}
	si := &SI{Issuer: iss, Serial: ser, DigOID: s.DigOID, EncOID: s.EncOID}
	if si.DigOID == "" {
		si.DigOID = DigestOIDs[h]
	}
	if si.EncOID == "" {
		si.EncOID = KeyOID(s.Key)
	}
	if s.Attrs {
		ct := s.CType
		if ct == "" {
			ct = OIDData
		}
		if !s.NoCT {
			si.Attrs = append(si.Attrs, P7Attr{OIDContentType, OID(ct)})
		}
		md := s.MD
		if md == nil {
			x := h.New()
			x.Write(content)
			md = x.Sum(nil)
		}
		if !s.NoMD {
			si.Attrs = append(si.Attrs, P7Attr{OIDMsgDigest, Octets(md)})
		}
		si.Attrs = append(si.Attrs, s.Extra...)
	}
	if s.Edit != nil {
		s.Edit(si)
	}
	tbs := content
	if len(si.Attrs) > 0 {
		tbs = Set(EncP7Attrs(si.Attrs))
		if s.AsIs {
			tbs = TLV(0xa0, EncP7Attrs(si.Attrs))
		}
	}
	k := s.SignKey
	if k == nil {
		k = s.Key
	}
	si.Sig = k.Sign(Natural, h, tbs)
	if s.Post != nil {
		s.Post(si)
	}
	return si
}

// CertIssuerSerial extracts the encoded issuer and the serial.
func CertIssuerSerial(cert []byte) ([]byte, *big.Int) {
	var c struct {
		TBS asn1.RawValue
		A   asn1.RawValue
		S   asn1.BitString
	}
	if _, err := asn1.Unmarshal(cert, &c); err != nil {
		panic(err)
	}
	var t struct {
		Version int `asn1:"optional,explicit,default:0,tag:0"`
		Serial  *big.Int
		Alg     asn1.RawValue
		Issuer  asn1.RawValue
		Rest    asn1.RawValue `asn1:"optional"`
	}
	if _, err := asn1.Unmarshal(c.TBS.FullBytes, &t); err != nil {
		panic(err)
	}
	return t.Issuer.FullBytes, t.Serial
}

// Enc encodes a SignerInfo.
func (s *SI) Enc() []byte {
	var at []byte
	if len(s.Attrs) > 0 || s.HasAttr {
		at = TLV(0xa0, EncP7Attrs(s.Attrs))
	}
	return Seq(Int(1), Seq(s.Issuer, BigInt(s.Serial)), AlgID(s.DigOID, Null()), at, AlgID(s.EncOID, Null()), Octets(s.Sig))
}

// P7Spec describes a SignedData block.
type P7Spec struct {
	Certs   [][]byte
	Signers []*SI
	Content []byte // encapsulated content, nil: detached
	CType   string
	DigAlgs []byte
	NoCerts bool
}

// DER encodes the block.
func (p P7Spec) DER() []byte {
	ct := p.CType
	if ct == "" {
		ct = OIDData
	}
	var cont []byte
	if p.Content != nil {
		cont = TLV(0xa0, Octets(p.Content))
	}
	var certs, sis []byte
	for _, c := range p.Certs {
		certs = append(certs, c...)
	}
	for _, s := range p.Signers {
		sis = append(sis, s.Enc()...)
	}
	dig := p.DigAlgs
	if dig == nil {
		seen := map[string]bool{}
		for _, s := range p.Signers {
			if !seen[s.DigOID] {
				seen[s.DigOID] = true
				dig = append(dig, AlgID(s.DigOID, Null())...)
			}
		}
	}
	var cf []byte
	if !p.NoCerts {
		cf = TLV(0xa0, certs)
	}
	sd := Seq(Int(1), Set(dig), Seq(OID(ct), cont), cf, Set(sis))
	return Seq(OID(OIDSignedData), TLV(0xa0, sd))
}

// P7 signs content with one key the usual way.
func P7(k *Key, h crypto.Hash, attrs bool, content []byte) []byte {
	c := SelfCert(k)
	return P7Spec{Certs: [][]byte{c}, Signers: []*SI{SignerOf{Key: k, Cert: c, Hash: h, Attrs: attrs}.Make(content)}}.DER()
}
