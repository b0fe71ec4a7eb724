package ref

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/avast/apkverifier/zzverif/gen"
)

// P7Cert is a certificate of a PKCS#7 block.
type P7Cert struct {
	DER     []byte
	Subject []byte // encoded name
	BadExt  bool   // has an unknown critical extension
}

// P7Block is the logical content of a PKCS#7 signature block.
type P7Block struct {
	Certs   []P7Cert
	Signers []*gen.SI
	CType   string // content type of the block
}

// CanonName is the canonical form Android compares names in.
func CanonName(der []byte) string {
	var seq pkix.RDNSequence
	if _, err := asn1.Unmarshal(der, &seq); err != nil {
		return "raw:" + string(der)
	}
	var rdns []string
	for _, rdn := range seq {
		m := map[string]bool{}
		var l []string
		for _, a := range rdn {
			v := strings.Join(strings.FieldsFunc(fmt.Sprint(a.Value), func(r rune) bool { return r == ' ' }), " ")
			s := fmt.Sprintf("%s=%q", a.Type, strings.ToLower(v))
			if !m[s] {
				m[s] = true
				l = append(l, s)
			}
		}
		for i := range l { // order within an RDN does not matter
			for j := i + 1; j < len(l); j++ {
				if l[j] < l[i] {
					l[i], l[j] = l[j], l[i]
				}
			}
		}
		rdns = append(rdns, strings.Join(l, "+"))
	}
	return strings.Join(rdns, ",")
}

// p7Alg tells the hash and key type of a digest and encryption OID pair.
func p7Alg(dig, enc string) (crypto.Hash, string) {
	var h crypto.Hash
	for x, o := range gen.DigestOIDs {
		if o == dig {
			h = x
		}
	}
	if h == 0 {
		return 0, ""
	}
	for _, k := range []struct{ typ, name string }{{"rsa", "rsa1024-0"}, {"dsa", "dsa1024-0"}, {"ec", "ec256-0"}} {
		key := gen.K(k.name)
		if enc != gen.KeyOID(key) && (gen.ComboOID(key, h) == "" || enc != gen.ComboOID(key, h)) {
			continue
		}
		if k.typ != "rsa" && h == crypto.MD5 || k.typ == "dsa" && h.Size() > 32 {
			return 0, ""
		}
		return h, k.typ
	}
	return 0, ""
}

// VerifyP7Sig verifies a signature over data under an SPKI.
func VerifyP7Sig(spki []byte, typ string, h crypto.Hash, data, sig []byte) bool {
	ck := sigCheck{string(spki) + typ, uint32(h), sha256.Sum256(append(append(gen.LE32(uint32(len(data))), data...), sig...))}
	if v, ok := sigCache.Load(ck); ok {
		return v.(bool)
	}
	v := verifyP7Sig(spki, typ, h, data, sig)
	if sigCount.Add(1) < 500000 {
		sigCache.Store(ck, v)
	}
	return v
}

func verifyP7Sig(spki []byte, typ string, h crypto.Hash, data, sig []byte) bool {
	pub, err := x509.ParsePKIXPublicKey(spki)
	if err != nil {
		return false
	}
	x := h.New()
	x.Write(data)
	d := x.Sum(nil)
	var rs struct{ R, S *big.Int }
	switch p := pub.(type) {
	case *rsa.PublicKey:
		if n := p.Size() - len(sig); n > 0 {
			sig = append(make([]byte, n), sig...)
		}
		return typ == "rsa" && rsa.VerifyPKCS1v15(p, h, d, sig) == nil
	case *ecdsa.PublicKey:
		if typ != "ec" {
			return false
		}
		rest, err := asn1.Unmarshal(sig, &rs)
		return err == nil && len(rest) == 0 && rs.R.Sign() > 0 && rs.S.Sign() > 0 && ecdsa.Verify(p, d, rs.R, rs.S)
	case *dsa.PublicKey:
		if typ != "dsa" {
			return false
		}
		if n := p.Q.BitLen() / 8; n < len(d) {
			d = d[:n]
		}
		rest, err := asn1.Unmarshal(sig, &rs)
		return err == nil && len(rest) == 0 && rs.R.Sign() > 0 && rs.S.Sign() > 0 && dsa.Verify(p, d, rs.R, rs.S)
	}
	return false
}

func certSPKI(der []byte) []byte {
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return c.RawSubjectPublicKeyInfo
}

var spkiCache sync.Map

func spkiOf(der []byte) []byte {
	if v, ok := spkiCache.Load(string(der)); ok {
		return v.([]byte)
	}
	v := certSPKI(der)
	spkiCache.Store(string(der), v)
	return v
}

// Verify judges the block over a signature file.
func (b P7Block) Verify(sf []byte, min, max int32) (bool, [][]byte) {
	sis := b.Signers
	if len(sis) == 0 {
		return false, nil
	}
	if min < 24 {
		sis = sis[:1]
	}
	ctype := b.CType
	if ctype == "" {
		ctype = gen.OIDData
	}
	type cid struct {
		iss string
		ser *big.Int
	}
	var ids []cid
	for _, c := range b.Certs {
		i, s := gen.CertIssuerSerial(c.DER)
		ids = append(ids, cid{CanonName(i), s})
	}
	winner := -1
	for _, si := range sis {
		ci := -1
		for i := range b.Certs {
			if ids[i].iss == CanonName(si.Issuer) && ids[i].ser.Cmp(si.Serial) == 0 {
				ci = i
				break
			}
		}
		if ci < 0 || b.Certs[ci].BadExt {
			return false, nil
		}
		h, typ := p7Alg(si.DigOID, si.EncOID)
		if h == 0 {
			return false, nil
		}
		data := sf
		if len(si.Attrs) > 0 {
			attr := func(oid string) []byte {
				for _, a := range si.Attrs {
					if a.OID == oid {
						return a.Vals
					}
				}
				return nil
			}
			if max >= 24 {
				v := attr(gen.OIDContentType)
				var oid asn1.ObjectIdentifier
				if rest, err := asn1.Unmarshal(v, &oid); err != nil || len(rest) != 0 {
					return false, nil
				}
				if oid.String() != ctype {
					continue
				}
			}
			var md []byte
			if rest, err := asn1.Unmarshal(attr(gen.OIDMsgDigest), &md); err != nil || len(rest) != 0 {
				return false, nil
			}
			if h == crypto.MD5 {
				return false, nil
			}
			x := h.New()
			x.Write(sf)
			if !bytes.Equal(md, x.Sum(nil)) {
				continue
			}
			data = gen.Set(gen.EncP7Attrs(si.Attrs))
		}
		if !VerifyP7Sig(spkiOf(b.Certs[ci].DER), typ, h, data, si.Sig) {
			continue
		}
		if winner < 0 {
			winner = ci
		}
	}
	if winner < 0 {
		return false, nil
	}
	chain := [][]byte{b.Certs[winner].DER}
	cur := ids[winner].iss
	if cur == CanonName(b.Certs[winner].Subject) {
		return true, chain
	}
	for len(chain) <= len(b.Certs) {
		next := -1
		for i, c := range b.Certs {
			if CanonName(c.Subject) == cur {
				next = i
				break
			}
		}
		if next < 0 {
			break
		}
		chain = append(chain, b.Certs[next].DER)
		cur = ids[next].iss
		if cur == CanonName(b.Certs[next].Subject) {
			break
		}
	}
	return true, chain
}
