package gen

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type rawKey struct{ name, pkcs8, p, q, g, y, x string }

// Key is a fixed key pair.
type Key struct {
	Name string
	Priv any // *rsa.PrivateKey, *ecdsa.PrivateKey, *dsa.PrivateKey
	SPKI []byte
}

func (k *Key) IsRSA() bool { _, ok := k.Priv.(*rsa.PrivateKey); return ok }
func (k *Key) IsEC() bool  { _, ok := k.Priv.(*ecdsa.PrivateKey); return ok }
func (k *Key) IsDSA() bool { _, ok := k.Priv.(*dsa.PrivateKey); return ok }

var keyMap = map[string]*Key{}

func init() {
	for _, r := range rawKeys {
		k := &Key{Name: r.name}
		if r.pkcs8 != "" {
			b, err := base64.StdEncoding.DecodeString(r.pkcs8)
			if err != nil {
				panic(err)
			}
			p, err := x509.ParsePKCS8PrivateKey(b)
			if err != nil {
				panic(err)
			}
			k.Priv = p
			k.SPKI, err = x509.MarshalPKIXPublicKey(p.(crypto.Signer).Public())
			if err != nil {
				panic(err)
			}
		} else {
			h := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }
			d := &dsa.PrivateKey{}
			d.P, d.Q, d.G, d.Y, d.X = h(r.p), h(r.q), h(r.g), h(r.y), h(r.x)
			k.Priv = d
			k.SPKI = Seq(AlgID("1.2.840.10040.4.1", Seq(BigInt(d.P), BigInt(d.Q), BigInt(d.G))), Bits(BigInt(d.Y)))
		}
		keyMap[r.name] = k
	}
}

// K returns the named key.
func K(name string) *Key {
	k := keyMap[name]
	if k == nil {
		panic("no key " + name)
	}
	return k
}

// EC returns the i-th P-256 key.
func EC(i int) *Key { return K(fmt.Sprintf("ec256-%d", i)) }

// detRand is a deterministic byte stream (nonces and salts of test signatures only).
type detRand struct {
	seed [32]byte
	ctr  uint64
	buf  []byte
}

func newDetRand(seed []byte) io.Reader { return &detRand{seed: sha256.Sum256(seed)} }
func (d *detRand) Read(p []byte) (int, error) {
	for i := range p {
		if len(d.buf) == 0 {
			var b [40]byte
			copy(b[:], d.seed[:])
			binary.LittleEndian.PutUint64(b[32:], d.ctr)
			d.ctr++
			h := sha256.Sum256(b[:])
			d.buf = h[:]
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
	return len(p), nil
}

// SigMode selects the primitive of Sign.
type SigMode int

const (
	Natural SigMode = iota // PKCS#1 v1.5 for RSA, (EC)DSA otherwise
	PSS
)

type sigKey struct {
	key  string
	mode SigMode
	h    crypto.Hash
	sum  [32]byte
}

var sigCache sync.Map

// Sign signs data with k over hash h.
func (k *Key) Sign(mode SigMode, h crypto.Hash, data []byte) []byte {
	ck := sigKey{k.Name, mode, h, sha256.Sum256(data)}
	if v, ok := sigCache.Load(ck); ok {
		return v.([]byte)
	}
	hh := h.New()
	hh.Write(data)
	digest := hh.Sum(nil)
	rnd := newDetRand(cat([]byte(k.Name), digest))
	var sig []byte
	var err error
	switch p := k.Priv.(type) {
	case *rsa.PrivateKey:
		if mode == PSS {
			sig, err = rsa.SignPSS(rnd, p, h, digest, &rsa.PSSOptions{SaltLength: h.Size(), Hash: h})
		} else {
			sig, err = rsa.SignPKCS1v15(nil, p, h, digest)
		}
	case *ecdsa.PrivateKey:
		sig, err = ecdsa.SignASN1(rnd, p, digest)
	case *dsa.PrivateKey:
		n := p.Q.BitLen() / 8
		if n > len(digest) {
			n = len(digest)
		}
		var r, s *big.Int
		r, s, err = dsa.Sign(rnd, p, digest[:n])
		if err == nil {
			sig = Seq(BigInt(r), BigInt(s))
		}
	}
	if err != nil {
		panic(fmt.Sprintf("%s %v: %v", k.Name, h, err))
	}
	sigCache.Store(ck, sig)
	return sig
}

// V2 signature algorithm ids.
const (
	AlgPSS256    uint32 = 0x0101
	AlgPSS512    uint32 = 0x0102
	AlgRSA256    uint32 = 0x0103
	AlgRSA512    uint32 = 0x0104
	AlgEC256     uint32 = 0x0201
	AlgEC512     uint32 = 0x0202
	AlgDSA256    uint32 = 0x0301
	AlgVRSA256   uint32 = 0x0421
	AlgVEC256    uint32 = 0x0423
	AlgVDSA256   uint32 = 0x0425
	AlgUnknown   uint32 = 0x0777
	AlgUnknownHi uint32 = 0x80000103
)

// AllAlgs lists the supported signature algorithms.
var AllAlgs = []uint32{AlgPSS256, AlgPSS512, AlgRSA256, AlgRSA512, AlgEC256, AlgEC512, AlgDSA256, AlgVRSA256, AlgVEC256, AlgVDSA256}

// DigestKind of a supported signature algorithm: 1 chunked SHA-256, 2 chunked SHA-512, 3 verity SHA-256; 0 unknown.
func DigestKind(alg uint32) int {
	switch alg {
	case AlgPSS256, AlgRSA256, AlgEC256, AlgDSA256:
		return 1
	case AlgPSS512, AlgRSA512, AlgEC512:
		return 2
	case AlgVRSA256, AlgVEC256, AlgVDSA256:
		return 3
	}
	return 0
}

// AlgName is a short name for logs.
func AlgName(a uint32) string {
	n := map[uint32]string{AlgPSS256: "pss256", AlgPSS512: "pss512", AlgRSA256: "rsa256", AlgRSA512: "rsa512", AlgEC256: "ec256", AlgEC512: "ec512", AlgDSA256: "dsa256", AlgVRSA256: "vrsa256", AlgVEC256: "vec256", AlgVDSA256: "vdsa256"}[a]
	if n == "" {
		n = fmt.Sprintf("0x%x", a)
	}
	return n
}

// AlgFits tells whether the key type can sign with the algorithm.
func AlgFits(k *Key, a uint32) bool {
	switch a {
	case AlgPSS256, AlgPSS512, AlgRSA256, AlgRSA512, AlgVRSA256:
		return k.IsRSA()
	case AlgEC256, AlgEC512, AlgVEC256:
		return k.IsEC()
	case AlgDSA256, AlgVDSA256:
		return k.IsDSA()
	}
	return false
}

// SignAlg signs with a v2/v3 signature algorithm id. Unknown ids and mismatched keys give a fixed dummy.
func (k *Key) SignAlg(a uint32, data []byte) []byte {
	if !AlgFits(k, a) {
		return []byte("dummy-signature-bytes")
	}
	switch a {
	case AlgPSS256:
		return k.Sign(PSS, crypto.SHA256, data)
	case AlgPSS512:
		return k.Sign(PSS, crypto.SHA512, data)
	case AlgRSA512, AlgEC512:
		return k.Sign(Natural, crypto.SHA512, data)
	}
	return k.Sign(Natural, crypto.SHA256, data)
}

// DefaultAlg returns the plain SHA-256 algorithm of the key type.
func DefaultAlg(k *Key) uint32 {
	switch {
	case k.IsRSA():
		return AlgRSA256
	case k.IsEC():
		return AlgEC256
	}
	return AlgDSA256
}

// ShortName trims for display.
func ShortName(s string) string { return strings.TrimSpace(s) }

// Names lists all keys.
func Names() []string {
	var out []string
	for n := range keyMap {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
