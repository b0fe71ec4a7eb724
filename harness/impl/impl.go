// Package impl runs the code under test and turns what it returns into plain data.
package impl

import (
	"bytes"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// Any bounds.
const (
	AnyMin int32 = -1
	AnyMax int32 = 0x7fffffff
)

// Node is a lineage node.
type Node struct {
	Cert      []byte
	ParentAlg uint32
	Alg       uint32
	Sig       []byte
	Flags     uint32
	Caps      string // how the flags are named, "" means CapNames(Flags)
}

// CapNames names the capabilities of a lineage node.
func CapNames(f uint32) string {
	var l []string
	for i := 0; i < 31; i++ {
		switch {
		case f&(1<<i) == 0:
		case i < 5:
			l = append(l, []string{"InstalledData", "SharedUserId", "Permission", "Rollback", "Auth"}[i])
		default:
			l = append(l, fmt.Sprintf("0x%x", 1<<i))
		}
	}
	if l == nil {
		return "None"
	}
	return strings.Join(l, "|")
}

func capNames(f signingblock.LineageCertCaps) string {
	for i, c := range []signingblock.LineageCertCaps{signingblock.CapInstalledData, signingblock.CapSharedUserId, signingblock.CapPermission, signingblock.CapRollback, signingblock.CapAuth} {
		if c != 1<<i {
			return fmt.Sprintf("constant %d is %d", i, c)
		}
	}
	if f < 0 {
		return ""
	}
	return f.String()
}

func (n Node) caps() string {
	if n.Caps == "" && n.Flags < 1<<31 {
		return CapNames(n.Flags)
	}
	return n.Caps
}

// Stamp is a source stamp result.
type Stamp struct {
	Cert    []byte
	Time    int64 // 0: none
	HasTime bool
	Lineage []Node
	Clean   bool
	NoWarn  bool
	Err     string
}

// Frosting result.
type Frosting struct {
	Clean  bool
	Key    string
	Proto  []byte
	Err    string
	Digest bool // digest mismatch error
	BadSig bool
}

// Outcome of a verification.
type Outcome struct {
	Panic    string
	Accept   bool
	Err      string
	MixedDex bool
	NotFound bool
	Scheme   int
	Certs    [][][]byte
	Block    bool // SigningBlockResult present
	BlkCerts [][][]byte
	Lineage  []Node
	V3Extra  *Outcome
	Extra    map[uint32][]byte
	Stamp    *Stamp
	Frosting *Frosting
}

func rawChains(cs [][]*x509.Certificate) [][][]byte {
	var out [][][]byte
	for _, c := range cs {
		var l [][]byte
		for _, x := range c {
			l = append(l, x.Raw)
		}
		out = append(out, l)
	}
	return out
}

// Chains converts certificate chains.
func Chains(cs [][]*x509.Certificate) [][][]byte { return rawChains(cs) }

func lineage(l *signingblock.V3SigningLineage) []Node {
	if l == nil {
		return nil
	}
	var out []Node
	if l.MinSdkVersion != 28 {
		panic(fmt.Sprintf("lineage since SDK %d", l.MinSdkVersion))
	}
	for i, n := range l.Nodes {
		for k, want := range map[int]bool{0: true, 1: false, 2: false, 3: false, 4: false} {
			m := *n
			switch k {
			case 1:
				m.ParentSigAlgorithm ^= 2
			case 2:
				m.SigAlgorithm ^= 1
			case 3:
				m.Flags ^= 4
			case 4:
				m.Signature = append([]byte{0}, m.Signature...)
			}
			if n.Equal(&m) != want || m.Equal(n) != want || i > 0 && m.Equal(l.Nodes[i-1]) {
				panic("lineage nodes compare wrongly")
			}
		}
		if err := n.Dump(io.Discard); err != nil {
			panic(err)
		}
		out = append(out, Node{n.SigningCert.Raw, uint32(n.ParentSigAlgorithm), uint32(n.SigAlgorithm), n.Signature, uint32(n.Flags), capNames(n.Flags)})
	}
	return out
}

func fillBlock(o *Outcome, r *signingblock.VerificationResult) {
	if r == nil {
		return
	}
	o.Block = true
	o.BlkCerts = rawChains(r.Certs)
	o.Lineage = lineage(r.SigningLineage)
	if (r.GetLastError() != nil) != r.ContainsErrors() {
		panic("result has and has no errors")
	}
	if len(r.ExtraBlocks) > 0 {
		o.Extra = map[uint32][]byte{}
		for k, v := range r.ExtraBlocks {
			_ = k.String()
			o.Extra[uint32(k)] = v
		}
	}
	if e := r.ExtraResults[3]; e != nil {
		o.V3Extra = &Outcome{Scheme: e.SchemeId, BlkCerts: rawChains(e.Certs), Lineage: lineage(e.SigningLineage)}
	}
	if s := r.SourceStamp; s != nil {
		st := &Stamp{Clean: len(s.Errors) == 0, NoWarn: len(s.Warnings) == 0}
		if s.Cert != nil {
			st.Cert = s.Cert.Raw
		}
		if !s.SigningTime.IsZero() {
			st.HasTime = true
			st.Time = s.SigningTime.Unix()
		}
		for _, n := range s.Lineage {
			_ = n.ParentAlgo.String() + n.Algo.String()
			st.Lineage = append(st.Lineage, Node{n.Cert.Raw, uint32(n.ParentAlgo), uint32(n.Algo), n.Signature, uint32(n.Flags), ""})
		}
		for _, e := range s.Errors {
			st.Err += e.Error() + "; "
		}
		o.Stamp = st
	}
	if f := r.Frosting; f != nil {
		o.Frosting = &Frosting{Clean: f.Error == nil, Key: f.KeySha256, Proto: f.ProtobufInfo, Digest: errors.Is(f.Error, signingblock.ErrFrostingDigestMismatch), BadSig: errors.Is(f.Error, signingblock.ErrFrostingInvalidSignature)}
		if f.Error != nil {
			o.Frosting.Err = f.Error.Error()
		}
	}
}

// Guard runs f and returns the panic text, if any.
func Guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "/repo/") || strings.Contains(l, "apkparser") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 6 {
				keep = keep[:6]
			}
			p = fmt.Sprintf("panic: %v at %s", r, strings.Join(keep, " < "))
		}
	}()
	f()
	return
}

// FromResult converts a result.
func FromResult(res apkverifier.Result, err error) Outcome {
	var o Outcome
	o.Accept = err == nil
	if err != nil {
		o.Err = err.Error()
		o.MixedDex = errors.Is(err, apkverifier.ErrMixedDexApkFile)
	}
	o.Scheme = res.SigningSchemeId
	o.Certs = rawChains(res.SignerCerts)
	fillBlock(&o, res.SigningBlockResult)
	return o
}

// VerifyReader verifies through a reader.
func VerifyReader(r io.ReadSeeker, min, max int32) (o Outcome) {
	p := Guard(func() {
		res, err := apkverifier.VerifyWithSdkVersionReader(r, nil, min, max)
		o = FromResult(res, err)
	})
	o.Panic = p
	return
}

// Verify verifies bytes.
func Verify(apk []byte, min, max int32) Outcome { return VerifyReader(bytes.NewReader(apk), min, max) }

// VerifyZip verifies through an already opened archive.
func VerifyZip(r io.ReadSeeker, z *apkparser.ZipReader, min, max int32) (o Outcome) {
	p := Guard(func() {
		res, err := apkverifier.VerifyWithSdkVersionReader(r, z, min, max)
		o = FromResult(res, err)
	})
	o.Panic = p
	return
}

// VerifyPath verifies a file.
func VerifyPath(path string, min, max int32) (o Outcome) {
	p := Guard(func() {
		res, err := apkverifier.VerifyWithSdkVersion(path, nil, min, max)
		o = FromResult(res, err)
	})
	o.Panic = p
	return
}

// VerifyPathZip verifies a file with an opened archive, or nil.
func VerifyPathZip(path string, z *apkparser.ZipReader, min, max int32) (o Outcome) {
	o.Panic = Guard(func() {
		res, err := apkverifier.VerifyWithSdkVersion(path, z, min, max)
		o = FromResult(res, err)
	})
	return
}

// ExtractPath extracts certificates of a file.
func ExtractPath(path string, z *apkparser.ZipReader) (o Outcome) {
	o.Panic = Guard(func() {
		cs, err := apkverifier.ExtractCerts(path, z)
		o.Accept = err == nil
		if err != nil {
			o.Err = err.Error()
		}
		o.Certs = rawChains(cs)
	})
	return
}

// SigBlock verifies only the signing block.
func SigBlockReader(r io.ReadSeeker, min, max int32) (o Outcome) {
	p := Guard(func() {
		res, _, err := signingblock.VerifySigningBlockReader(r, min, max)
		o = fromBlock(res, err)
	})
	o.Panic = p
	return
}

// SigBlock verifies only the signing block of bytes.
func SigBlock(apk []byte, min, max int32) Outcome {
	return SigBlockReader(bytes.NewReader(apk), min, max)
}

// Extract extracts certificates.
func ExtractReader(r io.ReadSeeker) (o Outcome) {
	p := Guard(func() {
		cs, err := apkverifier.ExtractCertsReader(r, nil)
		o.Accept = err == nil
		if err != nil {
			o.Err = err.Error()
		}
		o.Certs = rawChains(cs)
	})
	o.Panic = p
	return
}

// ExtractZip extracts certificates through an already opened archive.
func ExtractZip(r io.ReadSeeker, z *apkparser.ZipReader) (o Outcome) {
	p := Guard(func() {
		cs, err := apkverifier.ExtractCertsReader(r, z)
		o.Accept = err == nil
		if err != nil {
			o.Err = err.Error()
		}
		o.Certs = rawChains(cs)
	})
	o.Panic = p
	return
}

// SigBlockZip verifies only the signing block, with an opened archive for the source stamp.
func SigBlockZip(r io.ReadSeeker, z *apkparser.ZipReader, min, max int32) (o Outcome) {
	p := Guard(func() {
		res, _, err := signingblock.VerifySigningBlockReaderWithZip(r, min, max, z)
		o = fromBlock(res, err)
	})
	o.Panic = p
	return
}

func fromBlock(res *signingblock.VerificationResult, err error) (o Outcome) {
	o.Accept = err == nil
	if err != nil {
		o.Err = err.Error()
		o.NotFound = signingblock.IsSigningBlockNotFoundError(err)
	}
	if res != nil {
		o.Scheme = res.SchemeId
		o.Certs = rawChains(res.Certs)
	}
	fillBlock(&o, res)
	return o
}

// Extract extracts certificates of bytes.
func Extract(apk []byte) Outcome { return ExtractReader(bytes.NewReader(apk)) }

// ExtractBlock extracts certificates of the signing block only.
func ExtractBlock(apk []byte, min, max int32) Outcome {
	return ExtractBlockReader(bytes.NewReader(apk), min, max)
}

// ExtractBlockReader extracts certificates of the signing block only.
func ExtractBlockReader(r io.ReadSeeker, min, max int32) (o Outcome) {
	p := Guard(func() {
		cs, err := signingblock.ExtractCertsReader(r, min, max)
		o.Accept = err == nil
		if err != nil {
			o.Err = err.Error()
			o.NotFound = signingblock.IsSigningBlockNotFoundError(err)
		}
		o.Certs = rawChains(cs)
	})
	o.Panic = p
	return
}

// SameChains compares chains including order.
func SameChains(a, b [][][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !bytes.Equal(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

// SameNodes compares lineages.
func SameNodes(a, b []Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if !bytes.Equal(x.Cert, y.Cert) || x.ParentAlg != y.ParentAlg || x.Alg != y.Alg || !bytes.Equal(x.Sig, y.Sig) || x.Flags != y.Flags || x.caps() != y.caps() {
			return false
		}
	}
	return true
}

// Key renders everything observable except error and warning texts; two runs on the same input must agree on it.
func (o Outcome) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "panic=%v accept=%v dex=%v nf=%v scheme=%d block=%v", o.Panic != "", o.Accept, o.MixedDex, o.NotFound, o.Scheme, o.Block)
	chains := func(n string, cs [][][]byte) {
		fmt.Fprintf(&b, " %s=", n)
		for _, c := range cs {
			b.WriteByte('[')
			for _, x := range c {
				fmt.Fprintf(&b, "%x,", short(x))
			}
			b.WriteByte(']')
		}
	}
	nodes := func(n string, l []Node) {
		fmt.Fprintf(&b, " %s=", n)
		for _, x := range l {
			fmt.Fprintf(&b, "(%x %x %x %x %x)", short(x.Cert), x.ParentAlg, x.Alg, short(x.Sig), x.Flags)
		}
	}
	chains("certs", o.Certs)
	if o.Accept {
		chains("blkcerts", o.BlkCerts)
		nodes("lineage", o.Lineage)
		if o.V3Extra != nil {
			chains("v3certs", o.V3Extra.BlkCerts)
			nodes("v3lineage", o.V3Extra.Lineage)
		}
		var ks []int
		for k := range o.Extra {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, " x%x=%x", k, short(o.Extra[uint32(k)]))
		}
	}
	if s := o.Stamp; s != nil {
		fmt.Fprintf(&b, " stamp(clean=%v cert=%x time=%d", s.Clean, short(s.Cert), s.Time)
		nodes("sl", s.Lineage)
		b.WriteByte(')')
	}
	if f := o.Frosting; f != nil {
		fmt.Fprintf(&b, " frosting(clean=%v key=%s proto=%x)", f.Clean, f.Key, f.Proto)
	}
	return b.String()
}

func short(b []byte) []byte {
	if len(b) <= 8 {
		return b
	}
	h := fnv(b)
	return []byte{byte(h), byte(h >> 8), byte(h >> 16), byte(h >> 24), byte(h >> 32), byte(h >> 40), byte(h >> 48), byte(h >> 56)}
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}
