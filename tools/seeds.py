P21 = '''package pkcs7_test

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"testing"
	"time"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
)

func zzcert(t *testing.T, name string) (*x509.Certificate, *rsa.PrivateKey) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	tpl := x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now(), NotAfter: time.Now().AddDate(1, 0, 0)}
	der, err := x509.CreateCertificate(rand.Reader, &tpl, &tpl, k.Public(), k)
	if err != nil {
		t.Fatal(err)
	}
	crt, err := x509.ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	return crt, k
}

'''
seed("c01-one-digest", "C01", "signingblock/signingblock.go",
'''			result.addError("%d digest of contents did not verify.", algo)
			continue

		}
	}
	return true
''','''			mismatches = append(mismatches, algo)
		}
	}

	// Every digest covers the same bytes.
	if len(mismatches) == len(digestAlgorithms) {
		for _, algo := range mismatches {
			result.addError("%d digest of contents did not verify.", algo)
		}
	}
	return true
''', "two v2 signers using different digest kinds, one of which digested other content",
"the content digest of one signer is not compared when another signer's digest matches", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 28, zzany, true)
	zzaccept(t, "bad.apk", 28, zzany, false)
}
''', more=[("signingblock/signingblock.go", '''	for _, algo := range digestAlgorithms {
		if !bytes.Equal(expected''', '''	var mismatches []contentDigest
	for _, algo := range digestAlgorithms {
		if !bytes.Equal(expected''')])

seed("c02-verity-page", "C02", "signingblock/verity.go", "if chunkCount*digestSize <= verityChunkSize {", "if chunkCount*digestSize < verityChunkSize {",
"a verity digest over exactly 128 pages, whose hashes fill one page exactly", "an authentic APK is rejected because a superfluous tree level is computed", '''
func TestZZDemo(t *testing.T) {
	for _, n := range []string{"p127.apk", "p128.apk", "p129.apk"} {
		zzaccept(t, n, 28, zzany, true)
	}
}
''')

seed("c03-strongest", "C03", "signingblock/signer.go", '''		switch digest2 {
		case digestChunkedSha256:
			return 1
		case digestChunkedSha512:
			return -1
''', '''		switch digest2 {
		case digestChunkedSha256, digestChunkedSha512:
			return 1
''', "a signer with a SHA-512 signature that is wrong and a verity signature that is right",
"the strongest signature is not the one that is verified", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 28, zzany, true)
	zzaccept(t, "bad.apk", 28, zzany, false)
}
''')

seed("c04-fallback-limit", "C04", "signingblock/signingblock.go", "res.SchemeId >= schemeIdV3 && minSdkVersion < apilevel.V9_0_Pie &&", "res.SchemeId >= schemeIdV3 && !(minSdkVersion > apilevel.V9_0_Pie) &&",
"a broken v3 and a valid v2 signature with a minimum SDK of exactly 28", "Android 9 decides by the v3 signature, the broken one is ignored", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "badv3.apk", 27, zzany, true)
	zzaccept(t, "badv3.apk", 28, zzany, false)
	zzaccept(t, "badv3.apk", 29, zzany, false)
}
''')

seed("c05-no-such-scheme", "C05", "signingblock/schemev2.go", '''			strippedBlockId, prs := schemeIdToBlockId[strippedSchemeId]
			if !prs {
				result.addError("unknown stripped scheme id: %d", strippedSchemeId)
			} else if result.ExtraBlocks[strippedBlockId] == nil {
''', '''			if result.ExtraBlocks[schemeIdToBlockId[strippedSchemeId]] == nil {
''', "a stripping protection attribute naming a scheme nobody knows (4) and an ID-value pair with the id 0 in the signing block", "the unknown stripped scheme counts as present", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 24, zzany, true)
	zzaccept(t, "plain.apk", 24, zzany, false)
	zzaccept(t, "pair.apk", 24, zzany, false)
}
''')
seed("c05-signed-list", "C05", "schemev1.go", '''				tok = strings.TrimSpace(tok)
				if tok == "" {
					continue
				}

''', "", 'X-Android-APK-Signed lists "3, 2" and the maximum SDK is below 28', "an APK stripped of its v2 signature is accepted through v1", '''
func TestZZDemo(t *testing.T) {
	for _, n := range []string{"stripped2.apk", "stripped3.apk"} {
		zzaccept(t, n, 16, 23, true)
		zzaccept(t, n, 21, 27, false)
	}
}
''')

seed("c06-sdk-overlap", "C06", "signingblock/schemev3.go", "} else if currentMin != lastMax+1 {", "} else if currentMin > lastMax+1 {",
"two v3 signers whose SDK ranges overlap", "overlapping SDK ranges are accepted, the signer of an SDK is ambiguous", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 28, zzany, true)
	zzaccept(t, "gap.apk", 28, zzany, false)
	zzaccept(t, "bad.apk", 28, zzany, false)
}
''')

seed("c07-lineage-repeat", "C07", "signingblock/schemev3.go", '''		for _, histCert := range certHistory {
			if histCert.Equal(lastCert) {
				return nil, fmt.Errorf("encountered duplicate entries at node #%d, signing certificates should be unique.", nodeCount)
			}
		}
''', '''		if n := len(certHistory); n != 0 && certHistory[n-1].Equal(lastCert) {
			return nil, fmt.Errorf("encountered duplicate entries at node #%d, signing certificates should be unique.", nodeCount)
		}
''', "a lineage that returns to a certificate it already left", "a lineage with a repeated certificate is reported", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 28, zzany, true)
	zzaccept(t, "bad.apk", 28, zzany, false)
}
''')

seed("c08-same-signer-twice", "C08", "schemev1.go", '''	for _, cb := range b {
		found := false
		for _, ca := range a {
			if p.chainEqual(ca, cb) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
''', '''	// Same length, so nothing else can be in b.
	return true
''', "two signature files by the same signer and an entry signed by that signer once and by another one once",
"entries with different signers are accepted", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 16, 25, true)
	zzaccept(t, "bad.apk", 16, 25, false)
}
''')

seed("c08-broken-block", "C08", "schemev1.go", '''			return nil, fmt.Errorf("%s: %s", name, err.Error())
		}

		if err := scheme.addSignatureFile''', '''			errors = append(errors, fmt.Errorf("%s: %s", name, err.Error()))
			continue
		}

		if err := scheme.addSignatureFile''',
"two signature files, the block of one of which is not PKCS#7 at all", "an archive Android 7 refuses is accepted with the remaining signer only", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 16, 25, true)
	zzaccept(t, "bad.apk", 16, 25, false)
}
''')

seed("c08-chain-prefix", "C08", "schemev1.go", "	if len(a) != len(b) {\n		return false\n	}\n\n	for i := range a {", "	// A block may carry more of the chain than another one.\n	if len(a) > len(b) {\n		return false\n	}\n\n	for i := range a {",
"two signature files by one certificate, the block of the second one with a longer chain, covering different entries", "entries with different signers (as Android compares them) are accepted", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 16, 25, true)
	zzaccept(t, "bad.apk", 16, 25, false)
}
''')

seed("c08-cut-entry", "C08", "schemev1.go", '''		if _, err := io.Copy(hasher, f); err == nil {
			if bytes.Equal(hasher.Sum(nil), hash) {
				return nil
			}
		}
''', '''		// What cannot be read does not match either.
		io.Copy(hasher, f)
		if bytes.Equal(hasher.Sum(nil), hash) {
			return nil
		}
''',
"an entry whose compressed data is broken behind the signed content", "an archive with an entry nobody can unpack is accepted", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 16, 25, true)
	zzaccept(t, "bad.apk", 16, 25, false)
}
''')

seed("c09-content-type", "C09", "schemev1.go", "if maxSdkVersion >= apilevel.V7_0_Nougat {\n				var typeVal", "if minSdkVersion >= apilevel.V7_0_Nougat {\n				var typeVal",
"signed attributes with another content type and an SDK range that only ends at 24 or later", "a signature Android 7 refuses is accepted", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 16, 25, true)
	zzaccept(t, "bad.apk", 16, 23, true)
	zzaccept(t, "bad.apk", 16, 25, false)
}
''')

seed("c10-api9", "C10", "schemev1.go", 'if minSdkVersion >= 9 || (algo', 'if minSdkVersion > 9 || (algo',
"a range starting at SDK 9 and ending below 18, and SHA-512 listed in Digest-Algorithms with a wrong digest",
"a digest Android 2.3 checks is not checked", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "v1.apk", 8, 17, true)
	zzaccept(t, "v1.apk", 9, 17, false)
	zzaccept(t, "v1.apk", 10, 17, false)
}
''')

seed("c11-target-limit", "C11", "apkverifier.go", "maxSdkVersion >= targetSdkVersion && res", "maxSdkVersion > targetSdkVersion && res",
"a v1-only APK whose target SDK equals the requested maximum", "an APK Android refuses for lack of a v2 signature is accepted", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "v1.apk", 21, 30, true)
	zzaccept(t, "v1.apk", 21, 31, false)
	zzaccept(t, "v1.apk", 21, 32, false)
}
''')

seed("c13-short-footer", "C13", "signingblock/signingblock.go", "if _, err = io.ReadFull(s.file, footer); err != nil {", "if _, err = s.file.Read(footer); err != nil {",
"a reader that delivers the footer of the signing block in pieces", "the signing block is not recognised and the APK counts as v1 signed", '''
type zzpieces struct {
	*bytes.Reader
	n int
}

func (p *zzpieces) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return p.Reader.Read(b)
}

func TestZZDemo(t *testing.T) {
	apk := zzload(t, "v1v2.apk")
	want, err := zzverify(apk, 21, zzany)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{1, 7, 23, 64} {
		got, err := apkverifier.VerifyWithSdkVersionReader(&zzpieces{bytes.NewReader(apk), n}, nil, 21, zzany)
		if err != nil || got.SigningSchemeId != want.SigningSchemeId {
			t.Errorf("pieces of %d: scheme %d instead of %d, %v", n, got.SigningSchemeId, want.SigningSchemeId, err)
		}
	}
}
''')

seed("c14-shared-prefix", "C14", "signingblock/signingblock.go", '''	chunkContentPrefix := make([]byte, 5)
	chunkContentPrefix[0] = 0xa5

''', '', "two verifications of APKs whose signers use two digest kinds, one running while the other reads a chunk",
"verifications share the buffer of the chunk header and reject authentic APKs", '''
// zzmid runs something in the middle of the reads of a verification.
type zzmid struct {
	*bytes.Reader
	at  int
	run func()
}

func (m *zzmid) Read(b []byte) (int, error) {
	if m.at--; m.at == 0 {
		m.run()
	}
	return m.Reader.Read(b)
}

func TestZZDemo(t *testing.T) {
	a, b := zzload(t, "a.apk"), zzload(t, "b.apk")
	if _, err := zzverify(b, 28, zzany); err != nil {
		t.Fatal(err)
	}
	for at := 1; at < 60; at++ {
		_, err := apkverifier.VerifyWithSdkVersionReader(&zzmid{bytes.NewReader(a), at, func() {
			done := make(chan bool)
			go func() { zzverify(b, 28, zzany); close(done) }()
			<-done
		}}, nil, 28, zzany)
		if err != nil {
			t.Errorf("another verification during read %d: %v", at, err)
		}
	}
}
''', more=[("signingblock/signingblock.go", "type signatureBlockScheme interface", '''// 0xa5 and the chunk size
var chunkContentPrefix = []byte{0xa5, 0, 0, 0, 0}

type signatureBlockScheme interface'''),
("signingblock/signingblock.go", '''			binary.LittleEndian.PutUint32(chunkContentPrefix[1:], uint32(chunkSize))
''', '''			binary.LittleEndian.PutUint32(chunkContentPrefix[1:], uint32(chunkSize))
''')])

seed("c15-stamp-lineage", "C15", "signingblock/sourcestamp.go", '''			if !v.res.Cert.Equal(v.res.Lineage[len(v.res.Lineage)-1].Cert) {
''', '''			found := false
			for _, node := range v.res.Lineage {
				found = found || v.res.Cert.Equal(node.Cert)
			}
			if !found {
''', "a stamp lineage that has the stamp certificate before its end", "a lineage that does not end in the stamp certificate is reported without an error", '''
func TestZZDemo(t *testing.T) {
	for _, n := range []string{"good", "bad"} {
		res, err := zzverify(zzload(t, n+".apk"), 28, zzany)
		if err != nil {
			t.Fatal(err)
		}
		st := res.SigningBlockResult.SourceStamp
		if st == nil || (len(st.Errors) == 0) != (n == "good") {
			t.Errorf("%s: %+v", n, st)
		}
	}
}
''')

seed("c17-comment-record", "C17", "signingblock/signingblock.go", "if int(recordCommentSize) == commentSize {", "if int(recordCommentSize) <= commentSize {",
"a ZIP comment holding an end of central directory record whose own comment ends before the file does",
"the record in the comment is taken for the real one and the signing block is not found", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 28, zzany, true)
}
''')

seed("c17-search-window", "C17", "signingblock/signingblock.go", """	if maxCommentSize > int(s.fileSize-eocdRecMinSize) {
		maxCommentSize""", """	if maxCommentSize > int(s.fileSize) {
		maxCommentSize""",
"a file of 65535 to 65556 bytes with a ZIP comment",
"the search for the end of central directory starts before the file does and fails: the signing block is not found", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "good.apk", 28, zzany, true)
}
''')

seed("c02-two-gigabytes", "C02", "signingblock/signingblock.go", "if totalChunkCount >= math.MaxInt32/1024 {", "if totalChunkCount >= math.MaxInt32/maxChunkSize {",
"an APK of more than 2 GB",
"correctly signed large files are refused", '''
// zzfile is head, two gigabytes and a page of zeros, tail.
type zzfile struct{ head, tail []byte }

func (f *zzfile) size() int64 { return int64(len(f.head)) + 2<<30 + 4096 + int64(len(f.tail)) }

func (f *zzfile) ReadAt(p []byte, off int64) (n int, err error) {
	if left := f.size() - off; int64(len(p)) > left {
		if left < 0 {
			left = 0
		}
		p, err = p[:left], io.EOF
	}
	for i := range p {
		p[i] = 0
	}
	if off < int64(len(f.head)) {
		copy(p, f.head[off:])
	}
	if t := f.size() - int64(len(f.tail)); off >= t {
		copy(p, f.tail[off-t:])
	} else if off+int64(len(p)) > t {
		copy(p[t-off:], f.tail)
	}
	return len(p), err
}

func TestZZDemo(t *testing.T) {
	f := &zzfile{zzload(t, "head"), zzload(t, "tail")}
	if _, err := apkverifier.VerifyWithSdkVersionReader(io.NewSectionReader(f, 0, f.size()), nil, 28, zzany); err != nil {
		t.Error(err)
	}
}
''')

seed("c18-weaker-certs", "C18", "apkverifier.go", '''	if !signingblock.IsSigningBlockNotFoundError(signingBlockError) {
		return certs, signingBlockError
	}

	var certsv1''', '''	if signingBlockError == nil {
		return certs, nil
	}

	var certsv1''', "a v1 signed APK with a v2 signature whose key does not parse", "the certificates of the v1 signature are extracted although a v2 signature exists", '''
func TestZZDemo(t *testing.T) {
	if c, err := apkverifier.ExtractCertsReader(bytes.NewReader(zzload(t, "v1v2.apk")), nil); err != nil || len(c) != 1 {
		t.Error(c, err)
	}
	if _, err := apkverifier.ExtractCertsReader(bytes.NewReader(zzload(t, "badv2.apk")), nil); err == nil {
		t.Error("certificates of the v1 signature extracted")
	}
}
''')

seed("c12-issuer-cycle", "C12", "schemev1.go", '''		if len(chain) > len(sig.cert.Certificates) {
			break
		}

''', "", "a v1 signature whose certificates have issued one another", "collecting the certificate chain does not end", '''
func TestZZDemo(t *testing.T) {
	for _, n := range []string{"good.apk", "cycle.apk"} {
		done := make(chan bool)
		apk := zzload(t, n)
		go func() {
			zzverify(apk, 9, zzany)
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(15 * time.Second):
			t.Fatal(n, "does not end")
		}
	}
}
''', helpers="time")

seed("c12-frosting-size", "C12", "signingblock/frosting.go", "size < 0 || pos+int64(size)", "pos+int64(size)",
"a frosting signature whose length is a five-byte number with the top bit set", "reading the signature panics", '''
func TestZZDemo(t *testing.T) {
	for _, n := range []string{"good.apk", "negative.apk"} {
		zzverify(zzload(t, n), 24, zzany)
	}
}
''')

seed("c16-disabled", "C16", "signingblock/frosting.go", "if disabled != 0 {", "if disabled == 1 {",
"a frosting entry whose disabled field is a number other than 0 and 1", "a disabled entry counts as an enabled one", '''
func TestZZDemo(t *testing.T) {
	zzfrost(t, "good.apk", true)
	zzfrost(t, "disabled.apk", false)
}
''', frost=True)

seed("c16-signature-index", "C16", "signingblock/frosting.go", '''				return fmt.Errorf("can't seek after disabled: %s", err.Error())
			}
''', '''				return fmt.Errorf("can't seek after disabled: %s", err.Error())
			}
			signatureIdx--
''', "a disabled frosting entry before the enabled one", "the signature of another entry is taken, authentic frosting is refused", '''
func TestZZDemo(t *testing.T) {
	zzfrost(t, "good.apk", true)
	zzfrost(t, "second.apk", true)
}
''', frost=True)

seed("c19-numeric-list", "C19", "internal/asn1andr/asn1.go", '''		case TagIA5String, TagGeneralString, TagT61String, TagUTF8String, TagNumericString, TagBMPString:
			// We pretend that various other string types are''', '''		case TagIA5String, TagGeneralString, TagT61String, TagUTF8String, TagBMPString:
			// We pretend that various other string types are''', "a sequence of strings that has a numeric string among its elements", "it is refused", '''
package asn1andr

import (
	"encoding/asn1"
	"reflect"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, b := range [][]byte{{0x30, 3, 0x13, 1, 'a'}, {0x30, 6, 0x13, 1, 'a', 0x12, 1, '1'}, {0x30, 6, 0x0c, 1, 'a', 0x16, 1, '1'}} {
		var std, got []string
		_, want := asn1.Unmarshal(b, &std)
		_, err := Unmarshal(b, &got)
		if (err == nil) != (want == nil) || err == nil && !reflect.DeepEqual(got, std) {
			t.Errorf("%x: %v %v, want %v %v", b, got, err, std, want)
		}
	}
}
'''.strip()+"\n", pkg="internal/asn1andr")

seed("c20-year-1950", "C20", "internal/asn1andr/asn1.go", "if ret.Year() >= 2050 {", "if ret.Year() > 2050 {",
"a certificate valid from some time in the year 1950", "its validity is reported to begin in 2050", '''
func TestZZDemo(t *testing.T) {
	chains, err := apkverifier.ExtractCertsReader(bytes.NewReader(zzload(t, "v2.apk")), nil)
	if err != nil {
		t.Fatal(err)
	}
	std, err := x509.ParseCertificate(chains[0][0].Raw)
	if err != nil {
		t.Fatal(err)
	}
	if i := apkverifier.NewCertInfo(chains[0][0]); !i.ValidFrom.Equal(std.NotBefore) || !i.ValidTo.Equal(std.NotAfter) {
		t.Errorf("valid from %v to %v, must be %v to %v", i.ValidFrom, i.ValidTo, std.NotBefore, std.NotAfter)
	}
}
''', helpers="crypto/x509")

seed("c20-best-tie", "C20", "certinfo.go", "return bytes.Compare(ci.Raw, cj.Raw) > 0", "return bytes.Compare(ci.RawSubject, cj.RawSubject) > 0",
"two signers whose certificates share dates, algorithm and subject", "the certificate that is picked depends on the order of the signers", '''
func TestZZDemo(t *testing.T) {
	var got [2]*apkverifier.CertInfo
	for i := range got {
		chains, err := apkverifier.ExtractCertsReader(bytes.NewReader(zzload(t, "v2.apk")), nil)
		if err != nil || len(chains) != 2 {
			t.Fatal(chains, err)
		}
		if i == 1 {
			chains[0], chains[1] = chains[1], chains[0]
		}
		got[i], _ = apkverifier.PickBestApkCert(chains)
	}
	if got[0].Sha256 != got[1].Sha256 {
		t.Error("the order decides")
	}
}
''')

seed("c21-issuer", "C21", "fullsailor/pkcs7/pkcs7.go", "bytes.Compare(cert.RawIssuer, ias.IssuerName.FullBytes) == 0", "len(cert.RawIssuer) == len(ias.IssuerName.FullBytes)",
"two signers or recipients whose certificates share the serial number and have issuer names of one length", "the certificate or key of somebody else is used", P21+'''func TestZZDemo(t *testing.T) {
	a, ka := zzcert(t, "Alice")
	b, kb := zzcert(t, "Robin")
	sd, _ := pkcs7.NewSignedData([]byte("content"))
	sd.AddSigner(a, ka, pkcs7.SignerInfoConfig{})
	sd.AddSigner(b, kb, pkcs7.SignerInfoConfig{})
	msg, err := sd.Finish()
	if err != nil {
		t.Fatal(err)
	}
	p7, err := pkcs7.Parse(msg)
	if err != nil {
		t.Fatal(err)
	}
	if err := p7.Verify(); err != nil {
		t.Error(err)
	}
	env, err := pkcs7.Encrypt([]byte("content"), []*x509.Certificate{a, b})
	if err != nil {
		t.Fatal(err)
	}
	for i, c := range []*x509.Certificate{a, b} {
		p7, err := pkcs7.Parse(env)
		if err != nil {
			t.Fatal(err)
		}
		if got, err := p7.Decrypt(c, []*rsa.PrivateKey{ka, kb}[i]); err != nil || string(got) != "content" {
			t.Error(i, string(got), err)
		}
	}
}
''', pkg="fullsailor/pkcs7")

seed("c19-private-tag", "C19", "fullsailor/pkcs7/ber.go", "	if tag == 0x1F {", "	if tag == 0x1F && b < 0xC0 {",
"a PKCS#7 block with a value of the private class whose tag number is 31 or more, for example in a signed attribute", "the tag is cut after its first byte and the rest of the block is read out of step", P21.replace("\t\"math/big\"", "\t\"encoding/asn1\"\n\t\"math/big\"")+'''func TestZZDemo(t *testing.T) {
	a, ka := zzcert(t, "Alice")
	for class := asn1.ClassApplication; class <= asn1.ClassPrivate; class++ {
		for _, tag := range []int{30, 31, 40, 127, 128, 20000} {
			sd, err := pkcs7.NewSignedData([]byte("content"))
			if err != nil {
				t.Fatal(err)
			}
			if err := sd.AddSigner(a, ka, pkcs7.SignerInfoConfig{ExtraSignedAttributes: []pkcs7.Attribute{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 99},
				Value: asn1.RawValue{Class: class, Tag: tag, Bytes: []byte("abcdef")}}}}); err != nil {
				t.Fatal(err)
			}
			msg, err := sd.Finish()
			if err != nil {
				t.Fatal(err)
			}
			p7, err := pkcs7.Parse(msg)
			if err == nil {
				err = p7.Verify()
			}
			if err != nil {
				t.Errorf("class %d tag %d: %v", class, tag, err)
			}
		}
	}
}
''', pkg="fullsailor/pkcs7")

seed("c21-any-signer", "C21", "fullsailor/pkcs7/pkcs7.go", '''		if err := verifySignature(p7, signer); err != nil {
			return err
		}
	}
	return nil
''', '''		if err = verifySignature(p7, signer); err != nil {
			if _, ok := err.(*MessageDigestMismatchError); ok {
				return err
			}
			continue
		}
	}
	return err
''', "two signers, the signature of the first one altered", "the result of the last signer is the result for all", P21+'''func TestZZDemo(t *testing.T) {
	a, ka := zzcert(t, "Alice")
	b, kb := zzcert(t, "Bob")
	sd, _ := pkcs7.NewSignedData([]byte("content"))
	sd.AddSigner(a, ka, pkcs7.SignerInfoConfig{})
	sd.AddSigner(b, kb, pkcs7.SignerInfoConfig{})
	msg, err := sd.Finish()
	if err != nil {
		t.Fatal(err)
	}
	for bad := -1; bad < 2; bad++ {
		p7, err := pkcs7.Parse(msg)
		if err != nil {
			t.Fatal(err)
		}
		if bad >= 0 {
			p7.Signers[bad].EncryptedDigest[9] ^= 1
		}
		if err := p7.Verify(); (err == nil) != (bad < 0) {
			t.Error(bad, err)
		}
	}
}
''', pkg="fullsailor/pkcs7")

seed("c22-long-name", "C22", "manifest.go", "len(name) > 70 {", "len(name) >= 70 {",
"an attribute name of 70 characters, the longest allowed", "an authentic v1 signature is refused", '''
func TestZZDemo(t *testing.T) {
	zzaccept(t, "n69.apk", 16, zzany, true)
	zzaccept(t, "n70.apk", 16, zzany, true)
	zzaccept(t, "n71.apk", 16, zzany, false)
}
''')
