package checks

// Writes the input files of the demonstrations under /verif/seeded: ZZFIX=1 go test ./checks -run TestFixtures

import (
	"bytes"
	"compress/gzip"
	"crypto"
	"encoding/base64"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/avast/apkverifier/zzverif/gen"
)

func fixture(id, name string, apk []byte) {
	dir := filepath.Join("/verif/seeded", id)
	os.MkdirAll(dir, 0o755)
	var b bytes.Buffer
	w, _ := gzip.NewWriterLevel(&b, 9)
	w.Write(apk)
	w.Close()
	if err := os.WriteFile(filepath.Join(dir, name+".gz"), b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}

func TestFixtures(t *testing.T) {
	if os.Getenv("ZZFIX") == "" {
		t.Skip()
	}
	one := func(p ...gen.Pair) []byte { return tinySec.Assemble(gen.EncodeBlock(p...)) }
	v1of := func(app gen.ManifestSpec, f func(z *gen.Zip), s ...v1Signer) v1World {
		z := tiny()
		z.Entries[0].Data = app.AXML()
		if f != nil {
			f(z)
		}
		return signV1(z, nil, "SHA1", s...)
	}
	old := gen.ManifestSpec{MinSDK: gen.IV(9), TargetSDK: gen.IV(28)}
	rsa0, rsa1 := gen.K("rsa1024-0"), gen.K("rsa1024-1")

	// c07-lineage-repeat
	lin := func(keys ...*gen.Key) []byte {
		return one(gen.V3(tinySec, gen.SignerSpec{Key: keys[len(keys)-1], Min: 28, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(gen.MakeLineage(keys...))}}))
	}
	fixture("c07-lineage-repeat", "good.apk", lin(gen.EC(0), gen.EC(1), gen.EC(2)))
	fixture("c07-lineage-repeat", "bad.apk", lin(gen.EC(0), gen.EC(1), gen.EC(0), gen.EC(2)))

	// c06-sdk-overlap
	rng := func(max, min uint32) []byte {
		return one(gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(0), Min: 28, Max: max}, gen.SignerSpec{Key: gen.EC(1), Min: min, Max: 0x7fffffff}))
	}
	fixture("c06-sdk-overlap", "good.apk", rng(30, 31))
	fixture("c06-sdk-overlap", "bad.apk", rng(31, 31))
	fixture("c06-sdk-overlap", "gap.apk", rng(29, 31))

	// c02-verity-page: the hashes of 128 pages fill one page exactly
	pages := func(n int) []byte {
		z := tiny()
		z.Align = 4096
		z.Entries = append(z.Entries, &gen.Entry{Name: "big.bin", Data: make([]byte, (n-2)*4096)})
		sec := z.Build()
		tot := len(sec.Before) + len(sec.CD) + len(sec.EOCD)
		if (tot+4095)/4096 != n {
			t.Fatalf("%d pages instead of %d", (tot+4095)/4096, n)
		}
		return sec.Assemble(gen.EncodeBlock(gen.V2(sec, gen.SignerSpec{Key: gen.EC(1), Algs: []uint32{gen.AlgVEC256}})))
	}
	fixture("c02-verity-page", "p127.apk", pages(127))
	fixture("c02-verity-page", "p128.apk", pages(128))
	fixture("c02-verity-page", "p129.apk", pages(129))

	// c05-signed-list
	for _, s := range []string{"2", "3, 2"} {
		w := v1of(old, nil, v1Signer{Key: rsa0, SF: gen.SFOpts{APKSigned: s}})
		fixture("c05-signed-list", "stripped"+s[:1]+".apk", w.Zip.Build().Assemble(nil))
	}

	// c15-stamp-lineage
	key := gen.EC(8)
	b := c15Base(1, sha(gen.SelfCert(key)))
	for name, keys := range map[string][]*gen.Key{"good": {gen.EC(7), key}, "bad": {gen.EC(7), key, gen.EC(6)}} {
		rec := gen.StampSpec{Key: key, Over: b.over, Attrs: []gen.Attr{timeAttr(1234567), {ID: 0x9d6303f7, Val: gen.EncodeLineage(1, gen.MakeLineage(keys...))}}}.Rec()
		fixture("c15-stamp-lineage", name+".apk", b.sec.Assemble(gen.EncodeBlock(append(append([]gen.Pair(nil), b.pairs...), rec.Pair())...)))
	}

	// c13-short-footer
	v1v2 := func(mut func([]byte) []byte) []byte {
		w := v1of(gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(28)}, nil, v1Signer{Key: rsa0})
		sec := w.Zip.Build()
		blk := gen.EncodeBlock(gen.V2(sec, gen.SignerSpec{Key: rsa1}))
		if mut != nil {
			blk = mut(blk)
		}
		return sec.Assemble(blk)
	}
	fixture("c13-short-footer", "v1v2.apk", v1v2(nil))

	// c14-shared-prefix
	two := []gen.SignerSpec{{Key: gen.EC(0), Algs: []uint32{0x201}}, {Key: rsa0, Algs: []uint32{0x104}}}
	z := tiny()
	z.Entries = append(z.Entries, &gen.Entry{Name: "more.bin", Data: pattern(5000)})
	sec2 := z.Build()
	fixture("c14-shared-prefix", "a.apk", one(gen.V2(tinySec, two...)))
	fixture("c14-shared-prefix", "b.apk", sec2.Assemble(gen.EncodeBlock(gen.V2(sec2, two...))))

	// c17-comment-record
	z = tiny()
	fake := append([]byte("PK\x05\x06"), make([]byte, 16)...)
	z.Comment = append(append([]byte("hello "), fake...), 3, 0, 'a', 'b', 'c', 'd', 'e')
	sec3 := z.Build()
	fixture("c17-comment-record", "good.apk", sec3.Assemble(gen.EncodeBlock(gen.V2(sec3, gen.SignerSpec{Key: gen.EC(0)}))))

	// c17-search-window: a file a little larger than the largest comment
	secW := setComment(tiny().Build(), []byte("hello"))
	v2w := gen.V2(secW, gen.SignerSpec{Key: gen.EC(0)})
	padW := 65540 - len(secW.Assemble(gen.EncodeBlock(v2w, gen.Pair{ID: gen.IDPadding})))
	fixture("c17-search-window", "good.apk", secW.Assemble(gen.EncodeBlock(v2w, gen.Pair{ID: gen.IDPadding, Val: make([]byte, padW)})))

	// c02-two-gigabytes
	secG := tiny().Build()
	gapG := int64(2<<30) + 4096
	v2g := gen.V2(secG, gen.SignerSpec{Key: gen.EC(0), Algs: []uint32{gen.AlgEC256}, PreSign: func(r *gen.SignerRec) {
		r.Digests[0].Bytes = secG.SparseDigest(1, gapG)
	}})
	spG := secG.Sparse(gapG, gen.EncodeBlock(v2g))
	fixture("c02-two-gigabytes", "head", spG.Head)
	fixture("c02-two-gigabytes", "tail", spG.Tail)

	// c18-weaker-certs
	fixture("c18-weaker-certs", "v1v2.apk", v1v2(nil))
	fixture("c18-weaker-certs", "badv2.apk", v1v2(func(blk []byte) []byte {
		pub := rsa1.SPKI
		i := bytes.LastIndex(blk, pub)
		blk[i+len(pub)-20] ^= 0x40
		return blk
	}))

	// c09-content-type
	for _, ok := range []bool{true, false} {
		ct := gen.OIDData
		if !ok {
			ct = gen.OIDSignedData
		}
		mk := func(sf []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
			c := gen.SelfCert(rsa0)
			return gen.P7Spec{Certs: [][]byte{c}, Signers: []*gen.SI{gen.SignerOf{Key: rsa0, Cert: c, Attrs: true, CType: ct}.Make(sf)}}.DER(), nil
		}
		w := v1of(old, nil, v1Signer{Key: rsa0, Make: mk})
		name := "good.apk"
		if !ok {
			name = "bad.apk"
		}
		fixture("c09-content-type", name, w.Zip.Build().Assemble(nil))
	}

	// c04-fallback-limit
	brokenV3 := gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(1), Min: 28, Max: 0x7fffffff, PostSign: func(r *gen.SignerRec) {
		r.Sigs[0].Bytes = flip(r.Sigs[0].Bytes, len(r.Sigs[0].Bytes)-1, 1)
	}})
	fixture("c04-fallback-limit", "badv3.apk", one(gen.V2(tinySec, gen.SignerSpec{Key: gen.EC(0)}), brokenV3))

	// c05-no-such-scheme
	v2four := gen.V2(tinySec, gen.SignerSpec{Key: gen.EC(0), Attrs: []gen.Attr{{ID: gen.AttrStrip, Val: gen.LE32(4)}}})
	fixture("c05-no-such-scheme", "plain.apk", one(v2four))
	fixture("c05-no-such-scheme", "pair.apk", one(v2four, gen.Pair{ID: 0, Val: []byte("x")}))
	fixture("c05-no-such-scheme", "good.apk", one(gen.V2(tinySec, gen.SignerSpec{Key: gen.EC(0)}), gen.Pair{ID: 0, Val: []byte("x")}))

	// c11-target-limit
	w := v1of(gen.ManifestSpec{MinSDK: gen.IV(21), TargetSDK: gen.IV(31)}, nil, v1Signer{Key: rsa0})
	fixture("c11-target-limit", "v1.apk", w.Zip.Build().Assemble(nil))

	// c10-api9
	z = tiny()
	z.Entries[0].Data = old.AXML()
	m := gen.MakeManifest("SHA1", z.Entries)
	for i := range m.Sections {
		s := &m.Sections[i]
		d := z.Entries[i].Data
		if s.Name == "classes.dex" {
			d = []byte("something else")
		}
		s.Attrs = append(s.Attrs, gen.JAttr{K: "Digest-Algorithms", V: "SHA1 SHA-512"}, gen.DigAttr("SHA-512", "-Digest", d))
	}
	m.Render()
	w = signV1(z, m, "SHA1", v1Signer{Key: rsa0})
	fixture("c10-api9", "v1.apk", w.Zip.Build().Assemble(nil))

	// c08-same-signer-twice
	z = tiny()
	z.Entries[0].Data = old.AXML()
	but := func(n string) func(string) bool { return func(s string) bool { return s != n } }
	// A signs everything twice but classes.dex once, B signs only that.
	w = signV1(z, nil, "SHA1", v1Signer{Key: rsa0}, v1Signer{Key: rsa0, SF: gen.SFOpts{Filter: but("classes.dex")}},
		v1Signer{Key: rsa1, SF: gen.SFOpts{Filter: func(s string) bool { return s == "classes.dex" }}})
	fixture("c08-same-signer-twice", "bad.apk", w.Zip.Build().Assemble(nil))
	w = signV1(z, nil, "SHA1", v1Signer{Key: rsa0}, v1Signer{Key: rsa0}, v1Signer{Key: rsa1})
	fixture("c08-same-signer-twice", "good.apk", w.Zip.Build().Assemble(nil))

	// c08-broken-block
	w = signV1(z, nil, "SHA1", v1Signer{Key: rsa0}, v1Signer{Key: rsa1})
	fixture("c08-broken-block", "good.apk", w.Zip.Build().Assemble(nil))
	w.Zip.Find("META-INF/CERT1.RSA").Data = []byte("no signature")
	fixture("c08-broken-block", "bad.apk", w.Zip.Build().Assemble(nil))

	// c08-chain-prefix
	{
		leaf := gen.CertSpec{Subject: gen.CN("leaf"), Issuer: gen.CN("ca"), Key: rsa0, SignKey: rsa1}.DER()
		ca := gen.CertSpec{Subject: gen.CN("ca"), Issuer: gen.CN("ca"), Key: rsa1}.DER()
		part := func(n string, certs ...[]byte) v1Signer {
			return v1Signer{Key: rsa0, SF: gen.SFOpts{Filter: func(s string) bool { return (s == "classes.dex") == (n == "classes.dex") }},
				Make: func(sf []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
					return gen.P7Spec{Certs: certs, Signers: []*gen.SI{gen.SignerOf{Key: rsa0, Cert: leaf, Hash: crypto.SHA1}.Make(sf)}}.DER(), nil
				}}
		}
		fixture("c08-chain-prefix", "good.apk", signV1(z, nil, "SHA1", part("", leaf), part("classes.dex", leaf)).Zip.Build().Assemble(nil))
		fixture("c08-chain-prefix", "bad.apk", signV1(z, nil, "SHA1", part("", leaf), part("classes.dex", leaf, ca)).Zip.Build().Assemble(nil))
	}

	// c08-cut-entry
	w = signV1(z, nil, "SHA1", v1Signer{Key: rsa0})
	fixture("c08-cut-entry", "good.apk", w.Zip.Build().Assemble(nil))
	{
		e := w.Zip.Find("classes.dex")
		e.Method, e.Body = 8, gen.Cat([]byte{0, byte(len(e.Data)), 0, ^byte(len(e.Data)), 0xff}, e.Data, []byte{7})
	}
	fixture("c08-cut-entry", "bad.apk", w.Zip.Build().Assemble(nil))

	// c01-one-digest
	wrong := gen.SignerSpec{Key: rsa0, Algs: []uint32{0x104}, PreSign: func(r *gen.SignerRec) { r.Digests[0].Bytes = flip(r.Digests[0].Bytes, 3, 1) }}
	fixture("c01-one-digest", "good.apk", one(gen.V2(tinySec, gen.SignerSpec{Key: gen.EC(0), Algs: []uint32{0x201}}, gen.SignerSpec{Key: rsa0, Algs: []uint32{0x104}})))
	fixture("c01-one-digest", "bad.apk", one(gen.V2(tinySec, gen.SignerSpec{Key: gen.EC(0), Algs: []uint32{0x201}}, wrong)))

	// c03-strongest
	z = tiny()
	z.Align = 4096
	asec := z.Build()
	for _, ok := range []bool{true, false} {
		s := gen.SignerSpec{Key: rsa0, Algs: []uint32{0x104, 0x421}}
		name := "good.apk"
		if !ok {
			name = "bad.apk"
			s.PostSign = func(r *gen.SignerRec) { r.Sigs[0].Bytes = flip(r.Sigs[0].Bytes, 5, 1) }
		}
		fixture("c03-strongest", name, asec.Assemble(gen.EncodeBlock(gen.V2(asec, s))))
	}

	// c12-issuer-cycle
	na, nb := gen.CN("a"), gen.CN("b")
	ca := gen.CertSpec{Subject: na, Issuer: nb, Key: rsa0}.DER()
	cb := gen.CertSpec{Subject: nb, Issuer: na, Key: rsa1}.DER()
	for name, certs := range map[string][][]byte{"good.apk": {ca}, "cycle.apk": {ca, cb}} {
		z := tiny()
		z.Entries[0].Data = old.AXML()
		w := signV1(z, nil, "SHA1", v1Signer{Key: rsa0, Make: func(b []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
			return gen.P7Spec{Certs: certs, Signers: []*gen.SI{gen.SignerOf{Key: rsa0, Cert: ca, Hash: crypto.SHA1}.Make(b)}}.DER(), nil
		}})
		fixture("c12-issuer-cycle", name, w.Zip.Build().Assemble(nil))
	}

	// c12-frosting-size, c16-disabled, c16-signature-index
	fb := c16Bases[0]
	ok := gen.FrostMeta{Sha: fb.digest}
	frost := func(f gen.FrostSpec) []byte { return fb.with(f.Encode()) }
	good := frost(gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{ok}, SignKeys: []*gen.Key{gen.EC(0)}})
	neg := uint32(16)
	f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{ok}, SigsLen: &neg}.Encode()
	f = append(f[:bytes.Index(f, []byte("none"))-2], gen.Cat(gen.Varint(16), []byte{0x80, 0x80, 0x80, 0x80, 0x0f}, make([]byte, 11))...)
	fixture("c12-frosting-size", "good.apk", good)
	fixture("c12-frosting-size", "negative.apk", fb.with(f))
	fixture("c16-disabled", "good.apk", good)
	off := ok
	off.Disabled = 2
	fixture("c16-disabled", "disabled.apk", frost(gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{off}, SignKeys: []*gen.Key{gen.EC(0)}}))
	fixture("c16-signature-index", "good.apk", good)
	off.Disabled = 1
	fixture("c16-signature-index", "second.apk", frost(gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{off, ok}, SignKeys: []*gen.Key{nil, gen.EC(0)}}))
	os.WriteFile("/verif/tools/frosting.key", []byte(base64.StdEncoding.EncodeToString(gen.EC(0).SPKI)), 0o644)

	// c20-year-1950, c20-best-tie
	year := gen.CertSpec{Subject: na, Issuer: na, Key: gen.EC(0), NotBefore: time.Date(1950, 3, 4, 5, 6, 7, 0, time.UTC)}.DER()
	fixture("c20-year-1950", "v2.apk", one(gen.V2(tinySec, gen.SignerSpec{Key: gen.EC(0), Certs: [][]byte{year}})))
	var both []gen.SignerSpec
	for i := 0; i < 2; i++ {
		both = append(both, gen.SignerSpec{Key: gen.EC(i), Certs: [][]byte{gen.CertSpec{Subject: na, Issuer: na, Key: gen.EC(i), Serial: big.NewInt(1)}.DER()}})
	}
	fixture("c20-best-tie", "v2.apk", one(gen.V2(tinySec, both...)))

	// c22-long-name
	for n := 69; n <= 71; n++ {
		z := tiny()
		z.Entries[0].Data = old.AXML()
		m := gen.MakeManifest("SHA1", z.Entries)
		m.Main = append(m.Main, gen.JAttr{K: strings.Repeat("N", n), V: ""})
		w := signV1(z, m.Render(), "SHA1", v1Signer{Key: rsa0})
		fixture("c22-long-name", fmt.Sprintf("n%d.apk", n), w.Zip.Build().Assemble(nil))
	}
}
