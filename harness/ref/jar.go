package ref

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	"encoding/base64"
	"sort"
	"strconv"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
)

// JarSigner is one signature block file of a v1 signed archive, in archive order.
type JarSigner struct {
	Base     string      // path without extension
	SF       *gen.JarDoc // nil: no signature file of that name
	SFBad    bool        // the signature file does not parse
	BlockBad bool        // the block is not PKCS#7 SignedData at all
	// P7 tells whether the block verifies over the signature file and the chain it yields.
	P7 func(min, max int32) (ok bool, chain [][]byte)
}

// Jar is the logical content of a v1 signed archive.
type Jar struct {
	Entries     []*gen.Entry // everything except META-INF files
	Dirs        []string     // entries whose names end in /
	Extra       []string     // META-INF files the manifest may list
	Manifest    *gen.JarDoc
	ManifestBad bool
	Signers     []JarSigner
}

func attrMap(as []gen.JAttr) map[string]string {
	m := map[string]string{}
	for _, a := range as {
		m[strings.ToLower(a.K)] = a.V
	}
	return m
}

var jarHash = map[string]crypto.Hash{"sha": crypto.SHA1, "sha1": crypto.SHA1, "sha-256": crypto.SHA256, "sha-384": crypto.SHA384, "sha-512": crypto.SHA512}

type digRes int

const (
	digOK digRes = iota
	digNone
	digWrong
)

// JarDigests lists the digest algorithms Android versions min..max check in an attribute set; nil: none.
func JarDigests(m map[string]string, suffix string, min, max int32) []string {
	var out []string
	if min < 18 {
		list := strings.ToLower(m["digest-algorithms"])
		if list == "" {
			list = "sha sha1"
		}
		for _, a := range strings.Split(list, " ") {
			if _, known := jarHash[a]; !known {
				continue
			}
			if min < 9 && (a == "sha-384" || a == "sha-512") {
				continue
			}
			if _, ok := m[a+suffix]; ok {
				out = append(out, a)
			}
		}
	}
	if max >= 18 {
		found := false
		for _, a := range []string{"sha-512", "sha-384", "sha-256", "sha1"} {
			if _, ok := m[a+suffix]; ok {
				out = append(out, a)
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return out
}

func digests(m map[string]string, suffix string, min, max int32, data []byte) digRes {
	l := JarDigests(m, suffix, min, max)
	if len(l) == 0 {
		return digNone
	}
	for _, a := range l {
		d, err := base64.StdEncoding.DecodeString(m[a+suffix])
		if err != nil {
			return digWrong
		}
		h := jarHash[a].New()
		h.Write(data)
		if !bytes.Equal(d, h.Sum(nil)) {
			return digWrong
		}
	}
	return digOK
}

// Verify judges the v1 signature. hasBlock: a signing block verified.
func (j *Jar) Verify(min, max int32, hasBlock bool) (accept bool, chains [][][]byte, why string) {
	if j.ManifestBad {
		return false, nil, "manifest does not parse"
	}
	type sig struct {
		s       *JarSigner
		chain   [][]byte
		entries map[string]map[string]string
	}
	used := map[string]bool{}
	var sigs []*sig
	for i := range j.Signers {
		s := &j.Signers[i]
		if s.SF == nil && !s.SFBad || used[s.Base] {
			continue
		}
		if s.BlockBad {
			return false, nil, "block does not parse"
		}
		if s.SFBad {
			continue
		}
		used[s.Base] = true
		sigs = append(sigs, &sig{s: s})
	}
	if j.Manifest == nil {
		return false, nil, "no manifest"
	}
	if len(sigs) == 0 {
		return false, nil, "no signatures"
	}
	manifest := map[string]map[string]string{}
	chunks := map[string][]byte{}
	for i, s := range j.Manifest.Sections {
		manifest[s.Name] = attrMap(s.Attrs)
		chunks[s.Name] = j.Manifest.Chunks[i]
	}
	bad := ""
	total := 0
	var valid []*sig
	for _, x := range sigs {
		ok, chain := x.s.P7(min, max)
		if !ok {
			bad = "signature of " + x.s.Base
			continue
		}
		total++
		x.chain = chain
		m := attrMap(x.s.SF.Main)
		if v, ok := m["x-android-apk-signed"]; ok && !hasBlock && max >= 24 {
			for _, t := range strings.Split(v, ",") {
				if n, err := strconv.ParseInt(strings.TrimSpace(t), 10, 32); err == nil && (n == 2 || n == 3 && max >= 28) {
					return false, nil, "stripped signature"
				}
			}
		}
		if _, ok := m["signature-version"]; !ok {
			continue
		}
		signtool := strings.Contains(m["created-by"], "signtool")
		if !signtool && digests(m, "-digest-manifest-main-attributes", min, max, j.Manifest.Raw[:j.Manifest.MainEnd]) == digWrong {
			return false, nil, "main attributes digest"
		}
		suffix := "-digest-manifest"
		if signtool {
			suffix = "-digest"
		}
		x.entries = map[string]map[string]string{}
		for _, s := range x.s.SF.Sections {
			if x.entries[s.Name] == nil {
				x.entries[s.Name] = map[string]string{}
			}
			for k, v := range attrMap(s.Attrs) {
				x.entries[s.Name][k] = v
			}
		}
		good := digests(m, suffix, min, max, j.Manifest.Raw) == digOK
		if !good && len(x.entries) > 0 {
			good = true
			for name, at := range x.entries {
				c, ok := chunks[name]
				if signtool && bytes.HasSuffix(c, []byte("\n\n")) {
					c = c[:len(c)-1]
				}
				if !ok || digests(at, "-digest", min, max, c) != digOK {
					good = false
				}
			}
		}
		if good {
			valid = append(valid, x)
		}
	}
	if len(valid) == 0 {
		return false, nil, "no signature file is bound to the manifest"
	}
	if bad != "" {
		return false, nil, bad
	}
	if total > 10 {
		return false, nil, "too many signers"
	}
	files := map[string]*gen.Entry{}
	for _, e := range j.Entries {
		files[e.Name] = e
	}
	exists := map[string]bool{}
	for n := range files {
		exists[n] = true
	}
	for _, n := range append(append([]string{}, j.Dirs...), j.Extra...) {
		exists[n] = true
	}
	for n := range manifest {
		if !exists[n] {
			return false, nil, "manifest entry " + n + " missing in the archive"
		}
	}
	var req []string
	bundle := false
	for n := range files {
		if n == "BundleConfig.pb" {
			bundle = true
		}
		req = append(req, n)
	}
	if files["AndroidManifest.xml"] == nil && !bundle {
		req = append(req, "AndroidManifest.xml")
	}
	sort.Strings(req)
	for i, n := range req {
		at, ok := manifest[n]
		if !ok {
			return false, nil, n + " not in the manifest"
		}
		if files[n] == nil || digests(at, "-digest", min, max, files[n].Data) != digOK {
			return false, nil, "digest of " + n
		}
		var cs [][][]byte
		for _, x := range valid {
			if _, ok := x.entries[n]; ok {
				cs = append(cs, x.chain)
			}
		}
		if len(cs) == 0 {
			return false, nil, n + " not signed"
		}
		if i == 0 {
			chains = cs
		} else if !sameSet(chains, cs) {
			return false, nil, "signers of " + n + " differ"
		}
	}
	return true, chains, ""
}

func sameSet(a, b [][][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	in := func(x [][]byte, l [][][]byte) bool {
		for _, y := range l {
			if impl.SameChains([][][]byte{x}, [][][]byte{y}) {
				return true
			}
		}
		return false
	}
	for _, x := range a {
		if !in(x, b) {
			return false
		}
	}
	for _, x := range b {
		if !in(x, a) {
			return false
		}
	}
	return true
}
