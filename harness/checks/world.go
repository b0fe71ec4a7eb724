package checks

import (
	"crypto"
	"fmt"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// v1Signer describes one v1 signature.
type v1Signer struct {
	Base  string // "CERT" if empty
	Dir   string // "META-INF/" if empty
	Ext   string
	Key   *gen.Key
	Cert  []byte
	Hash  crypto.Hash
	Attrs bool
	SF    gen.SFOpts
	Bad   bool // the PKCS#7 signature is wrong
	NoSF  bool
	NoP7  bool
	// Make overrides the PKCS#7 block and its verdict.
	Make func(sf []byte) ([]byte, func(min, max int32) (bool, [][]byte))
}

// v1World is a v1 signed archive and its model.
type v1World struct {
	Zip *gen.Zip
	Jar *ref.Jar
}

// signV1 signs a zip's entries. m nil: a default manifest with alg digests of all non-META-INF files.
func signV1(z *gen.Zip, m *gen.JarDoc, alg string, signers ...v1Signer) v1World {
	var files []*gen.Entry
	var dirs []string
	for _, e := range z.Entries {
		if strings.HasSuffix(e.Name, "/") {
			dirs = append(dirs, e.Name)
		} else if !strings.HasPrefix(e.Name, "META-INF/") {
			files = append(files, e)
		}
	}
	if m == nil {
		m = gen.MakeManifest(alg, files)
	}
	w := v1World{Jar: &ref.Jar{Entries: files, Dirs: dirs, Manifest: m}}
	meta := []*gen.Entry{{Name: "META-INF/MANIFEST.MF", Data: m.Raw, Method: 8}}
	for i, s := range signers {
		if s.Base == "" {
			s.Base = "CERT"
			if i > 0 {
				s.Base = fmt.Sprintf("CERT%d", i)
			}
		}
		if s.Dir == "" {
			s.Dir = "META-INF/"
		}
		if s.Ext == "" {
			s.Ext = gen.V1Ext(s.Key)
		}
		if s.SF.Alg == "" {
			s.SF.Alg = alg
		}
		if s.Cert == nil && s.Key != nil {
			s.Cert = gen.SelfCert(s.Key)
		}
		h := s.Hash
		if h == 0 {
			h = crypto.SHA1
		}
		sf := gen.MakeSF(m, s.SF)
		js := ref.JarSigner{Base: s.Dir + s.Base, SF: sf}
		var p7 []byte
		if s.Make != nil {
			p7, js.P7 = s.Make(sf.Raw)
		} else {
			so := gen.SignerOf{Key: s.Key, Cert: s.Cert, Hash: h, Attrs: s.Attrs}
			if s.Bad {
				so.Post = func(si *gen.SI) { si.Sig = flipIn(si.Sig, len(si.Sig)-1) }
			}
			p7 = gen.P7Spec{Certs: [][]byte{s.Cert}, Signers: []*gen.SI{so.Make(sf.Raw)}}.DER()
			cert, bad := s.Cert, s.Bad
			js.P7 = func(min, max int32) (bool, [][]byte) { return !bad, [][]byte{cert} }
		}
		if s.NoSF {
			js.SF = nil
		} else {
			meta = append(meta, &gen.Entry{Name: s.Dir + s.Base + ".SF", Data: sf.Raw, Method: 8})
		}
		if !s.NoP7 {
			meta = append(meta, &gen.Entry{Name: s.Dir + s.Base + "." + s.Ext, Data: p7})
			w.Jar.Signers = append(w.Jar.Signers, js)
		}
	}
	w.Zip = z.Clone()
	w.Zip.Entries = append(meta, w.Zip.Entries...)
	return w
}

// judgeFull compares full verification with the model.
func judgeFull(c *mc.Ctx, apk []byte, j *ref.Jar, app ref.App, min, max int32) (*ref.FullRes, impl.Outcome) {
	want := ref.Full(apk, j, app, min, max)
	o := impl.Verify(apk, min, max)
	c.Trace(1)
	where := fmt.Sprintf("sdk <%d;%d>", min, max)
	c.Note("%s: accept=%v scheme=%d certs=%d dex=%v why=%q", where, want.Accept, want.Scheme, len(want.Certs), want.MixedDex, want.Why)
	if want.Unsure {
		mc.Outcome("file: not judged")
		return want, o
	}
	compareFull(c, want, o, where)
	return want, o
}

func compareFull(c *mc.Ctx, want *ref.FullRes, o impl.Outcome, where string) {
	if want.Accept {
		mc.Outcome(fmt.Sprintf("file: accepted with scheme %d", want.Scheme))
	} else {
		mc.Outcome("file: rejected")
	}
	switch {
	case o.Panic != "":
		c.Failf("%s: %s", where, o.Panic)
	case o.Accept != want.Accept:
		c.Failf("%s: accepted=%v (%s), must be %v (%s)", where, o.Accept, o.Err, want.Accept, want.Why)
	case o.MixedDex != want.MixedDex:
		c.Failf("%s: mixed DEX error=%v (%s), must be %v (%s)", where, o.MixedDex, o.Err, want.MixedDex, want.Why)
	case want.Accept || want.MixedDex:
		if o.Scheme != want.Scheme {
			c.Failf("%s: scheme %d, must be %d", where, o.Scheme, want.Scheme)
		}
		if !impl.SameChains(o.Certs, want.Certs) {
			c.Failf("%s: certificates %s, must be %s", where, showChains(o.Certs), showChains(want.Certs))
		}
		if want.Accept && want.Block != nil && !want.Block.NotFound && want.Scheme > 1 {
			compareBlock(c, want.Block, blockOf(o), where)
		}
	}
}

// blockOf views a full outcome as a signing block outcome.
func blockOf(o impl.Outcome) impl.Outcome { return o }
