package checks

import (
	"archive/zip"
	"bytes"
	"crypto"
	"fmt"
	"io"
	"math/big"
	"path"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

var c08App = gen.ManifestSpec{MinSDK: gen.IV(16), TargetSDK: gen.IV(28)}

func c08Zip() *gen.Zip {
	return &gen.Zip{Entries: []*gen.Entry{
		{Name: "AndroidManifest.xml", Data: c08App.AXML(), Method: 8},
		{Name: "classes.dex", Data: []byte("dex\n035\x00 code code code code"), Method: 8},
		{Name: "res/", ExtAttrs: 0x10},
		{Name: "res/a.txt", Data: []byte("resource")},
		{Name: "META-INF/services/x", Data: []byte("service")},
	}}
}

// c08World is an archive under attack with its v1 model.
type c08World struct {
	z        *gen.Zip
	jar      *ref.Jar
	attacker bool
}

func (w *c08World) sync() {
	w.jar.Entries, w.jar.Dirs = nil, nil
	for _, e := range w.z.Entries {
		switch {
		case strings.HasSuffix(e.Name, "/"):
			w.jar.Dirs = append(w.jar.Dirs, e.Name)
		case !inMetaInf(e.Name):
			w.jar.Entries = append(w.jar.Entries, e)
		}
	}
}

// inMetaInf: names that only lead out of or into META-INF after normalisation do not count as META-INF files.
func inMetaInf(name string) bool {
	return strings.HasPrefix(name, "META-INF/") && strings.HasPrefix(path.Clean(name), "META-INF/")
}

func (w *c08World) remove(name string) {
	var out []*gen.Entry
	for _, e := range w.z.Entries {
		if e.Name != name {
			out = append(out, e)
		}
	}
	w.z.Entries = out
}

type c08Op struct {
	name string
	do   func(w *c08World) bool // false: not applicable
}

var c08Victims = []string{"AndroidManifest.xml", "classes.dex", "res/a.txt"}

var c08Ops = func() []c08Op {
	var ops []c08Op
	add := func(name string, f func(w *c08World) bool) { ops = append(ops, c08Op{name, f}) }
	on := func(name, victim string, f func(w *c08World, e *gen.Entry)) {
		add(name+" "+victim, func(w *c08World) bool {
			e := w.z.Find(victim)
			if e == nil {
				return false
			}
			f(w, e)
			return true
		})
	}
	for _, v := range append(append([]string{}, c08Victims...), "META-INF/services/x") {
		on("remove", v, func(w *c08World, e *gen.Entry) { w.remove(e.Name) })
		on("flip a bit of", v, func(w *c08World, e *gen.Entry) { e.Data = flipIn(e.Data, len(e.Data)/2) })
		on("append to", v, func(w *c08World, e *gen.Entry) { e.Data = append(clone(e.Data), 0) })
		on("empty", v, func(w *c08World, e *gen.Entry) { e.Data = nil })
		on("recompress", v, func(w *c08World, e *gen.Entry) { e.Method = 8 - e.Method; e.Level = 9 })
		on("flag as directory", v, func(w *c08World, e *gen.Entry) { e.ExtAttrs |= 0x10 })
		on("unix directory mode on", v, func(w *c08World, e *gen.Entry) { e.Creator, e.ExtAttrs = 3<<8, 0o040755<<16 })
		for _, to := range []string{"other.bin", "META-INF/hidden", "META-INF/" + strings.ToLower(v), strings.ToUpper(v), v + "/", "META-INFO/x", "meta-inf/x", "META-INF", v + " ", "assets/" + v, "./" + v, "x/../" + v, "META-INF/../" + v, v + "/."} {
			on("rename to "+to, v, func(w *c08World, e *gen.Entry) { e.Name = to })
		}
	}
	for _, n := range []string{"new.bin", "res/b.txt", "META-INF/new.bin", "META-INF/sub/new.bin", "META-INF.bin", "META-INFO/new.bin", "meta-inf/new.bin", "new/", "META-INF/", "AndroidManifest.xml.bak", "Meta-Inf/new.bin", "BundleConfig.pb", "\\evil", "lib/x.so\x00y"} {
		add("add "+n, func(w *c08World) bool {
			if w.z.Find(n) != nil {
				return false
			}
			w.z.Entries = append(w.z.Entries, &gen.Entry{Name: n, Data: []byte("evil")})
			return true
		})
	}
	add("add a file flagged as directory", func(w *c08World) bool {
		if w.z.Find("flagged.bin") != nil {
			return false
		}
		w.z.Entries = append(w.z.Entries, &gen.Entry{Name: "flagged.bin", Data: []byte("evil"), ExtAttrs: 0x10})
		return true
	})
	add("swap the contents of dex and resource", func(w *c08World) bool {
		a, b := w.z.Find("classes.dex"), w.z.Find("res/a.txt")
		if a == nil || b == nil {
			return false
		}
		a.Data, b.Data = b.Data, a.Data
		return true
	})
	add("reverse the order of entries", func(w *c08World) bool {
		var out []*gen.Entry
		for i := len(w.z.Entries) - 1; i >= 0; i-- {
			out = append(out, w.z.Entries[i])
		}
		w.z.Entries = out
		for i, j := 0, len(w.jar.Signers)-1; i < j; i, j = i+1, j-1 {
			w.jar.Signers[i], w.jar.Signers[j] = w.jar.Signers[j], w.jar.Signers[i]
		}
		return true
	})
	add("remove directory", func(w *c08World) bool { w.remove("res/"); return true })
	add("drop MANIFEST.MF", func(w *c08World) bool {
		w.remove("META-INF/MANIFEST.MF")
		w.jar.Manifest = nil
		return true
	})
	add("drop the signature file", func(w *c08World) bool {
		w.remove("META-INF/CERT.SF")
		for i := range w.jar.Signers {
			if w.jar.Signers[i].Base == "META-INF/CERT" {
				w.jar.Signers[i].SF = nil
			}
		}
		return true
	})
	redigest := func(w *c08World, keep bool) bool {
		if w.jar.Manifest == nil {
			return false
		}
		w.sync()
		var m *gen.JarDoc
		if keep { // only add sections for new entries
			old := w.jar.Manifest
			have := map[string]bool{}
			d := &gen.JarDoc{Main: old.Main, Layout: old.Layout}
			for _, s := range old.Sections {
				have[s.Name] = true
				d.Sections = append(d.Sections, s)
			}
			for _, e := range w.jar.Entries {
				if !have[e.Name] {
					d.Sections = append(d.Sections, gen.JSection{Name: e.Name, Attrs: []gen.JAttr{gen.DigAttr("SHA1", "-Digest", e.Data)}})
				}
			}
			m = d.Render()
		} else {
			m = gen.MakeManifest("SHA1", w.jar.Entries)
		}
		w.jar.Manifest = m
		w.z.Find("META-INF/MANIFEST.MF").Data = m.Raw
		return true
	}
	add("re-digest the manifest", func(w *c08World) bool { return redigest(w, false) })
	add("add digests of new entries to the manifest", func(w *c08World) bool { return redigest(w, true) })
	add("sign by the attacker", func(w *c08World) bool {
		if w.attacker || w.jar.Manifest == nil {
			return false
		}
		w.attacker = true
		a := signV1(&gen.Zip{}, w.jar.Manifest, "SHA1", v1Signer{Base: "ZZ", Key: gen.K("rsa1024-2")})
		for _, e := range a.Zip.Entries {
			if e.Name != "META-INF/MANIFEST.MF" {
				w.z.Entries = append(w.z.Entries, e)
			}
		}
		w.jar.Signers = append(w.jar.Signers, a.Jar.Signers...)
		return true
	})
	return ops
}()

type c08Base struct {
	name    string
	signers func() []v1Signer
}

var c08Bases = []c08Base{
	{"one signer", func() []v1Signer { return []v1Signer{{Key: gen.K("rsa1024-0")}} }},
	{"sections only", func() []v1Signer { return []v1Signer{{Key: gen.K("rsa1024-0"), SF: gen.SFOpts{NoWhole: true}}} }},
	{"two signers", func() []v1Signer {
		return []v1Signer{{Key: gen.K("rsa1024-0")}, {Key: gen.EC(1), SF: gen.SFOpts{NoWhole: true}}}
	}},
}

var c08Built = func() (out []v1World) {
	for _, b := range c08Bases {
		out = append(out, signV1(c08Zip(), nil, "SHA1", b.signers()...))
	}
	return
}()

func c08Start(i int) *c08World {
	b := c08Built[i]
	j := *b.Jar
	j.Signers = append([]ref.JarSigner(nil), j.Signers...)
	return &c08World{z: b.Zip.Clone(), jar: &j}
}

var c08Ranges = [][2]int32{{1, 17}, {-1, anyMax}, {24, 33}}

func c08Attacks(c *mc.Ctx) {
	bi := c.Choose("signers", len(c08Bases))
	w := c08Start(bi)
	depth := 2
	if c.Deep() {
		depth = 3
	}
	for i := 0; i < depth; i++ {
		if i == 2 && bi != 0 {
			break
		}
		op := c.Choose("op", len(c08Ops)+1)
		if op == 0 {
			break
		}
		if !c08Ops[op-1].do(w) {
			c.Skip()
		}
		c.Label("%s", c08Ops[op-1].name)
	}
	names := map[string]bool{}
	for _, e := range w.z.Entries {
		n := path.Clean(e.Name)
		if names[n] {
			c.Skip() // colliding names have their own space
		}
		names[n] = true
	}
	w.sync()
	apk := w.z.Build().Assemble(nil)
	c.State(apk)
	for _, r := range c08Ranges {
		_, o := judgeFull(c, apk, w.jar, c08App_(w), r[0], r[1])
		c08Content(c, apk, o, bi, w.attacker)
		if len(c.Fails()) > 0 {
			return
		}
	}
}

// c08App_ is the manifest the verifier sees after the attack.
func c08App_(w *c08World) ref.App {
	e := w.z.Find("AndroidManifest.xml")
	if e == nil {
		return ref.App{Absent: true}
	}
	if string(e.Data) != string(c08App.AXML()) && len(e.Data) != len(c08App.AXML())+1 {
		return ref.App{Bad: true}
	}
	return appOf(c08App)
}

// c08Content: whatever happened, an accepted file signed by the original signer has the original content.
func c08Content(c *mc.Ctx, apk []byte, o impl.Outcome, bi int, attacker bool) {
	if !o.Accept {
		return
	}
	mine := false
	for _, ch := range o.Certs {
		for _, s := range c08Bases[bi].signers() {
			if len(ch) > 0 && string(ch[0]) == string(gen.SelfCert(s.Key)) {
				mine = true
			}
		}
	}
	if !mine {
		if !attacker {
			c.Failf("accepted with certificates %s", showChains(o.Certs))
		}
		return
	}
	es, ok := ref.ReadZip(apk)
	if !ok {
		c.Failf("accepted although the central directory is malformed")
		return
	}
	want := map[string]string{}
	for _, e := range c08Zip().Entries {
		if !strings.HasSuffix(e.Name, "/") && !strings.HasPrefix(e.Name, "META-INF/") {
			want[e.Name] = string(e.Data)
		}
	}
	got := map[string]string{}
	for _, e := range es {
		if strings.HasSuffix(e.Name, "/") || inMetaInf(e.Name) {
			continue
		}
		if !e.OK {
			c.Failf("accepted with unreadable entry %q", e.Name)
			return
		}
		if _, dup := got[e.Name]; dup {
			c.Failf("accepted with two entries %q", e.Name)
			return
		}
		got[e.Name] = string(e.Data)
	}
	for n, d := range want {
		if g, ok := got[n]; !ok || g != d {
			c.Failf("accepted although %q is missing or changed", n)
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			c.Failf("accepted although %q was added", n)
		}
	}
}

// c08Subsets: signers whose signature files list different subsets of the entries.
func c08Subsets(c *mc.Ctx) {
	n := 2
	if c.Deep() {
		n = 3
	}
	n = 1 + c.Choose("signers", n)
	keys := []*gen.Key{gen.K("rsa1024-0"), gen.EC(1), gen.EC(2)}
	same := n >= 2 && c.Bool("same certificate twice")
	var ss []v1Signer
	for i := 0; i < n; i++ {
		mask := c.Choose("entries", 8)
		whole := c.Bool("whole digest")
		k := keys[i]
		if same && i == 1 {
			k = keys[0]
		}
		bad := c.Choose("signature", 2) == 1
		if bad && n == 3 {
			c.Skip()
		}
		ss = append(ss, v1Signer{Key: k, Bad: bad, SF: gen.SFOpts{NoWhole: !whole, Filter: func(name string) bool {
			for b, v := range c08Victims {
				if v == name {
					return mask>>b&1 != 0
				}
			}
			return false
		}}})
		c.Label("signer %d: entries %03b whole %v bad %v", i, mask, whole, bad)
	}
	z := c08Zip()
	w := signV1(z, nil, "SHA1", ss...)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), -1, anyMax)
	judgeFull(c, apk, w.Jar, appOf(c08App), 1, 17)
}

// c08Three: three signature files by one to three signers, each listing any subset of the entries.
func c08Three(c *mc.Ctx) {
	who := mc.Pick(c, "signers", "AAB", "ABA", "BAA", "ABC", "AAA")
	var ss []v1Signer
	for i := range who {
		mask := c.Choose("entries", 8)
		ss = append(ss, v1Signer{Key: gen.EC(int(who[i] - 'A')), Hash: crypto.SHA256, SF: gen.SFOpts{Filter: func(name string) bool {
			for b, v := range c08Victims {
				if v == name {
					return mask>>b&1 != 0
				}
			}
			return false
		}}})
		c.Label("%s: entries %03b", who, mask)
	}
	w := signV1(c08Zip(), nil, "SHA1", ss...)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 18, 25)
}

// c08Names: two or three signatures whose files lie in directories of their own and share names.
func c08Names(c *mc.Ctx) {
	n := 2
	if c.Deep() {
		n = 2 + c.Choose("signers", 2)
	}
	dirs := []string{"META-INF/", "META-INF/a/", "META-INF/a/CERT/", "META-INF/CERT."}
	bases := []string{"CERT", "CERT.SF", "A.B"}
	seen := map[string]bool{}
	var ss []v1Signer
	for i := 0; i < n; i++ {
		s := v1Signer{Key: gen.EC(i), Hash: crypto.SHA256, Dir: dirs[c.Choose("directory", len(dirs))], Base: bases[c.Choose("name", len(bases))]}
		s.Ext = mc.Pick(c, "extension", "EC", "RSA", "DSA")
		if seen[s.Dir+s.Base] {
			c.Skip()
		}
		seen[s.Dir+s.Base] = true
		leave := c.Choose("omitted entry", 2)
		s.SF.Filter = func(name string) bool { return leave == 0 || name != "classes.dex" }
		s.Bad = c.Bool("bad")
		if i == 2 && (s.Bad || s.Ext != "EC") {
			c.Skip()
		}
		c.Label("%s%s.%s omits %v bad %v", s.Dir, s.Base, s.Ext, leave, s.Bad)
		ss = append(ss, s)
	}
	w := signV1(c08Zip(), nil, "SHA1", ss...)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 18, 25)
}

// c08Outside: files that look like signature files but lie elsewhere are ordinary entries.
func c08Outside(c *mc.Ctx) {
	z := c08Zip()
	stranger := signV1(c08Zip(), nil, "SHA1", v1Signer{Key: gen.EC(1), Hash: crypto.SHA256, Base: "CERT", Ext: "EC"})
	sf, block := stranger.Zip.Find("META-INF/CERT.SF").Data, stranger.Zip.Find("META-INF/CERT.EC").Data
	switch c.Choose("content", 4) {
	case 1:
		sf = []byte("no signature file")
	case 2:
		block = []byte("no signature")
	case 3:
		sf, block = nil, nil
	}
	dir := mc.Pick(c, "directory", "assets/", "", "META-INFO/", "meta-inf/", "META-INF.", "assets/META-INF/", "Meta-Inf/")
	base := mc.Pick(c, "name", "CERT", "B", "")
	ext := mc.Pick(c, "extension", "EC", "RSA", "DSA")
	l := []*gen.Entry{{Name: dir + base + ".SF", Data: sf}, {Name: dir + base + "." + ext, Data: block}, {Name: dir + "MANIFEST.MF", Data: stranger.Jar.Manifest.Raw}}
	with := c.Choose("files", 8)
	at := c.Bool("first")
	var pre, post []*gen.Entry
	for i, e := range l {
		if with>>i&1 == 1 {
			if at {
				pre = append(pre, e)
			} else {
				post = append(post, e)
			}
		}
	}
	z.Entries = append(append(pre, z.Entries...), post...)
	late := c.Bool("added after signing")
	if late {
		z = c08Zip()
	}
	w := signV1(z, nil, "SHA1", v1Signer{Key: gen.EC(0), Hash: crypto.SHA256, Base: "CERT", Ext: "EC"})
	if late {
		w.Zip.Entries = append(append(pre, w.Zip.Entries...), post...)
		w.Jar.Entries = append(append(append([]*gen.Entry{}, w.Jar.Entries...), pre...), post...)
	}
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 18, 25)
}

// c08Broken: each of two (thorough three) signatures may lack its signature file or block, have a malformed one, or a second block.
func c08Broken(c *mc.Ctx) {
	n := 2
	if c.Deep() {
		n = 3
	}
	var ss []v1Signer
	for i := 0; i < n; i++ {
		ss = append(ss, v1Signer{Key: gen.EC(i), Hash: crypto.SHA256, Base: string(rune('A' + i)), Ext: "EC"})
	}
	w := signV1(c08Zip(), nil, "SHA1", ss...)
	var meta, sfs []*gen.Entry
	var rest []*gen.Entry
	for _, e := range w.Zip.Entries {
		if !strings.HasPrefix(e.Name, "META-INF/") || e.Name == "META-INF/services/x" {
			rest = append(rest, e)
		}
	}
	meta = append(meta, w.Zip.Find("META-INF/MANIFEST.MF"))
	var signers []ref.JarSigner
	for i := range ss {
		js := w.Jar.Signers[i]
		sf, block := w.Zip.Find(js.Base+".SF"), w.Zip.Find(js.Base+".EC")
		switch k := c.Choose("signature file", 5); k {
		case 1:
			sf, js.SF = nil, nil
			c.Label("%s: no signature file", js.Base)
		case 2, 3, 4: // honestly signed, but malformed
			raw := [][]byte{[]byte("Signature-Version:1.0\r\n\r\n"), []byte("Signature-Version: 1.0\r\nX: \x00\r\n\r\n"), []byte("Signature-Version: 1.0\r\n\r\nX: y\r\n\r\n")}[k-2]
			sf = &gen.Entry{Name: sf.Name, Data: raw}
			if _, ok, _ := ref.ParseManifest(raw, false); ok {
				c.Failf("%q: not malformed", raw)
				return
			}
			js.SF, js.SFBad = nil, true
			block = &gen.Entry{Name: block.Name, Data: gen.P7(gen.EC(i), 5, false, raw)}
			c.Label("%s: malformed signature file", js.Base)
		}
		second := func(ext string, data []byte, bad bool) (*gen.Entry, ref.JarSigner) {
			x := js
			x.BlockBad = bad
			return &gen.Entry{Name: js.Base + "." + ext, Data: data}, x
		}
		blocks, list := []*gen.Entry{block}, []ref.JarSigner{js}
		switch k := c.Choose("block", 8); k {
		case 1:
			blocks, list = nil, nil
			c.Label("%s: no block", js.Base)
		case 2, 3, 4:
			data := [][]byte{nil, []byte("no block"), gen.Cat(block.Data[:len(block.Data)/2])}[k-2]
			e, x := second("EC", data, true)
			blocks, list = []*gen.Entry{e}, []ref.JarSigner{x}
			c.Label("%s: malformed block", js.Base)
		case 5:
			e, x := second("RSA", block.Data, false)
			blocks, list = append(blocks, e), append(list, x)
			c.Label("%s: two blocks", js.Base)
		case 6:
			e, x := second("RSA", []byte("no block"), true)
			blocks, list = append(blocks, e), append(list, x)
			c.Label("%s: a malformed block later", js.Base)
		case 7:
			e, x := second("DSA", []byte("no block"), true)
			blocks, list = append([]*gen.Entry{e}, blocks...), append([]ref.JarSigner{x}, list...)
			c.Label("%s: a malformed block first", js.Base)
		}
		if sf != nil {
			sfs = append(sfs, sf)
		}
		meta = append(meta, blocks...)
		signers = append(signers, list...)
	}
	if c.Bool("signature files first") {
		meta = append(sfs, meta...)
	} else {
		meta = append(meta, sfs...)
	}
	w.Zip.Entries = append(meta, rest...)
	w.Jar.Signers = signers
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 18, 25)
}

// c08Many: around the limit of ten signers, some of which may not count.
func c08Many(c *mc.Ctx) {
	n := mc.Pick(c, "signers", 1, 8, 9, 10, 11, 12, 20)
	void := c.Choose("without version", 4)
	same := c.Bool("same certificate")
	nosf := c.Choose("without signature file", 3)
	bad := c.Bool("one wrong")
	var ss []v1Signer
	for i := 0; i < n+nosf; i++ {
		s := v1Signer{Key: gen.EC(i % 8), Hash: crypto.SHA256, Base: fmt.Sprintf("S%02d", i), Ext: "EC", NoSF: i >= n}
		s.Cert = gen.CertSpec{Serial: big.NewInt(int64(i + 1)), Key: s.Key}.DER()
		if same {
			s.Key, s.Cert = gen.EC(0), nil
		}
		s.SF.NoVersion = void&1 == 1 && i == 0 || void&2 == 2 && i > 9 && i < n
		s.Bad = bad && i == n-1
		ss = append(ss, s)
	}
	w := signV1(c08Zip(), nil, "SHA1", ss...)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 18, 25)
}

// c08Chains: signature files by one certificate whose blocks carry different parts of its chain, each covering any entries.
func c08Chains(c *mc.Ctx) {
	nl, nc, nr := gen.CN("leaf"), gen.CN("ca"), gen.CN("root")
	leaf := gen.CertSpec{Subject: nl, Issuer: nc, Key: gen.EC(0), SignKey: gen.EC(1)}.DER()
	ca := gen.CertSpec{Subject: nc, Issuer: nr, Key: gen.EC(1), SignKey: gen.EC(2)}.DER()
	root := gen.CertSpec{Subject: nr, Issuer: nr, Key: gen.EC(2)}.DER()
	root2 := gen.CertSpec{Serial: big.NewInt(99), Subject: nr, Issuer: nr, Key: gen.EC(2)}.DER()
	sets := [][][]byte{{leaf}, {leaf, ca}, {leaf, ca, root}, {leaf, ca, root2}}
	var ss []v1Signer
	for i := 0; i < 2; i++ {
		chain := sets[c.Choose("chain", len(sets))]
		mask := c.Choose("entries", 8)
		ss = append(ss, v1Signer{Key: gen.EC(0), SF: gen.SFOpts{Filter: func(name string) bool {
			for b, v := range c08Victims {
				if v == name {
					return mask>>b&1 != 0
				}
			}
			return false
		}}, Make: func(sf []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
			p7 := gen.P7Spec{Certs: chain, Signers: []*gen.SI{gen.SignerOf{Key: gen.EC(0), Cert: leaf, Hash: crypto.SHA256}.Make(sf)}}.DER()
			return p7, func(min, max int32) (bool, [][]byte) { return true, chain }
		}})
		c.Label("chain of %d, entries %03b", len(chain), mask)
	}
	w := signV1(c08Zip(), nil, "SHA1", ss...)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 18, 25)
}

// c08Unreadable: an entry whose compressed data is broken behind its content, or whose sizes are wrong, is not there.
func c08Unreadable(c *mc.Ctx) {
	n := 1
	if c.Deep() {
		n = 2
	}
	w := signV1(c08Zip(), nil, "SHA1", v1Signer{Key: gen.EC(0), Hash: crypto.SHA256}, v1Signer{Key: gen.EC(1), Hash: crypto.SHA256})
	w.Zip = w.Zip.Clone()
	names := append([]string{"META-INF/MANIFEST.MF", "META-INF/CERT.SF", "META-INF/CERT.EC", "META-INF/CERT1.SF", "META-INF/CERT1.EC", "META-INF/services/x"}, c08Victims...)
	for i := 0; i < n; i++ {
		e := w.Zip.Find(names[c.Choose("entry", len(names))])
		d := e.Data
		frame := func(last byte) []byte {
			return gen.Cat([]byte{last, byte(len(d)), byte(len(d) >> 8), ^byte(len(d)), ^byte(len(d) >> 8)}, d)
		}
		e.Method = 8
		switch c.Choose("damage", 16) {
		case 0:
			e.Method = 0
		case 1:
			e.Body = gen.Deflate(d)
		case 2:
			e.Body = gen.Deflate(d)[:len(gen.Deflate(d))-1]
		case 3: // the whole content, but no end
			e.Body = frame(0)
		case 4:
			e.Body = gen.Cat(frame(0), []byte{7})
		case 5:
			e.Body = gen.Cat(frame(0), []byte{0, 0xff, 0})
		case 6:
			e.Body = frame(1)
		case 7: // more content
			e.Body = gen.Cat(frame(0), []byte{1, 2, 0, 0xfd, 0xff, '\n', '\n'})
		case 8:
			e.Body = gen.Deflate(d)[:len(gen.Deflate(d))/2]
		case 9:
			e.Body = []byte{}
		case 10: // something behind the end
			e.Body = gen.Cat(gen.Deflate(d), []byte("more"))
		case 11:
			e.SizeOff = -1
		case 12:
			e.SizeOff = 1
		case 13:
			e.Method, e.Body = 0, d[:len(d)-1]
		case 14:
			e.Method, e.SizeOff = 0, -1
		case 15:
			e.Method, e.SizeOff = 0, 1
		}
	}
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	zr, err := zip.NewReader(bytes.NewReader(apk), int64(len(apk)))
	if err != nil {
		c.Failf("cannot read the archive: %v", err)
		return
	}
	app := appOf(c08App)
	for _, f := range zr.File {
		var got []byte
		r, err := f.Open()
		if err == nil {
			got, err = io.ReadAll(r)
		}
		if err == nil {
			if !bytes.Equal(got, w.Zip.Find(f.Name).Data) {
				c.Failf("%s: other content", f.Name)
				return
			}
			continue
		}
		c.Label("%s unreadable", f.Name)
		switch {
		case f.Name == "META-INF/MANIFEST.MF":
			w.Jar.ManifestBad = true
		case strings.HasSuffix(f.Name, ".SF"):
			for i := range w.Jar.Signers {
				if s := &w.Jar.Signers[i]; s.Base+".SF" == f.Name {
					s.SF, s.SFBad = nil, true
				}
			}
		case strings.HasSuffix(f.Name, ".EC"):
			for i := range w.Jar.Signers {
				if s := &w.Jar.Signers[i]; s.Base+".EC" == f.Name {
					s.BlockBad = true
				}
			}
		case f.Name == "META-INF/services/x":
		default: // an entry without content
			for i, e := range w.Jar.Entries {
				if e.Name == f.Name {
					x := *e
					x.Data = nil
					w.Jar.Entries[i] = &x
				}
			}
		}
		if f.Name == "AndroidManifest.xml" {
			if o := impl.Verify(apk, 18, 25); o.Accept {
				c.Failf("accepted with an unreadable AndroidManifest.xml")
			}
			return
		}
	}
	judgeFull(c, apk, w.Jar, app, 18, 25)
}

// c08Listing: what the manifest and signature file list against what the archive has.
func c08Listing(c *mc.Ctx) {
	z := c08Zip()
	var files []*gen.Entry
	for _, e := range z.Entries {
		if !strings.HasSuffix(e.Name, "/") && !strings.HasPrefix(e.Name, "META-INF/") {
			files = append(files, e)
		}
	}
	m := gen.MakeManifest("SHA1", files)
	switch k := c.Choose("manifest", 12); k {
	case 0:
	case 1, 2, 3: // not listed
		m.Sections = append(m.Sections[:k-1], m.Sections[k:]...)
	case 4, 5, 6: // wrong digest
		m.Sections[k-4].Attrs[0].V = gen.B64Hash(gen.HashNames["SHA1"], []byte("x"))
	case 7, 8: // no digest
		m.Sections[k-7].Attrs = nil
	case 9:
		n := mc.Pick(c, "extra entry", "gone.bin", "res/", "res", "META-INF/services/x", "META-INF/gone", "Classes.dex", "./classes.dex", "/classes.dex", "res//a.txt", "META-INF/MANIFEST.MF")
		m.Sections = append(m.Sections, gen.JSection{Name: n, Attrs: []gen.JAttr{gen.DigAttr("SHA1", "-Digest", []byte("service"))}})
		if n == "META-INF/services/x" || n == "META-INF/MANIFEST.MF" {
			// a META-INF file may be listed; the model must know it exists
			c.Label("META-INF file listed")
		}
	case 10: // digest not base64
		m.Sections[1].Attrs[0].V = mc.Pick(c, "value", "", "====", "AAAA", "not base64!", m.Sections[1].Attrs[0].V+"A", m.Sections[1].Attrs[0].V+" ")
	case 11: // attribute names
		m.Sections[1].Attrs[0].K = mc.Pick(c, "attribute", "sha1-digest", "SHA1-DIGEST", "SHA-1-Digest", "SHA-Digest", "SHA1-Digest-Manifest", "MD5-Digest", "SHA1-Digest2")
	}
	m.Render()
	ss := []v1Signer{{Key: gen.K("rsa1024-0")}}
	switch k := c.Choose("signature file", 5); k {
	case 1:
		ss[0].SF.NoSections = true
	case 2:
		ss[0].SF.NoWhole = true
	case 3:
		ss[0].SF.Edit = func(d *gen.JarDoc) {
			d.Sections = append(d.Sections, gen.JSection{Name: "unknown.bin", Attrs: []gen.JAttr{gen.DigAttr("SHA1", "-Digest", []byte("x"))}})
		}
	case 4:
		ss[0].SF.NoWhole = true
		ss[0].SF.Edit = func(d *gen.JarDoc) {
			d.Sections = append(d.Sections, gen.JSection{Name: "unknown.bin", Attrs: []gen.JAttr{gen.DigAttr("SHA1", "-Digest", []byte("x"))}})
		}
	}
	w := signV1(z, m, "SHA1", ss...)
	w.Jar.Extra = []string{"META-INF/services/x", "META-INF/MANIFEST.MF", "META-INF/CERT.SF", "META-INF/CERT.RSA"}
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	for _, r := range c08Ranges {
		judgeFull(c, apk, w.Jar, appOf(c08App), r[0], r[1])
	}
}

// c08Bundle: without AndroidManifest.xml only bundles verify.
func c08Bundle(c *mc.Ctx) {
	z := c08Zip()
	have := c.Choose("files", 4)
	z.Entries = z.Entries[1:]
	if have&1 != 0 {
		z.Entries = append(z.Entries, c08Zip().Entries[0])
	}
	if have&2 != 0 {
		z.Entries = append(z.Entries, &gen.Entry{Name: "BundleConfig.pb", Data: []byte("bundle")})
	}
	w := signV1(z, nil, "SHA-256", v1Signer{Key: gen.EC(0), SF: gen.SFOpts{Filter: func(n string) bool { return true }}})
	switch c.Choose("afterwards", 4) {
	case 1:
		w.Zip.Entries = append(w.Zip.Entries, &gen.Entry{Name: "BundleConfig.pb", Data: []byte("added")})
	case 2:
		w.Zip.Entries = append(w.Zip.Entries, c08Zip().Entries[0])
	case 3:
		x := &c08World{z: w.Zip, jar: w.Jar}
		x.remove("AndroidManifest.xml")
	}
	names := map[string]bool{}
	for _, e := range w.Zip.Entries {
		if names[e.Name] {
			c.Skip()
		}
		names[e.Name] = true
	}
	x := &c08World{z: w.Zip, jar: w.Jar}
	x.sync()
	app := ref.App{Absent: true}
	if w.Zip.Find("AndroidManifest.xml") != nil {
		app = appOf(c08App)
	}
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	for _, r := range [][2]int32{{18, anyMax}, {-1, 28}, {24, 25}} {
		judgeFull(c, apk, w.Jar, app, r[0], r[1])
	}
}

// c08Bytes: every byte of the archive.
func c08Bytes(c *mc.Ctx) {
	apk := c08Built[0].Zip.Build().Assemble(nil)
	step := 1
	i := step * c.Choose("byte", len(apk))
	kinds := []int{1, 0x10, 0xff}
	if c.Deep() {
		kinds = []int{1, 2, 4, 8, 16, 32, 64, 128, 0xff}
	}
	apk[i] ^= byte(mc.Pick(c, "mask", kinds...))
	c.State(apk)
	o := impl.Verify(apk, 1, anyMax)
	c.Trace(1)
	if o.Panic != "" {
		c.Failf("%s", o.Panic)
		return
	}
	if o.Accept {
		es, ok := ref.ReadZip(apk)
		if !ok || len(es) == 0 {
			c.Note("accepted by scanning local headers")
			return // c08Collide covers archives Android refuses to open
		}
		// the byte may hide an entry from our reader by renaming it into META-INF
		c08Content(c, apk, o, 0, false)
	}
}

func c08Colliding(victim string) []string {
	return []string{victim, "./" + victim, "/" + victim, "x/../" + victim, ".//" + victim, victim + "/.", "META-INF/../" + victim}
}

// c08Collide: names that collide after normalisation, and archives whose directory cannot be read.
func c08Collide(c *mc.Ctx) {
	w := c08Start(0)
	dir := c.Choose("directory", 2)
	if dir == 1 {
		// these always fail when the local headers are scanned
		w.remove("res/")
		w.z.Find("res/a.txt").Method = 8
		w.z.Find("META-INF/services/x").Method = 8
	}
	victim := mc.Pick(c, "victim", c08Victims...)
	names := c08Colliding(victim)
	n := names[c.Choose("name", len(names))]
	evil := &gen.Entry{Name: n, Data: []byte("evil"), Method: 8}
	where := c.Choose("position", 2)
	if where == 0 {
		w.z.Entries = append(w.z.Entries, evil)
	} else {
		w.z.Entries = append([]*gen.Entry{evil}, w.z.Entries...)
	}
	sec := w.z.Build()
	apk := sec.Assemble(nil)
	if dir == 1 { // unreadable directory
		apk[len(sec.Before)] ^= 0xff
	}
	c.State(apk)
	o := impl.Verify(apk, 1, anyMax)
	c.Trace(1)
	c.Note("accept=%v", o.Accept)
	if o.Panic != "" {
		c.Failf("%s", o.Panic)
	} else if o.Accept {
		c.Failf("accepted with unsigned entry %q added %s the signed %q, directory readable=%v", n, []string{"after", "before"}[where], victim, dir == 0)
	}
}

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "all attacker histories over the entries of v1 signed archives; a state is a distinct archive",
		Spaces: []*mc.Space{
			{Name: "attacks", Doc: "3 signing setups x all sequences of up to 2 (thorough 3) attacker operations over entries and signature files", Run: c08Attacks},
			{Name: "subsets", Doc: "1-2 (thorough 3) signers listing every subset of entries, with and without whole-manifest digest, valid and invalid", Run: c08Subsets},
			{Name: "three", Doc: "three signature files by one, two or three signers, each listing every subset of three entries", Run: c08Three},
			{Name: "names", Doc: "two (thorough three) signatures in every combination of directories, names and extensions, valid or not, with an entry left out or not", Run: c08Names},
			{Name: "outside", Doc: "signature files of somebody else, whole or broken, in seven places outside of META-INF, signed or not", Run: c08Outside},
			{Name: "broken", Doc: "two (thorough three) signatures, each with a missing, malformed or extra signature file or block", Run: c08Broken},
			{Name: "many", Doc: "1-20 signers, some without version or signature file, one wrong or not", Run: c08Many},
			{Name: "chains", Doc: "two signature files by one certificate with four chains each, covering every subset of three entries", Run: c08Chains},
			{Name: "unreadable", Doc: "every entry with its compressed data broken in 15 ways", Run: c08Unreadable},
			{Name: "listing", Doc: "manifest and signature file listing deviations", Run: c08Listing},
			{Name: "bundle", Doc: "presence of AndroidManifest.xml and BundleConfig.pb", Run: c08Bundle},
			{Name: "bytes", Doc: "every byte of a v1 signed archive edited: accepted only with the original content", Run: c08Bytes},
			{Name: "collide", Doc: "duplicate and colliding entry names, readable and unreadable directory", Run: c08Collide},
		},
	})
}
