package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

var c22Long = "res/" + strings.Repeat("long-path-", 12) + "end.xml"

var c22Zip = &gen.Zip{Entries: []*gen.Entry{
	{Name: "AndroidManifest.xml", Data: c08App.AXML()},
	{Name: c22Long, Data: []byte("long")},
	{Name: "z", Data: []byte("z")},
}}

var keyCases = map[string]func(string) string{"": nil, "lower": strings.ToLower, "upper": strings.ToUpper, "swap": func(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r - 32
		} else if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}, s)
}}

func c22Layout(c *mc.Ctx, who string, full bool) gen.Layout {
	l := gen.Layout{EOL: mc.Pick(c, who+" line end", "\r\n", "\n", "\r")}
	switch c.Choose(who+" folding", 6) {
	case 1:
		l.FoldAt = -1
	case 2:
		l.FoldAt = 20
	case 3:
		l.FoldFirst = 1
	case 4:
		l.FoldFirst = 2
	case 5:
		l.FoldAt = 1
	}
	l.ExtraBlank = c.Choose(who+" extra blank lines", 3)
	if full {
		l.MainBlank = c.Choose(who+" blank lines after the main section", 3)
		switch c.Choose(who+" end", 3) {
		case 1:
			l.NoLastEOL = true
		case 2:
			l.NoLastEOL, l.NoLastLine = true, true
		}
		l.KeyCase = keyCases[mc.Pick(c, who+" attribute names", "", "lower", "upper", "swap")]
	}
	return l
}

// lastLine applies the rule that an unterminated last line does not exist.
func lastLine(d *gen.JarDoc) {
	if !d.Layout.NoLastLine || len(d.Sections) == 0 {
		return
	}
	s := &d.Sections[len(d.Sections)-1]
	if len(s.Attrs) > 0 {
		s.Attrs = s.Attrs[:len(s.Attrs)-1]
	} else {
		d.Sections, d.Chunks = d.Sections[:len(d.Sections)-1], d.Chunks[:len(d.Chunks)-1]
	}
}

// agree checks the reference parser against what the generator wrote.
func agree(d *gen.JarDoc, main bool) {
	p, ok, _ := ref.ParseManifest(d.Raw, main)
	if !ok {
		panic(fmt.Sprintf("reference parser rejects %q", d.Raw))
	}
	low := func(as []gen.JAttr) map[string]string {
		m := map[string]string{}
		for _, a := range as {
			m[strings.ToLower(a.K)] = a.V
		}
		return m
	}
	same := reflect.DeepEqual(low(p.Main), low(d.Main)) && p.MainEnd == d.MainEnd && len(p.Sections) == len(d.Sections)
	for i := range d.Sections {
		same = same && p.Sections[i].Name == d.Sections[i].Name && reflect.DeepEqual(low(p.Sections[i].Attrs), low(d.Sections[i].Attrs)) && bytes.Equal(p.Chunks[i], d.Chunks[i])
	}
	if !same {
		panic(fmt.Sprintf("reference parser reads %q differently: %+v, written %+v", d.Raw, p, d))
	}
}

var c22Ranges = [][2]int32{{1, 17}, {18, 25}}

func c22Manifest(l gen.Layout, order []int) *gen.JarDoc {
	m := gen.MakeManifest("SHA1", c22Zip.Entries)
	var s []gen.JSection
	for _, i := range order {
		x := m.Sections[i]
		x.Attrs = append([]gen.JAttr{{K: "X-Extra", V: "some value: with colon"}}, x.Attrs...)
		s = append(s, x)
	}
	m.Sections, m.Layout = s, l
	m.Render()
	return m
}

func c22Judge(c *mc.Ctx, m *gen.JarDoc, sf gen.SFOpts) {
	var out *gen.JarDoc
	edit := sf.Edit
	sf.Edit = func(d *gen.JarDoc) {
		if edit != nil {
			edit(d)
		}
		out = d
	}
	sf.Alg = "SHA1"
	w := signV1(c22Zip, m, "SHA1", v1Signer{Key: gen.EC(0), SF: sf})
	w.Jar.Signers[0].SF = out // before dropping what is not read
	lastLine(m)
	lastLine(out)
	agree(m, true)
	agree(out, false)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	for _, r := range c22Ranges {
		judgeFull(c, apk, w.Jar, appOf(c08App), r[0], r[1])
	}
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// c22One: every layout of one of the two files.
func c22One(c *mc.Ctx) {
	which := c.Choose("file", 2)
	l := c22Layout(c, "", true)
	bind := c.Choose("bound by", 3)
	order := perms3[0]
	sf := gen.SFOpts{NoWhole: bind >= 1, NoMainAttr: bind == 2}
	if which == 0 {
		order = mc.Pick(c, "order", perms3[0], perms3[3], perms3[5])
		c22Judge(c, c22Manifest(l, order), sf)
	} else {
		sf.Layout = l
		p := mc.Pick(c, "order", perms3[0], perms3[3], perms3[5])
		sf.Edit = func(d *gen.JarDoc) {
			d.Sections = []gen.JSection{d.Sections[p[0]], d.Sections[p[1]], d.Sections[p[2]]}
		}
		c22Judge(c, c22Manifest(gen.Layout{}, order), sf)
	}
}

// c22Both: layouts of both files together.
func c22Both(c *mc.Ctx) {
	m := c22Manifest(c22Layout(c, "manifest", false), perms3[0])
	c22Judge(c, m, gen.SFOpts{NoWhole: c.Bool("sections only"), Layout: c22Layout(c, "signature file", false)})
}

var c22Names = []string{"a", "ab", "dir/file.ext", "žluťoučký/kůň.png", "日本語/ファイル", "with space", " leading", "trailing ", "a: b", "a:b", ": ", "Name: x", "MiXeD/CaSe", "mixed/case", "a\tb", "-", "Digest-Algorithms: MD5", c22Long}

// c22Fold: names of all kinds folded at every position.
func c22Fold(c *mc.Ctx) {
	n := c22Names[c.Choose("name", len(c22Names))]
	l := gen.Layout{EOL: mc.Pick(c, "line end", "\r\n", "\n", "\r"), FoldAt: -1}
	l.FoldFirst = c.Choose("fold after", len(n)+1)
	if c.Bool("fold the rest") {
		l.FoldAt = mc.Pick(c, "width", 7, 70)
	}
	z := &gen.Zip{Entries: []*gen.Entry{c22Zip.Entries[0], {Name: n, Data: []byte("x")}, {Name: "other", Data: []byte("y")}}}
	m := gen.MakeManifest("SHA1", z.Entries)
	m.Layout = l
	m.Render()
	agree(m, true)
	sf := gen.SFOpts{Alg: "SHA1", NoWhole: c.Bool("sections only")}
	if c.Bool("same layout of the signature file") {
		sf.Layout = l
	}
	w := signV1(z, m, "SHA1", v1Signer{Key: gen.EC(0), SF: sf})
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 1, 17)
	if o := impl.Verify(apk, 18, 25); !o.Accept {
		c.Failf("legal layout rejected: %s", o.Err)
	}
}

var c22Base = func() []*gen.JarDoc {
	var out []*gen.JarDoc
	for _, l := range []gen.Layout{{}, {EOL: "\n", FoldFirst: 3, ExtraBlank: 1}, {EOL: "\r", NoLastEOL: true}} {
		out = append(out, c22Manifest(l, perms3[0]))
	}
	return out
}()

// c22Bytes: every byte edit of a manifest or signature file, signed afterwards.
func c22Bytes(c *mc.Ctx) {
	inSF := c.Bool("edit the signature file")
	base := c22Base[c.Choose("layout", len(c22Base))]
	m := &gen.JarDoc{Main: base.Main, Sections: append([]gen.JSection(nil), base.Sections...), Layout: base.Layout}
	m.Render()
	raw := m.Raw
	if inSF {
		raw = gen.MakeSF(m, gen.SFOpts{Alg: "SHA1", NoWhole: true, Layout: base.Layout}).Raw
	}
	i := c.Choose("byte", len(raw)+1)
	ins := []string{"", "\x00", "\n", "\r", " ", ":", ": ", "x", "\r\n", "\r\n ", "\n ", "\r ", "\xff"}
	k := c.Choose("insert", len(ins)+1)
	e := clone(raw[:i])
	if k == len(ins) { // truncate
		if i == len(raw) {
			c.Skip()
		}
	} else {
		e = append(e, ins[k]...)
		rest := raw[i:]
		if c.Bool("replace") {
			if len(rest) == 0 {
				c.Skip()
			}
			rest = rest[1:]
		} else if k == 0 {
			c.Skip()
		}
		e = append(e, rest...)
	}
	c22Raw(c, m, e, inSF)
}

// c22Raw judges an arbitrary manifest or signature file.
func c22Raw(c *mc.Ctx, m *gen.JarDoc, e []byte, inSF bool) {
	d, ok, mixed := ref.ParseManifest(e, !inSF)
	s := v1Signer{Key: gen.EC(0), SF: gen.SFOpts{Alg: "SHA1", NoWhole: true, NoMainAttr: true}}
	var w v1World
	if inSF {
		s.Make = func([]byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
			return gen.P7(gen.EC(0), 5, false, e), func(min, max int32) (bool, [][]byte) { return true, [][]byte{gen.SelfCert(gen.EC(0))} }
		}
		w = signV1(c22Zip, m, "SHA1", s)
		w.Zip.Find("META-INF/CERT.SF").Data = e
		w.Jar.Signers[0].SF, w.Jar.Signers[0].SFBad = d, !ok
	} else {
		if !ok {
			d = m
		}
		w = signV1(c22Zip, d, "SHA1", s)
		w.Zip.Find("META-INF/MANIFEST.MF").Data = e
		w.Jar.ManifestBad = !ok
	}
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	if mixed {
		if o := impl.Verify(apk, 1, 25); o.Panic != "" {
			c.Failf("%s", o.Panic)
		}
		return
	}
	for _, r := range c22Ranges {
		judgeFull(c, apk, w.Jar, appOf(c08App), r[0], r[1])
	}
}

// c22Lines: all short sequences of lines around a section.
func c22Lines(c *mc.Ctx) {
	inSF := c.Bool("signature file")
	eol := mc.Pick(c, "line end", "\r\n", "\n", "\r")
	m := c22Manifest(gen.Layout{EOL: eol}, perms3[0])
	raw := m.Raw
	if inSF {
		raw = gen.MakeSF(m, gen.SFOpts{Alg: "SHA1", NoWhole: true, Layout: gen.Layout{EOL: eol}}).Raw
	}
	lines := strings.SplitAfter(string(raw), eol)
	at := c.Choose("line", len(lines)+1)
	toks := []string{"", "Name: z", "Name: new", "name: AndroidManifest.xml", "X: y", " cont", "no separator", "SHA1-Digest: AAAA", "bad name: x", strings.Repeat("n", 70) + ": x", strings.Repeat("n", 71) + ": x", ": x", "Name:", "Name: ", "X:y", " "}
	depth := 2
	if c.Deep() {
		depth = 3
	}
	var mid []string
	for i := 0; i < depth; i++ {
		k := c.Choose("insert", len(toks)+1)
		if k == 0 {
			break
		}
		mid = append(mid, toks[k-1]+eol)
	}
	drop := 0
	if at < len(lines) {
		drop = c.Choose("drop", 2)
	}
	if len(mid)+drop == 0 {
		c.Skip()
	}
	e := strings.Join(lines[:at], "") + strings.Join(mid, "")
	if at < len(lines) {
		e += strings.Join(lines[at+drop:], "")
	}
	c22Raw(c, m, []byte(e), inSF)
}

func init() {
	register(&Check{
		ID:   "C22",
		Rule: "all layouts of fixed logical manifests and signature files, and all small edits of them; a state is a distinct APK",
		Spaces: []*mc.Space{
			{Name: "layouts", Doc: "3 line ends x 6 foldings x blank lines x ends x attribute name case x section order x binding, for each file", Run: c22One},
			{Name: "both", Doc: "54 x 54 layouts of both files", Run: c22Both},
			{Name: "folding", Doc: "18 names folded at every position", Run: c22Fold},
			{Name: "bytes", Doc: "12 insertions, replacements, deletion and truncation at every byte of both files in three layouts", Run: c22Bytes},
			{Name: "lines", Doc: "up to 2 (thorough 3) of 16 lines inserted at every line, with and without dropping one", Run: c22Lines},
		},
	})
}
