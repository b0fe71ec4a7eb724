package checks

import (
	"crypto"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
)

var c10Zip = &gen.Zip{Entries: []*gen.Entry{
	{Name: "AndroidManifest.xml", Data: c08App.AXML()},
	{Name: "a", Data: []byte("content of a")},
	{Name: "b", Data: []byte("content of b")},
}}

var c10Algs = []string{"SHA-512", "SHA-384", "SHA-256", "SHA1", "SHA"}

var c10Lists = []string{"", "SHA1", "SHA", "SHA-256", "SHA-256 SHA1", "SHA1 SHA-256", "sha-384 SHA", "SHA-512", "SHA-512 SHA-384 SHA-256 SHA1", "MD5", "MD5 SHA1", "SHA-256  SHA1", "SHA256 SHA-1", "SHA1,SHA-256"}

var c10Ranges = func() (out [][2]int32) {
	for _, min := range []int32{1, 8, 9, 17, 18} {
		for _, max := range []int32{8, 9, 17, 18, 25} {
			if min <= max {
				out = append(out, [2]int32{min, max})
			}
		}
	}
	return
}()

// c10Set picks an attribute set over data: every digest absent, right or wrong.
func c10Set(c *mc.Ctx, suffix string, data []byte) []gen.JAttr {
	var out []gen.JAttr
	if l := mc.Pick(c, "Digest-Algorithms", c10Lists...); l != "" {
		out = append(out, gen.JAttr{K: "Digest-Algorithms", V: l})
	}
	var d []string
	for _, a := range c10Algs {
		switch c.Choose(a, 3) {
		case 1:
			out = append(out, gen.DigAttr(a, suffix, data))
			d = append(d, a)
		case 2:
			out = append(out, gen.DigAttr(a, suffix, append(clone(data), 'x')))
			d = append(d, "wrong "+a)
		}
	}
	c.Label("%s", strings.Join(d, ", "))
	return out
}

func c10Judge(c *mc.Ctx, w v1World, ranges [][2]int32) {
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	for _, r := range ranges {
		judgeFull(c, apk, w.Jar, appOf(c08App), r[0], r[1])
	}
}

func c10Base() *gen.JarDoc {
	m := gen.MakeManifest("SHA1", c10Zip.Entries)
	for i := range m.Sections {
		// right for every version
		e := c10Zip.Find(m.Sections[i].Name)
		m.Sections[i].Attrs = []gen.JAttr{gen.DigAttr("SHA1", "-Digest", e.Data)}
	}
	return m
}

// c10Level: one attribute set at each place where digests are read, everything else in order.
func c10Level(c *mc.Ctx) { c10Judge(c, c10Place(c, c10Set), c10Ranges) }

// c10Place puts an attribute set at one of the places where digests are read.
func c10Place(c *mc.Ctx, set func(c *mc.Ctx, suffix string, data []byte) []gen.JAttr) v1World {
	m := c10Base()
	s := v1Signer{Key: gen.EC(0), SF: gen.SFOpts{Alg: "SHA1", NoMainAttr: true}}
	switch c.Choose("level", 4) {
	case 0: // entry
		e := c10Zip.Entries[1]
		m.Sections[1].Attrs = set(c, "-Digest", e.Data)
		m.Render()
	case 1: // whole manifest, sections cannot help
		s.SF.NoWhole = true
		at := set(c, "-Digest-Manifest", m.Raw)
		s.SF.Edit = func(d *gen.JarDoc) {
			d.Main = append(d.Main, at...)
			for i := range d.Sections {
				d.Sections[i].Attrs = nil
			}
		}
	case 2: // main attributes
		at := set(c, "-Digest-Manifest-Main-Attributes", m.Raw[:m.MainEnd])
		s.SF.Edit = func(d *gen.JarDoc) { d.Main = append(d.Main, at...) }
	case 3: // a section of the signature file
		s.SF.NoWhole = true
		at := set(c, "-Digest", m.Chunks[1])
		s.SF.Edit = func(d *gen.JarDoc) { d.Sections[1].Attrs = at }
	}
	return signV1(c10Zip, m, "SHA1", s)
}

// c10Unknown: digests of algorithms Android does not know, listed or not.
func c10Unknown(c *mc.Ctx) {
	w := c10Place(c, func(c *mc.Ctx, suffix string, data []byte) (out []gen.JAttr) {
		if l := mc.Pick(c, "Digest-Algorithms", "", "MD5", "MD5 SHA1", "SHA1 MD5", "SHA1  X", "X", "SHA-224 SHA1", "sha1 Md5", " ", " SHA1", "SHA-1 SHA1"); l != "" {
			out = append(out, gen.JAttr{K: "Digest-Algorithms", V: l})
		}
		for _, k := range []string{"MD5", "SHA-224", "X", "", "SHA-1", "SHA1"} {
			values := 2
			if k == "MD5" || k == "" || k == "SHA1" {
				values = 3
			}
			switch n := c.Choose(k, values); {
			case n == 0:
			case n == 2:
				out = append(out, gen.JAttr{K: k + suffix, V: gen.B64Hash(crypto.SHA1, append(clone(data), 'x'))})
			case k == "MD5" || k == "SHA-224":
				out = append(out, gen.DigAttr(k, suffix, data))
			default:
				out = append(out, gen.JAttr{K: k + suffix, V: gen.B64Hash(crypto.SHA1, data)})
			}
		}
		return
	})
	c10Judge(c, w, [][2]int32{{1, 17}, {9, 25}, {18, 25}})
}

// c10Bind: how a signature file is bound to the manifest.
func c10Bind(c *mc.Ctx) {
	m := c10Base()
	s := v1Signer{Key: gen.EC(0), SF: gen.SFOpts{Alg: "SHA1", NoMainAttr: true, NoWhole: true}}
	alg := mc.Pick(c, "digest", "SHA1", "SHA-256", "SHA-512", "MD5")
	s.SF.Alg = alg
	s.SF.CreatedBy = mc.Pick(c, "created by", "1.0 (Android)", "1.0 (signtool)", "signtool", "SignTool")
	s.SF.NoVersion = c.Bool("no version")
	whole, mainAttr := c.Choose("whole digest", 4), c.Choose("main digest", 3)
	sec := c.Choose("sections", 9)
	s.SF.Edit = func(d *gen.JarDoc) {
		switch mainAttr {
		case 1:
			d.Main = append(d.Main, gen.DigAttr(alg, "-Digest-Manifest-Main-Attributes", m.Raw[:m.MainEnd]))
		case 2:
			d.Main = append(d.Main, gen.DigAttr(alg, "-Digest-Manifest-Main-Attributes", m.Raw))
		}
		switch whole {
		case 1:
			d.Main = append(d.Main, gen.DigAttr(alg, "-Digest-Manifest", m.Raw))
		case 2:
			d.Main = append(d.Main, gen.DigAttr(alg, "-Digest-Manifest", m.Raw[1:]))
		case 3: // signtool's form
			d.Main = append(d.Main, gen.DigAttr(alg, "-Digest", m.Raw))
		}
		switch sec {
		case 1:
			d.Sections[0].Attrs[0].V = "AAAA"
		case 2:
			d.Sections[2].Attrs[0].V = "AAAA"
		case 3:
			d.Sections = append(d.Sections, gen.JSection{Name: "no such section", Attrs: []gen.JAttr{gen.DigAttr(alg, "-Digest", m.Raw)}})
		case 7, 8: // the digest of nothing
			d.Sections = append(d.Sections, gen.JSection{Name: "no such section", Attrs: []gen.JAttr{gen.DigAttr(alg, "-Digest", nil)}})
			if sec == 8 {
				d.Sections = d.Sections[3:]
			}
		case 4:
			d.Sections = nil
		case 5:
			d.Sections[1].Attrs = nil
		case 6: // swapped
			d.Sections[0].Attrs, d.Sections[1].Attrs = d.Sections[1].Attrs, d.Sections[0].Attrs
		}
	}
	ss := []v1Signer{s}
	switch c.Choose("other signer", 4) {
	case 1:
		ss = append(ss, v1Signer{Key: gen.EC(1), SF: gen.SFOpts{Alg: "SHA1"}})
	case 2:
		ss = append(ss, v1Signer{Key: gen.EC(1), SF: gen.SFOpts{Alg: "SHA1", NoVersion: true}})
	case 3:
		ss = append([]v1Signer{{Key: gen.EC(1), SF: gen.SFOpts{Alg: "SHA1"}}}, ss...)
	}
	w := signV1(c10Zip, m, "SHA1", ss...)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	for _, r := range [][2]int32{{1, 17}, {8, 8}, {17, 18}, {18, 25}} {
		judgeFull(c, apk, w.Jar, appOf(c08App), r[0], r[1])
	}
}

// c10Signtool: which bytes of a section its digest covers, for every layout; signtool leaves the last blank line out.
func c10Signtool(c *mc.Ctx) {
	m := c10Base()
	m.Layout = gen.Layout{EOL: mc.Pick(c, "line end", "\n", "\r\n", "\r"), ExtraBlank: c.Choose("extra blank lines", 3), MainBlank: c.Choose("blank lines after the main section", 2), NoLastEOL: c.Bool("no last blank line")}
	m.Render()
	s := v1Signer{Key: gen.EC(0), SF: gen.SFOpts{Alg: "SHA-256", NoMainAttr: true, NoWhole: true}}
	s.SF.CreatedBy = mc.Pick(c, "created by", "1.0 (Android)", "1.0 (signtool)")
	cuts := []int{}
	for range m.Chunks {
		cuts = append(cuts, c.Choose("bytes left out", 5))
	}
	s.SF.Edit = func(d *gen.JarDoc) {
		for i, n := range cuts {
			x := m.Chunks[i]
			if n == 4 { // one too many
				x = append(clone(x), '\n')
			} else {
				x = x[:len(x)-n]
			}
			d.Sections[i].Attrs[0] = gen.DigAttr("SHA-256", "-Digest", x)
		}
	}
	w := signV1(c10Zip, m, "SHA1", s)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	judgeFull(c, apk, w.Jar, appOf(c08App), 18, 25)
}

// c10Pairs: two levels at once with fewer digests.
func c10Pairs(c *mc.Ctx) {
	m := c10Base()
	pick := func(suffix string, data []byte) (out []gen.JAttr) {
		if l := mc.Pick(c, "list", "", "SHA-256", "SHA1 SHA-256"); l != "" {
			out = append(out, gen.JAttr{K: "Digest-Algorithms", V: l})
		}
		for _, a := range []string{"SHA-256", "SHA1"} {
			switch c.Choose(a, 3) {
			case 1:
				out = append(out, gen.DigAttr(a, suffix, data))
			case 2:
				out = append(out, gen.DigAttr(a, suffix, append(clone(data), 'x')))
			}
		}
		return
	}
	e := c10Zip.Entries[2]
	m.Sections[2].Attrs = pick("-Digest", e.Data)
	m.Render()
	whole := pick("-Digest-Manifest", m.Raw)
	section := pick("-Digest", m.Chunks[1])
	s := v1Signer{Key: gen.EC(0), SF: gen.SFOpts{Alg: "SHA1", NoMainAttr: true, NoWhole: true}}
	s.SF.Edit = func(d *gen.JarDoc) {
		d.Main = append(d.Main, whole...)
		d.Sections[1].Attrs = section
	}
	w := signV1(c10Zip, m, "SHA1", s)
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	ranges := [][2]int32{{1, 17}, {1, 25}, {18, 25}}
	if c.Deep() {
		ranges = c10Ranges
	}
	for _, r := range ranges {
		judgeFull(c, apk, w.Jar, appOf(c08App), r[0], r[1])
	}
}

func init() {
	register(&Check{
		ID:   "C10",
		Rule: "all digest attribute sets at each place the v1 scheme reads digests, each for 19 SDK ranges; a state is a distinct APK",
		Spaces: []*mc.Space{
			{Name: "levels", Doc: "4 places x 14 Digest-Algorithms lists x (absent, right, wrong)^5 digests x 19 SDK ranges", Run: c10Level},
			{Name: "unknown", Doc: "4 places x 11 lists x digests of six known and unknown algorithms (absent, right, wrong) x 3 SDK ranges", Run: c10Unknown},
			{Name: "binding", Doc: "whole, main and section digests x signtool x version x second signer", Run: c10Bind},
			{Name: "signtool", Doc: "3 line ends x blank lines x signtool or not x (0-3 bytes left out or one added) for each of three section digests", Run: c10Signtool},
			{Name: "pairs", Doc: "(list x digests)^3 for entry, whole manifest and section at once", Run: c10Pairs},
		},
	})
}
