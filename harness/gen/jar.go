package gen

import (
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	"encoding/base64"
	"strings"
)

// JAttr is one attribute line.
type JAttr struct{ K, V string }

// JSection is a named section.
type JSection struct {
	Name  string
	Attrs []JAttr
}

// Layout says how a JAR manifest is written down.
type Layout struct {
	EOL        string
	FoldAt     int  // fold every line longer than this (0: 72 like jarsigner; -1: never)
	FoldFirst  int  // additionally fold each value after this many value characters (0: no)
	ExtraBlank int  // extra blank lines after each section but the main one
	MainBlank  int  // extra blank lines after the main section
	NoLastEOL  bool // no blank line at the end
	NoLastLine bool // last line not terminated
	KeyCase    func(string) string
}

// JarDoc is a manifest or signature file, logical and rendered.
type JarDoc struct {
	Main     []JAttr
	Sections []JSection
	Layout   Layout
	Raw      []byte   // set by Render, may be overridden before signing
	MainEnd  int      // bytes of the main section including its blank line(s)
	Chunks   [][]byte // per section
}

func (l Layout) line(k, v string) string {
	eol := l.EOL
	if l.KeyCase != nil {
		k = l.KeyCase(k)
	}
	s := k + ": " + v
	max := l.FoldAt
	if max == 0 {
		max = 70
	}
	var b strings.Builder
	if l.FoldFirst > 0 {
		cut := len(k) + 2 + l.FoldFirst - 1
		if cut < len(s) {
			b.WriteString(s[:cut] + eol + " ")
			s = s[cut:]
		}
	}
	first := true
	for max > 0 {
		n := max
		if !first {
			n--
		}
		if first && n < len(k)+2 {
			n = len(k) + 2
		}
		if n < 1 {
			n = 1
		}
		if len(s) <= n {
			break
		}
		b.WriteString(s[:n] + eol + " ")
		s = s[n:]
		first = false
	}
	b.WriteString(s + eol)
	return b.String()
}

// Render writes the document.
func (d *JarDoc) Render() *JarDoc {
	if d.Layout.EOL == "" {
		d.Layout.EOL = "\r\n"
	}
	l := d.Layout
	var b strings.Builder
	for _, a := range d.Main {
		b.WriteString(l.line(a.K, a.V))
	}
	b.WriteString(strings.Repeat(l.EOL, 1+l.MainBlank))
	d.MainEnd = b.Len()
	d.Chunks = nil
	var ends []int
	for i, s := range d.Sections {
		b.WriteString(l.line("Name", s.Name))
		for _, a := range s.Attrs {
			b.WriteString(l.line(a.K, a.V))
		}
		if i < len(d.Sections)-1 || !l.NoLastEOL {
			b.WriteString(strings.Repeat(l.EOL, 1+l.ExtraBlank))
		}
		ends = append(ends, b.Len())
	}
	d.Raw = []byte(b.String())
	if l.NoLastLine {
		d.Raw = []byte(strings.TrimRight(b.String(), "\r\n"))
	}
	p := d.MainEnd
	for _, e := range ends {
		if e > len(d.Raw) {
			e = len(d.Raw)
		}
		if p > e {
			p = e
		}
		d.Chunks = append(d.Chunks, d.Raw[p:e])
		p = e
	}
	return d
}

// HashNames maps attribute prefixes to hashes.
var HashNames = map[string]crypto.Hash{"SHA1": crypto.SHA1, "SHA-256": crypto.SHA256, "SHA-384": crypto.SHA384, "SHA-512": crypto.SHA512, "SHA": crypto.SHA1, "MD5": crypto.MD5, "SHA-224": crypto.SHA224}

// B64Hash is the base64 digest.
func B64Hash(h crypto.Hash, data []byte) string {
	x := h.New()
	x.Write(data)
	return base64.StdEncoding.EncodeToString(x.Sum(nil))
}

// DigAttr makes "<alg><suffix>: base64(hash(data))".
func DigAttr(alg, suffix string, data []byte) JAttr {
	return JAttr{alg + suffix, B64Hash(HashNames[alg], data)}
}

// MakeManifest lists the given entries with one digest each.
func MakeManifest(alg string, entries []*Entry) *JarDoc {
	d := &JarDoc{Main: []JAttr{{"Manifest-Version", "1.0"}, {"Created-By", "1.0 (verif)"}}}
	for _, e := range entries {
		d.Sections = append(d.Sections, JSection{e.Name, []JAttr{DigAttr(alg, "-Digest", e.Data)}})
	}
	return d.Render()
}

// SFOpts chooses what a signature file contains.
type SFOpts struct {
	Alg        string
	NoWhole    bool
	NoMainAttr bool
	NoSections bool
	NoVersion  bool
	CreatedBy  string
	APKSigned  string
	Layout     Layout
	Filter     func(name string) bool // sections to list
	Edit       func(*JarDoc)          // logical edits before rendering
}

// MakeSF builds a signature file for a rendered manifest.
func MakeSF(m *JarDoc, o SFOpts) *JarDoc {
	alg := o.Alg
	if alg == "" {
		alg = "SHA-256"
	}
	cb := o.CreatedBy
	if cb == "" {
		cb = "1.0 (verif)"
	}
	d := &JarDoc{Layout: o.Layout}
	if !o.NoVersion {
		d.Main = append(d.Main, JAttr{"Signature-Version", "1.0"})
	}
	d.Main = append(d.Main, JAttr{"Created-By", cb})
	if !o.NoMainAttr {
		d.Main = append(d.Main, DigAttr(alg, "-Digest-Manifest-Main-Attributes", m.Raw[:m.MainEnd]))
	}
	if !o.NoWhole {
		d.Main = append(d.Main, DigAttr(alg, "-Digest-Manifest", m.Raw))
	}
	if o.APKSigned != "" {
		d.Main = append(d.Main, JAttr{"X-Android-APK-Signed", o.APKSigned})
	}
	if !o.NoSections {
		for i, s := range m.Sections {
			if o.Filter != nil && !o.Filter(s.Name) {
				continue
			}
			d.Sections = append(d.Sections, JSection{s.Name, []JAttr{DigAttr(alg, "-Digest", m.Chunks[i])}})
		}
	}
	if o.Edit != nil {
		o.Edit(d)
	}
	return d.Render()
}

// Sf1 is one v1 signer's files.
type Sf1 struct {
	Base string // e.g. CERT
	Ext  string // RSA, DSA, EC
	SF   *JarDoc
	P7   []byte
}

// V1Ext is the block extension for a key.
func V1Ext(k *Key) string {
	switch {
	case k.IsRSA():
		return "RSA"
	case k.IsDSA():
		return "DSA"
	}
	return "EC"
}

// SignV1 adds manifest and signature entries in front of the zip's entries.
func SignV1(z *Zip, m *JarDoc, sfs ...Sf1) *Zip {
	c := z.Clone()
	var es []*Entry
	es = append(es, &Entry{Name: "META-INF/MANIFEST.MF", Data: m.Raw, Method: 8})
	for _, s := range sfs {
		if s.SF != nil {
			es = append(es, &Entry{Name: "META-INF/" + s.Base + ".SF", Data: s.SF.Raw, Method: 8})
		}
		if s.P7 != nil {
			es = append(es, &Entry{Name: "META-INF/" + s.Base + "." + s.Ext, Data: s.P7})
		}
	}
	c.Entries = append(es, c.Entries...)
	return c
}
