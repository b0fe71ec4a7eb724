package gen

import "unicode/utf16"

// ManifestSpec describes the attributes the verifier reads from a binary AndroidManifest.xml. Nil: absent.
type ManifestSpec struct {
	Sandbox, MinSDK, TargetSDK *AttrVal
	NoUsesSdk                  bool
}

// AttrVal is an integer or string attribute value.
type AttrVal struct {
	Int   int32
	Str   string
	IsStr bool
}

func IV(i int32) *AttrVal  { return &AttrVal{Int: i} }
func SV(s string) *AttrVal { return &AttrVal{Str: s, IsStr: true} }

// AXML renders the binary manifest.
func (m ManifestSpec) AXML() []byte {
	var strs []string
	idx := map[string]uint32{}
	str := func(s string) uint32 {
		if i, ok := idx[s]; ok {
			return i
		}
		idx[s] = uint32(len(strs))
		strs = append(strs, s)
		return idx[s]
	}
	type at struct {
		name string
		v    *AttrVal
	}
	const none = 0xffffffff
	start := func(name string, attrs []at) []byte {
		var body []byte
		n := 0
		for _, a := range attrs {
			if a.v == nil {
				continue
			}
			n++
			raw, typ, data := uint32(none), byte(0x10), uint32(a.v.Int)
			ns := str("http://schemas.android.com/apk/res/android")
			nm := str(a.name)
			if a.v.IsStr {
				raw = str(a.v.Str)
				typ, data = 3, raw
			}
			body = append(body, cat(le32(ns), le32(nm), le32(raw), le16(8), []byte{0, typ}, le32(data))...)
		}
		b := cat(le32(1), le32(none), le32(none), le32(str(name)), le16(20), le16(20), le16(n), le16(0), le16(0), le16(0), body)
		return cat(le16(0x0102), le16(16), le32(uint32(8+len(b))), b)
	}
	end := func(name string) []byte {
		return cat(le16(0x0103), le16(16), le32(24), le32(1), le32(none), le32(none), le32(str(name)))
	}
	chunks := start("manifest", []at{{"package", SV("a.b")}, {"targetSandboxVersion", m.Sandbox}})
	if !m.NoUsesSdk {
		chunks = cat(chunks, start("uses-sdk", []at{{"minSdkVersion", m.MinSDK}, {"targetSdkVersion", m.TargetSDK}}), end("uses-sdk"))
	}
	chunks = cat(chunks, end("manifest"))
	// string pool
	var offs, data []byte
	for _, s := range strs {
		offs = append(offs, le32(uint32(len(data)))...)
		u := utf16.Encode([]rune(s))
		data = append(data, le16(len(u))...)
		for _, c := range u {
			data = append(data, le16(int(c))...)
		}
		data = append(data, 0, 0)
	}
	for len(data)%4 != 0 {
		data = append(data, 0)
	}
	pool := cat(le16(0x0001), le16(28), le32(uint32(28+len(offs)+len(data))), le32(uint32(len(strs))), le32(0), le32(0), le32(uint32(28+len(offs))), le32(0), offs, data)
	all := cat(pool, chunks)
	return cat(le16(0x0003), le16(8), le32(uint32(8+len(all))), all)
}
