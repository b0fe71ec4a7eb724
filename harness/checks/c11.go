package checks

import (
	"strconv"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// c11App is the model's view of a manifest that may have string values.
func c11App(m gen.ManifestSpec) ref.App {
	bad := false
	num := func(v *gen.AttrVal) *gen.AttrVal {
		if v == nil || !v.IsStr {
			return v
		}
		n, err := strconv.ParseInt(v.Str, 10, 32)
		if err != nil {
			bad = true
			return nil
		}
		return gen.IV(int32(n))
	}
	m.Sandbox = num(m.Sandbox)
	if !m.NoUsesSdk {
		m.MinSDK, m.TargetSDK = num(m.MinSDK), num(m.TargetSDK)
	}
	if bad {
		return ref.App{Bad: true}
	}
	return appOf(m)
}

func opt(c *mc.Ctx, name string, vs ...int32) *gen.AttrVal {
	i := c.Choose(name, len(vs)+1)
	if i == 0 {
		return nil
	}
	return gen.IV(vs[i-1])
}

type c11Sig struct {
	name string
	st   [4]int
	v3to uint32
}

var c11Sigs = []c11Sig{
	{"v1", [4]int{stValid}, 0},
	{"bad v1", [4]int{stBadSig}, 0},
	{"nothing", [4]int{}, 0},
	{"v1+v2", [4]int{stValid, stValid}, 0},
	{"v2", [4]int{0, stValid}, 0},
	{"v1+bad v2", [4]int{stValid, stBadSig}, 0},
	{"bad v1+v2", [4]int{stBadSig, stValid}, 0},
	{"v1+v3", [4]int{stValid, 0, stValid}, 0},
	{"v1+v3+v3.1", [4]int{stValid, 0, stValid, stValid}, 32},
	{"v1+bad v3", [4]int{stValid, 0, stBadDigest}, 0},
}

var c11Maxs = []int32{23, 25, 26, 27, 28, 29, 30, 31, 33, anyMax}

// c11Sandbox: sandbox version and target SDK against the requested range.
func c11Sandbox(c *mc.Ctx) {
	s := c11Sigs[c.Choose("signatures", len(c11Sigs))]
	m := multiAPK{st: s.st, v3max: s.v3to}
	m.app.Sandbox = opt(c, "sandbox", 0, 1, 2, 3)
	m.app.TargetSDK = opt(c, "target", 25, 26, 29, 30, 31, 33, 100)
	m.app.MinSDK = opt(c, "minimum", 24)
	apk, j := m.build()
	c.Label("%s", s.name)
	c.State(apk)
	mins := []int32{-1, 1, 23, 24, 26}
	if c.Deep() {
		mins = append(mins, 25, 27, 28, 30, 31, 33)
	}
	for _, min := range mins {
		for _, max := range c11Maxs {
			judgeFull(c, apk, j, c11App(m.app), min, max)
		}
	}
}

// c11Min: the manifest's minimum and inverted ranges.
func c11Min(c *mc.Ctx) {
	s := c11Sigs[c.Choose("signatures", len(c11Sigs))]
	m := multiAPK{st: s.st, v3max: s.v3to}
	m.app.NoUsesSdk = c.Bool("no uses-sdk")
	m.app.MinSDK = opt(c, "minimum", 0, 1, 17, 23, 24, 25, 27, 28, 30, 33, 34)
	m.app.TargetSDK = opt(c, "target", 28, 34)
	apk, j := m.build()
	c.Label("%s", s.name)
	c.State(apk)
	for _, min := range []int32{-1, 0, 1, 18, 23, 24, 28, 29, 33, 34} {
		for _, max := range []int32{-1, 0, 1, 17, 18, 22, 23, 24, 27, 28, 29, 32, 33, 34, anyMax} {
			judgeFull(c, apk, j, c11App(m.app), min, max)
		}
	}
}

// c11Dex: what precedes the archive.
func c11Dex(c *mc.Ctx) {
	s := c11Sigs[c.Choose("signatures", len(c11Sigs))]
	pre := mc.Pick(c, "prefix", "", "dex\n", "dex\n035\x00", "dex\n035\x00"+strings.Repeat("x", 5000), "DEX\n", "dex\r", "\x00dex\n", " dex\n", "dey\n", "dex", "d", "PK\x03\x04")
	m := multiAPK{st: s.st, v3max: s.v3to}
	m.prefix = []byte(pre)
	m.app.Sandbox = opt(c, "sandbox", 2)
	m.app.MinSDK = opt(c, "minimum", 24)
	if c.Bool("target 30") {
		m.app.TargetSDK = gen.IV(30)
	}
	apk, j := m.build()
	c.Label("%s", s.name)
	c.State(apk)
	for _, min := range []int32{-1, 1, 23, 24, 28} {
		for _, max := range []int32{23, 25, 26, 29, 30, anyMax} {
			judgeFull(c, apk, j, c11App(m.app), min, max)
		}
	}
}

// c11Manifest: manifests that are absent, broken or have string values.
func c11Manifest(c *mc.Ctx) {
	s := c11Sigs[c.Choose("signatures", len(c11Sigs))]
	m := multiAPK{st: s.st, v3max: s.v3to}
	strs := []*gen.AttrVal{nil, gen.SV("2"), gen.SV("0x2"), gen.SV(""), gen.SV("Q"), gen.SV("30"), gen.SV("99999999999"), gen.SV("-5"), gen.SV("+30"), gen.IV(30)}
	switch c.Choose("attribute", 3) {
	case 0:
		m.app.Sandbox = strs[c.Choose("value", len(strs))]
	case 1:
		m.app.MinSDK = strs[c.Choose("value", len(strs))]
	case 2:
		m.app.TargetSDK = strs[c.Choose("value", len(strs))]
	}
	if m.app.TargetSDK == nil && c.Bool("target 30") {
		m.app.TargetSDK = gen.IV(30)
	}
	if m.app.Sandbox == nil && c.Bool("sandbox 2") {
		m.app.Sandbox = gen.IV(2)
	}
	apk, j := m.build()
	c.Label("%s", s.name)
	c.State(apk)
	for _, min := range []int32{-1, 1, 24, 30} {
		for _, max := range []int32{23, 25, 26, 29, 30, anyMax} {
			judgeFull(c, apk, j, c11App(m.app), min, max)
		}
	}
}

func init() {
	register(&Check{
		ID:   "C11",
		Rule: "10 combinations of signatures x manifests x prefixes, each over an SDK grid; a state is a distinct APK",
		Spaces: []*mc.Space{
			{Name: "sandbox", Doc: "sandbox version x target SDK x signatures x 50 (thorough 110) SDK ranges", Run: c11Sandbox},
			{Name: "minimum", Doc: "manifest minimum x signatures x 150 SDK ranges, inverted ones too", Run: c11Min},
			{Name: "dex", Doc: "12 prefixes x signatures x policies x SDK ranges", Run: c11Dex},
			{Name: "manifest", Doc: "string and malformed attribute values", Run: c11Manifest},
		},
	})
}
