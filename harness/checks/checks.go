// Package checks holds the bounded spaces that decide each property.
package checks

import (
	"fmt"
	"sync"
	"time"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/ref"
)

// Check decides one property.
type Check struct {
	ID     string
	Level  string // "" means model_checking
	Rule   string
	Assume []string
	Quick  time.Duration // time limits of the exploration
	Deep   time.Duration
	Spaces []*mc.Space
	After  func(e *mc.Engine) // extra work after the spaces
}

// All checks by id.
var All = map[string]*Check{}

func register(c *Check) {
	if c.Quick == 0 {
		c.Quick = 240 * time.Second
	}
	if c.Deep == 0 {
		c.Deep = 780 * time.Second
	}
	All[c.ID] = c
}

// Space finds a space by name.
func (c *Check) Space(name string) *mc.Space {
	for _, s := range c.Spaces {
		if s.Name == name {
			return s
		}
	}
	return nil
}

const anyMin, anyMax = impl.AnyMin, impl.AnyMax

// judgeBlock compares what the code says about a file's signing block with the reference verdict.
func judgeBlock(c *mc.Ctx, apk []byte, min, max int32) (*ref.Res, impl.Outcome) {
	want := ref.Verdict(apk, min, max)
	got := impl.SigBlock(apk, min, max)
	c.Trace(1)
	compareBlock(c, want, got, fmt.Sprintf("sdk <%d;%d>", min, max))
	return want, got
}

func compareBlock(c *mc.Ctx, want *ref.Res, got impl.Outcome, where string) {
	if got.Panic != "" {
		c.Failf("%s: %s", where, got.Panic)
		return
	}
	c.Note("%s: accept=%v scheme=%d certs=%d why=%q", where, want.Accept, want.Scheme, len(want.Certs), want.Why)
	switch {
	case want.Unsure:
		mc.Outcome("block: not judged")
		return
	case want.Accept:
		mc.Outcome("block: accepted")
	case want.NotFound:
		mc.Outcome("block: absent")
	default:
		mc.Outcome("block: rejected")
	}
	if want.TooShort {
		if got.Accept {
			c.Failf("%s: accepted a file too short to have a signature", where)
		}
		return
	}
	if got.Accept != want.Accept {
		c.Failf("%s: accepted=%v (%s), must be accepted=%v (%s)", where, got.Accept, got.Err, want.Accept, want.Why)
		return
	}
	if got.NotFound != want.NotFound {
		c.Failf("%s: reported as missing signing block=%v (%s), must be %v (%s)", where, got.NotFound, got.Err, want.NotFound, want.Why)
		return
	}
	if !want.Accept {
		return
	}
	if got.Scheme != want.Scheme {
		c.Failf("%s: scheme %d, must be %d", where, got.Scheme, want.Scheme)
	}
	if !impl.SameChains(got.BlkCerts, want.Certs) {
		c.Failf("%s: reported certificates differ: got %s, must be %s", where, showChains(got.BlkCerts), showChains(want.Certs))
	}
	if !impl.SameNodes(got.Lineage, want.Lineage) {
		c.Failf("%s: reported lineage differs: %d nodes, must be %d nodes", where, len(got.Lineage), len(want.Lineage))
	}
	if want.V3Certs != nil {
		if got.V3Extra == nil {
			c.Failf("%s: v3 result missing next to v3.1", where)
		} else {
			if !impl.SameChains(got.V3Extra.BlkCerts, want.V3Certs) {
				c.Failf("%s: v3 certificates next to v3.1 differ: %s, must be %s", where, showChains(got.V3Extra.BlkCerts), showChains(want.V3Certs))
			}
			if !impl.SameNodes(got.V3Extra.Lineage, want.V3Lin) {
				c.Failf("%s: v3 lineage next to v3.1 differs", where)
			}
		}
	} else if got.V3Extra != nil && len(got.V3Extra.BlkCerts) > 0 {
		c.Failf("%s: v3 certificates reported although no v3.1 signature decided", where)
	}
	compareExtra(c, want, got, where)
}

func compareExtra(c *mc.Ctx, want *ref.Res, got impl.Outcome, where string) {
	if len(got.Extra) != len(want.Extra) {
		c.Failf("%s: %d uninterpreted blocks reported, must be %d", where, len(got.Extra), len(want.Extra))
		return
	}
	for k, v := range want.Extra {
		g, ok := got.Extra[k]
		if !ok || string(g) != string(v) {
			c.Failf("%s: uninterpreted block 0x%x not reported unchanged", where, k)
		}
	}
}

func showChains(cs [][][]byte) string {
	s := "["
	for _, c := range cs {
		s += "("
		for _, x := range c {
			s += certName(x) + " "
		}
		s += ")"
	}
	return s + "]"
}

func certName(b []byte) string {
	for _, k := range gen.Names() {
		if string(gen.SelfCert(gen.K(k))) == string(b) {
			return k
		}
	}
	return fmt.Sprintf("%x..", b[:min(len(b), 6)])
}

func u32p(v uint32) *uint32 { return &v }
func u64p(v uint64) *uint64 { return &v }

// tiny is the smallest interesting APK: a few entries without v1 signature.
func tiny() *gen.Zip {
	return &gen.Zip{Entries: []*gen.Entry{
		{Name: "AndroidManifest.xml", Data: gen.ManifestSpec{MinSDK: gen.IV(24), TargetSDK: gen.IV(28)}.AXML()},
		{Name: "classes.dex", Data: []byte("dex\n035\x00 code code code"), Method: 8},
		{Name: "res/a.txt", Data: []byte("resource")},
	}}
}

// tinySec caches its sections.
var tinySec = tiny().Build()

// alignedSec is page aligned before the block, as verity digests demand.
var alignedSec = func() gen.Sections { z := tiny(); z.Align = 4096; return z.Build() }()

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func flip(b []byte, i int, mask byte) []byte {
	o := clone(b)
	o[i] ^= mask
	return o
}

// cache is a concurrent memo table.
type cache[K comparable, V any] struct{ m sync.Map }

func newCache[K comparable, V any]() *cache[K, V] { return &cache[K, V]{} }

func (c *cache[K, V]) get(k K, f func() V) V {
	if v, ok := c.m.Load(k); ok {
		return v.(V)
	}
	v := f()
	c.m.Store(k, v)
	return v
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
