package checks

import (
	"bytes"
	"context"
	"crypto"
	"crypto/dsa"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/fullsailor/pkcs7"

	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
)

// ---- time and memory
//
// A call that takes long or allocates much is repeated alone in the process and judged by the processor time and the
// bytes it takes there, so that other executions and a busy machine do not count.

const (
	c12Seconds = 20       // processor time, of inputs of a few MB and mostly some KB
	c12Base    = 64 << 20 // bytes allocated, plus
	c12Factor  = 400      // times the input
)

var c12Lock sync.RWMutex

func c12Alloc() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func c12CPU() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// c12Do runs f, which returns how it panicked, on an input of size bytes (decompressed).
func c12Do(c *mc.Ctx, size int, what func() string, f func() string) {
	if len(c.Fails()) > 3 {
		return
	}
	c.Trace(1)
	limit := uint64(c12Base + c12Factor*size)
	c12Lock.RLock()
	a, t := c12Alloc(), time.Now()
	p := f()
	took, alloc := time.Since(t), c12Alloc()-a
	c12Lock.RUnlock()
	if p != "" {
		c.Failf("%s: %s", what(), p)
		return
	}
	if took < 2*time.Second && alloc < limit {
		return
	}
	c12Lock.Lock()
	defer c12Lock.Unlock()
	for i := 0; i < 2; i++ {
		var m0, m1 runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m0)
		t0 := c12CPU()
		f()
		cpu := c12CPU() - t0
		runtime.ReadMemStats(&m1)
		alloc = m1.TotalAlloc - m0.TotalAlloc
		if cpu < c12Seconds*time.Second && alloc < limit {
			return
		}
		if i == 1 {
			c.Failf("%s: %d bytes of input take %v of processor time and %d bytes of memory, most in %s", what(), size, cpu.Round(100*time.Millisecond), alloc, c12Site(func() { f() }))
		}
	}
}

// c12APK runs all that can be done with a file.
func c12APK(apk []byte, deep bool) string {
	if o := impl.Verify(apk, anyMin, anyMax); o.Panic != "" {
		return o.Panic
	}
	if o := impl.Extract(apk); o.Panic != "" {
		return "extracting: " + o.Panic
	}
	if deep {
		for _, r := range [][2]int32{{16, 23}, {28, 32}, {33, anyMax}} {
			if o := impl.Verify(apk, r[0], r[1]); o.Panic != "" {
				return fmt.Sprintf("sdk %v: %s", r, o.Panic)
			}
		}
	}
	return ""
}

func c12P7(b []byte) string {
	return guardPanic(func() {
		p7, err := pkcs7.Parse(b)
		if err != nil || p7 == nil {
			return
		}
		p7.Verify()
		p7.GetOnlySigner()
		var md []byte
		p7.UnmarshalSignedAttribute(oidMD, &md)
		for _, si := range p7.GetSignerInfos() {
			var t time.Time
			var ct asn1.ObjectIdentifier
			si.UnmarshalSignedAttribute(oidTime, &t)
			si.UnmarshalSignedAttribute(oidCT, &ct)
			si.MarshalAuthenticatedAttributes()
		}
		var chains [][]*x509.Certificate
		for _, crt := range p7.Certificates {
			chains = append(chains, []*x509.Certificate{crt})
			_ = apkverifier.NewCertInfo(crt).String()
		}
		if len(chains) > 0 {
			apkverifier.PickBestApkCert(chains)
		}
		p7.Content = []byte("other")
		p7.Verify()
		p7.Decrypt(c21Cert("rsa1024-0"), gen.K("rsa1024-0").Priv)
	})
}

// ---- mutations

// c12Subject is a structure inside a signed file; make rebuilds, and signs again, the file around the edited structure.
type c12Subject struct {
	name string
	base []byte
	make func(b []byte) []byte // an APK
	p7   bool                  // make gives a PKCS#7 block
	skip [][2]int              // not these parts
	nums [][]byte              // numbers to put in the place of every byte
}

// grab calls build with an editor that records the structure.
func c12Grab(name string, build func(edit func([]byte) []byte) []byte) c12Subject {
	var base []byte
	build(func(b []byte) []byte { base = clone(b); return b })
	if base == nil {
		panic(name)
	}
	return c12Subject{name: name, base: base, make: func(b []byte) []byte {
		return build(func([]byte) []byte { return b })
	}}
}

// c12Resign signs an edited signed-data part again.
func c12Resign(k *gen.Key, edit func([]byte) []byte) func(*gen.SignerRec) {
	return func(r *gen.SignerRec) {
		r.SignedData = edit(r.EncSignedData())
		for i := range r.Sigs {
			r.Sigs[i].Bytes = k.SignAlg(r.Sigs[i].Alg, r.SignedData)
		}
	}
}

// c12Jar signs an archive with these files; sf nil: one with the digest of the manifest.
func c12Jar(z *gen.Zip, mf, sf []byte) []byte {
	if sf == nil {
		sf = []byte("Signature-Version: 1.0\r\nSHA1-Digest-Manifest: " + gen.B64Hash(crypto.SHA1, mf) + "\r\n\r\n")
	}
	k := gen.K("rsa1024-0")
	p7 := gen.P7Spec{Certs: [][]byte{gen.SelfCert(k)}, Signers: []*gen.SI{gen.SignerOf{Key: k, Cert: gen.SelfCert(k), Hash: crypto.SHA1}.Make(sf)}}.DER()
	z = z.Clone()
	z.Entries = append(z.Entries, &gen.Entry{Name: "META-INF/MANIFEST.MF", Data: mf}, &gen.Entry{Name: "META-INF/C.SF", Data: sf}, &gen.Entry{Name: "META-INF/C.RSA", Data: p7})
	return z.Build().Assemble(nil)
}

// the files of the quick tier
var c12Files = map[string]bool{"v1": true, "v1+v2": true, "v2+v3": true, "v1+v2+v3+v3.1": true, "v1 below 24": true, "stamped v2": true, "stamped v1+v2+v3": true,
	"frosting": true, "no zip": true, "truncated": true, "v1 without a readable directory": true}

var c12Subjects = newCache[bool, []c12Subject]()

func c12SubjectsOf(deep bool) []c12Subject {
	var l []c12Subject
	add := func(name string, f func(edit func([]byte) []byte) []byte) { l = append(l, c12Grab(name, f)) }
	block := func(pairs ...gen.Pair) []byte { return tinySec.Assemble(gen.EncodeBlock(pairs...)) }
	keep := func(b []byte) []byte { return b }
	for _, k := range []string{"ec256-1", "rsa1024-0", "dsa1024-0"} {
		add("v2 signed data "+k, func(edit func([]byte) []byte) []byte {
			return block(gen.V2(tinySec, gen.SignerSpec{Key: gen.K(k), PostSign: c12Resign(gen.K(k), edit)}))
		})
	}
	line := gen.MakeLineage(gen.EC(1), gen.EC(2), gen.EC(3))
	add("v3 signed data", func(edit func([]byte) []byte) []byte {
		return block(gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(3), Min: 28, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(line)}, PostSign: c12Resign(gen.EC(3), edit)}))
	})
	add("v3.1 signed data", func(edit func([]byte) []byte) []byte {
		return block(gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(1), Min: 28, Max: 32, Attrs: []gen.Attr{{ID: gen.AttrRotMinSDK, Val: gen.LE32(33)}}}),
			gen.V31(tinySec, gen.SignerSpec{Key: gen.EC(3), Min: 33, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(line)}, PostSign: c12Resign(gen.EC(3), edit)}))
	})
	add("lineage", func(edit func([]byte) []byte) []byte {
		return block(gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(3), Min: 28, Max: 0x7fffffff, Attrs: []gen.Attr{{ID: gen.AttrRotation, Val: edit(gen.EncodeLineage(1, line))}}}))
	})
	add("lineage certificate", func(edit func([]byte) []byte) []byte {
		nodes := slices.Clone(line)
		nodes[2].Cert = edit(nodes[2].Cert)
		nodes[2].Sig = gen.EC(2).SignAlg(gen.DefaultAlg(gen.EC(2)), nodes[2].SignedPart())
		return block(gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(3), Min: 28, Max: 0x7fffffff, Certs: [][]byte{nodes[2].Cert}, Attrs: []gen.Attr{gen.RotAttr(nodes)}}))
	})
	for _, k := range []string{"ec256-1", "rsa1024-0", "dsa1024-0"} {
		add("public key "+k, func(edit func([]byte) []byte) []byte {
			pub := edit(gen.K(k).SPKI)
			n := gen.CN("x")
			spec := gen.CertSpec{Subject: n, Issuer: n, Key: gen.K(k), RawSPKI: pub}
			return block(gen.V2(tinySec, gen.SignerSpec{Key: gen.K(k), Certs: [][]byte{spec.DER()}, PostSign: func(r *gen.SignerRec) { r.PubKey = pub }}))
		})
	}
	file := sha(gen.SelfCert(gen.EC(8)))
	for i, cfg := range []int{1, len(stampCfgs) - 1} {
		stamp := func(f func(*gen.StampRec), attrs func([]byte) []byte) []byte {
			b := c15Base(cfg, file)
			rec := gen.StampSpec{Key: gen.EC(8), Over: b.over, Attrs: []gen.Attr{timeAttr(1234567), {ID: gen.AttrRotation, Val: gen.EncodeLineage(1, gen.MakeLineage(gen.EC(7), gen.EC(8)))}}}.Rec()
			if attrs != nil {
				rec.AttrData = attrs(rec.AttrData)
				rec.AttrSigs = []gen.AlgBytes{{Alg: gen.DefaultAlg(gen.EC(8)), Bytes: gen.EC(8).SignAlg(gen.DefaultAlg(gen.EC(8)), rec.AttrData)}}
			}
			p := rec.Pair()
			if f != nil {
				f(rec)
				p = rec.Pair()
			}
			return b.sec.Assemble(gen.EncodeBlock(append(slices.Clone(b.pairs), p)...))
		}
		add(fmt.Sprint("stamp attributes ", i), func(edit func([]byte) []byte) []byte { return stamp(nil, edit) })
		add(fmt.Sprint("stamp ", i), func(edit func([]byte) []byte) []byte {
			b := c15Base(cfg, file)
			rec := gen.StampSpec{Key: gen.EC(8), Over: b.over, Attrs: []gen.Attr{timeAttr(1234567)}}.Rec()
			return b.sec.Assemble(gen.EncodeBlock(append(slices.Clone(b.pairs), gen.Pair{ID: gen.IDStampV2, Val: edit(rec.Encode())})...))
		})
	}
	fb := c16Bases[1]
	add("frosting", func(edit func([]byte) []byte) []byte {
		f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: fb.digest}, {Sha: fb.digest}}, SignKeys: []*gen.Key{gen.EC(0), gen.EC(1)}}
		return fb.with(edit(f.Encode()))
	})
	add("frosting with long numbers", func(edit func([]byte) []byte) []byte {
		f := gen.FrostSpec{Proto: []byte("info"), Metas: []gen.FrostMeta{{Sha: fb.digest, RawKey: append(many(4, 0x80), 0)}, {Sha: fb.digest}}, SignKeys: []*gen.Key{gen.EC(0), gen.EC(1)}}
		return fb.with(edit(f.Encode()))
	})
	for i := len(l) - 2; i < len(l); i++ {
		for _, v := range []string{"\x80\x80\x80\x80\x08", "\xff\xff\xff\xff\x0f", "\xf0\xff\xff\xff\x0f", "\xff\xff\xff\xff\x07", "\x80\x80\x80\x80\x00", "\x81\x80\x00", "\xff\xff\xff\x7f", "\xff\xff\xff\xff\x10", "\xff\xff\xff\xff\xff"} {
			l[i].nums = append(l[i].nums, []byte(v))
		}
	}
	// v1
	app := gen.ManifestSpec{MinSDK: gen.IV(16), TargetSDK: gen.IV(28), Sandbox: gen.IV(1)}
	zip := func(axml []byte) *gen.Zip {
		return &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: axml}, {Name: "classes.dex", Data: []byte("dex\n035\x00 code"), Method: 8}}}
	}
	v1 := func(mf, p7 func([]byte) []byte, with bool) []byte {
		z := zip(app.AXML())
		m := gen.MakeManifest("SHA1", z.Entries)
		if mf != nil {
			return c12Jar(z, mf(m.Raw), nil)
		}
		k := gen.K("rsa1024-0")
		return signV1(z, m, "SHA1", v1Signer{Key: k, Make: func(b []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
			of := gen.SignerOf{Key: k, Cert: gen.SelfCert(k), Hash: crypto.SHA1, Attrs: with}
			si := of.Make(b)
			return p7(gen.P7Spec{Certs: [][]byte{of.Cert}, Signers: []*gen.SI{si}}.DER()), nil
		}}).Zip.Build().Assemble(nil)
	}
	add("JAR manifest", func(edit func([]byte) []byte) []byte { return v1(edit, keep, false) })
	add("signature file", func(edit func([]byte) []byte) []byte {
		z := zip(app.AXML())
		m := gen.MakeManifest("SHA1", z.Entries)
		return c12Jar(z, m.Raw, edit(gen.MakeSF(m, gen.SFOpts{Alg: "SHA1", APKSigned: "2"}).Raw))
	})
	add("PKCS#7 block", func(edit func([]byte) []byte) []byte { return v1(nil, edit, true) })
	add("PKCS#7 signed attributes", func(edit func([]byte) []byte) []byte {
		z := zip(app.AXML())
		m := gen.MakeManifest("SHA1", z.Entries)
		k := gen.K("rsa1024-0")
		return signV1(z, m, "SHA1", v1Signer{Key: k, Make: func(b []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
			si := gen.SignerOf{Key: k, Cert: gen.SelfCert(k), Hash: crypto.SHA1, Attrs: true}.Make(b)
			at := edit(gen.EncP7Attrs(si.Attrs))
			iss, ser := gen.CertIssuerSerial(gen.SelfCert(k))
			raw := gen.Seq(gen.Int(1), gen.Seq(iss, gen.BigInt(ser)), gen.AlgID(gen.DigestOIDs[crypto.SHA1], gen.Null()), gen.TLV(0xa0, at), gen.AlgID(gen.KeyOID(k), gen.Null()), gen.Octets(k.Sign(gen.Natural, crypto.SHA1, gen.Set(at))))
			sd := gen.Seq(gen.Int(1), gen.Set(gen.AlgID(gen.DigestOIDs[crypto.SHA1], gen.Null())), gen.Seq(gen.OID(gen.OIDData)), gen.TLV(0xa0, gen.SelfCert(k)), gen.Set(raw))
			return gen.Seq(gen.OID(gen.OIDSignedData), gen.TLV(0xa0, sd)), nil
		}}).Zip.Build().Assemble(nil)
	})
	// whole messages, alone
	for _, s := range c21Base() {
		l = append(l, c12Subject{name: "message: " + s.name, base: s.msg, p7: true})
	}
	env := c21Env{oid: c21Ciphers[4].oid, to: []string{"rsa1024-0", "rsa1024-1"}, key: c21Content(16), params: gen.TLV(0x30, gen.Seq(gen.TLV(0x84, c21Content(12)), gen.Int(16))), body: c21Parts(c21Content(40))[1]}
	l = append(l, c12Subject{name: "envelope", base: env.DER(), p7: true})
	for _, s := range corpus() {
		if !s.big && len(s.apk) < 9000 && (deep || c12Files[s.name]) {
			sub := c12Subject{name: "file: " + s.name, base: s.apk, make: func(b []byte) []byte { return b }}
			if i := bytes.Index(s.apk, []byte{3, 0, 8, 0}); i > 0 { // the manifest is in another space
				sub.skip = append(sub.skip, [2]int{i, i + int(binary.LittleEndian.Uint32(s.apk[i+4:]))})
			}
			l = append(l, sub)
		}
	}
	return l
}

var c12Bytes = []byte{0, 1, 2, 4, 5, 0x1f, 0x20, 0x30, 0x31, 0x3f, 0x7f, 0x80, 0x81, 0x84, 0x88, 0xa0, 0xbf, 0xfe, 0xff}

// ---- the binary manifest
//
// apkparser reads it; it allocates what the file says. The executions therefore run in a process that may have no more
// than 3 GB, one after another.

var c12Manifest = sync.OnceValue(func() c12Subject {
	app := gen.ManifestSpec{MinSDK: gen.IV(16), TargetSDK: gen.IV(28), Sandbox: gen.IV(1)}
	return c12Grab("binary manifest", func(edit func([]byte) []byte) []byte {
		z := &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: edit(app.AXML())}}}
		return c12Jar(z, gen.MakeManifest("SHA1", z.Entries).Raw, nil)
	})
})

// c12Worker runs the mutations at the positions from..to-1, beginning with the skip-th; args: from, to, skip, deep.
func c12Worker(args []string) {
	var from, to, skip, deep int
	fmt.Sscan(strings.Join(args, " "), &from, &to, &skip, &deep)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	debug.SetGCPercent(20)
	s := c12Manifest()
	i := 0
	try := func(b []byte) {
		if i++; i <= skip {
			return
		}
		apk := s.make(b)
		fmt.Printf("at %d %x\n", i, short(b, s.base))
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		t := c12CPU()
		if p := c12APK(apk, deep > 0); p != "" {
			fmt.Println("panic", p)
		}
		runtime.ReadMemStats(&m1)
		if d := c12CPU() - t; d > c12Seconds*time.Second {
			fmt.Println("time", d)
		}
		if n := m1.TotalAlloc - m0.TotalAlloc; n > c12Base+c12Factor*uint64(len(apk)) {
			fmt.Println("memory", n, c12Site(func() { c12APK(apk, deep > 0) }))
		}
	}
	for pos := from; pos < to && pos < len(s.base); pos++ {
		c12At(deep > 0, s.base, pos, false, try)
	}
	fmt.Println("done")
}

// c12Site is the function that allocates most while f runs.
func c12Site(f func()) string {
	runtime.MemProfileRate = 1 << 20
	runtime.GC()
	runtime.GC()
	old := map[[32]uintptr]int64{}
	get := func() []runtime.MemProfileRecord {
		n, _ := runtime.MemProfile(nil, true)
		r := make([]runtime.MemProfileRecord, n+100)
		n, _ = runtime.MemProfile(r, true)
		return r[:n]
	}
	for _, r := range get() {
		old[r.Stack0] = r.AllocBytes
	}
	f()
	runtime.GC()
	runtime.GC()
	best, site := int64(-1), "?"
	for _, r := range get() {
		if n := r.AllocBytes - old[r.Stack0]; n > best {
			best = n
			site = c12Func(r.Stack())
		}
	}
	runtime.MemProfileRate = 512 << 10
	return site
}

func c12Func(pcs []uintptr) string {
	fs := runtime.CallersFrames(pcs)
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "avast/") {
			return f.Function
		}
		if !more {
			return "?"
		}
	}
}

func c12Binary(c *mc.Ctx) {
	n := len(c12Manifest().base)
	from := c.Choose("position", (n+3)/4) * 4
	c.State(gen.LE32(uint32(from)))
	self, _ := os.Executable()
	what := map[string]string{}
	skip, runs := 0, 0
	for crashes := 0; crashes < 10000; crashes++ {
		ctx, cancel := context.WithTimeout(context.Background(), 80*time.Second)
		cmd := exec.CommandContext(ctx, self, "worker", "c12axml", fmt.Sprint(from), fmt.Sprint(from+4), fmt.Sprint(skip), fmt.Sprint(b2i(c.Deep())))
		var errs bytes.Buffer
		cmd.Stderr = &errs
		out, _ := cmd.Output()
		cancel()
		last := ""
		done := false
		for _, l := range strings.Split(string(out), "\n") {
			f := strings.SplitN(l, " ", 3)
			switch f[0] {
			case "at":
				last = l
				fmt.Sscan(f[1], &skip)
				runs++
			case "panic", "time":
				what[l] = last
			case "memory":
				what["memory in "+f[2]] = last
			case "done":
				done = true
			}
		}
		if done {
			break
		}
		site := "?"
		for _, l := range strings.Split(errs.String(), "\n") {
			if strings.HasPrefix(l, "github.com/avast/") {
				site = l[:strings.LastIndex(l, "(")]
				break
			}
		}
		switch {
		case ctx.Err() == context.DeadlineExceeded:
			what["does not end"] = last
		case strings.Contains(errs.String(), "out of memory") || strings.Contains(errs.String(), "cannot allocate memory"):
			what["memory in "+site] = last
		default:
			what["crash: "+strings.SplitN(errs.String(), "\n", 2)[0]+" in "+site] = last
		}
	}
	for i := 0; i < runs; i++ {
		c.Trace(1)
	}
	var l []string
	for k, at := range what {
		l = append(l, k+": "+at)
	}
	sort.Strings(l)
	for _, k := range l {
		c.Failf("AndroidManifest.xml: %s", k)
	}
}

func c12Mutate(c *mc.Ctx) {
	all := c12Subjects.get(c.Deep(), func() []c12Subject { return c12SubjectsOf(c.Deep()) })
	s := &all[c.Choose("subject", len(all))]
	const chunk = 8
	start := c.Choose("position", (len(s.base)+chunk-1)/chunk) * chunk
	c.Label("%s", s.name)
	c.State([]byte(s.name), gen.LE32(uint32(start)))
	isFile := strings.HasPrefix(s.name, "file:")
	try := func(b []byte) {
		c12Do(c, len(b)+8000, func() string { return fmt.Sprintf("%s, %d bytes: %x", s.name, len(b), short(b, s.base)) }, func() string {
			if s.p7 {
				return c12P7(b)
			}
			return c12APK(s.make(b), c.Deep())
		})
	}
	for pos := start; pos < start+chunk && pos < len(s.base); pos++ {
		if slices.ContainsFunc(s.skip, func(r [2]int) bool { return r[0] <= pos+7 && pos < r[1] }) {
			continue
		}
		c12At(c.Deep(), s.base, pos, isFile, try)
		for _, v := range s.nums {
			try(slices.Concat(s.base[:pos], v, s.base[pos+1:]))
			try(slices.Concat(s.base[:pos], v, s.base[pos:]))
		}
	}
}

// short shows the first difference.
func short(b, base []byte) []byte {
	i := 0
	for i < len(b) && i < len(base) && b[i] == base[i] {
		i++
	}
	return b[max(0, i-4):min(len(b), i+12)]
}

// c12At tries the mutations at a position.
func c12At(deep bool, base []byte, pos int, isFile bool, try func([]byte)) {
	b := clone(base)
	old := b[pos]
	set := map[byte]bool{old ^ 1: true, old ^ 0x80: true, old + 1: true, old - 1: true}
	if deep {
		for v := 0; v < 256; v++ {
			set[byte(v)] = true
		}
	} else if !isFile {
		for _, v := range c12Bytes {
			set[v] = true
		}
	} else {
		set[0], set[0xff] = true, true
	}
	delete(set, old)
	var vals []int
	for v := range set {
		vals = append(vals, int(v))
	}
	sort.Ints(vals)
	for _, v := range vals {
		b[pos] = byte(v)
		try(b)
	}
	b[pos] = old
	try(clone(base[:pos]))
	if isFile && !deep && pos%4 != 0 {
		return
	}
	try(slices.Delete(clone(base), pos, pos+1))
	try(slices.Insert(clone(base), pos, 0))
	rest := uint32(len(base) - pos - 4)
	if pos+4 <= len(base) {
		for _, v := range []uint32{0, 1, 3, 4, rest - 1, rest, rest + 1, rest - 4, 0x7fffffff, 0x80000000, 0xfffffffb, 0xffffffff} {
			copy(b[pos:], gen.LE32(v))
			try(b)
		}
		copy(b[pos:pos+4], base[pos:])
	}
	if pos+8 <= len(base) {
		for _, v := range []uint64{0, 1, 4, uint64(rest - 4), uint64(rest), 0x7fffffff, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff8, 0xffffffffffffffff} {
			binary.LittleEndian.PutUint64(b[pos:], v)
			try(b)
		}
		copy(b[pos:pos+8], base[pos:])
	}
}

// ---- certificates

// c12Issuers: a v1 signature whose certificates name one another as issuers in every possible way.
func c12Issuers(c *mc.Ctx) {
	n := 2 + c.Choose("certificates", 2)
	if c.Deep() && c.Bool("another") {
		n++
	}
	names := []string{"a", "b", "c", "d"}
	k := gen.K("rsa1024-0")
	key := gen.EC(1)
	if c.Bool("one key") {
		key = k
	}
	var certs [][]byte
	for i := 0; i < n; i++ {
		subject := names[i]
		if i > 0 && c.Bool("first subject again") {
			subject = names[0]
		}
		issuer := names[c.Choose("issuer", n)]
		spec := gen.CertSpec{Serial: big.NewInt(int64(1 + i)), Subject: gen.CN(subject), Issuer: gen.CN(issuer), Key: key, SignKey: k}
		if i == 0 {
			spec.Key = k
		}
		certs = append(certs, spec.DER())
		c.Label("%s by %s", subject, issuer)
	}
	if c.Bool("signer last") {
		slices.Reverse(certs)
	}
	// the signer is the certificate with the key
	of := gen.SignerOf{Key: k, Cert: certs[0], Hash: crypto.SHA1}
	if c.Bool("the other one signs") {
		of.Cert = certs[n-1]
	}
	z := &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: c12App()}}}
	m := gen.MakeManifest("SHA1", z.Entries)
	w := signV1(z, m, "SHA1", v1Signer{Key: k, Make: func(b []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
		return gen.P7Spec{Certs: certs, Signers: []*gen.SI{of.Make(b)}}.DER(), nil
	}})
	apk := w.Zip.Build().Assemble(nil)
	c.State(apk)
	c12Do(c, len(apk), func() string { return "certificates naming one another" }, func() string { return c12APK(apk, true) })
}

// ---- keys

// c12Keys are public keys of every type with numbers that no generator makes, and keys of other types.
var c12Keys = sync.OnceValue(func() (l [][2]any) {
	add := func(name string, spki []byte) { l = append(l, [2]any{name, spki}) }
	one := big.NewInt(1)
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	good := gen.K("rsa1024-0").Priv.(*rsa.PrivateKey).PublicKey
	odd := func(bits uint) *big.Int { return new(big.Int).Sub(pow(bits), one) }
	for _, n := range []*big.Int{big.NewInt(0), one, big.NewInt(-1), big.NewInt(2), big.NewInt(3), big.NewInt(255), pow(64), odd(64), odd(512), pow(1024), new(big.Int).Neg(good.N), odd(2047), odd(16384), odd(16392), odd(400000), good.N} {
		for _, e := range []*big.Int{big.NewInt(0), one, big.NewInt(-1), big.NewInt(2), big.NewInt(3), big.NewInt(65537), odd(31), pow(31), odd(62), odd(63), pow(64), odd(200000)} {
			add(fmt.Sprintf("rsa n of %d*%d bits, e of %d*%d", n.Sign(), n.BitLen(), e.Sign(), e.BitLen()), gen.Seq(gen.AlgID("1.2.840.113549.1.1.1", gen.Null()), gen.Bits(gen.Seq(gen.BigInt(n), gen.BigInt(e)))))
		}
	}
	d := gen.K("dsa1024-0").Priv.(*dsa.PrivateKey).PublicKey
	for _, par := range []string{"P", "Q", "G", "Y", "PQGY", "PQ", "GY"} {
		for _, v := range []*big.Int{big.NewInt(0), one, big.NewInt(-1), big.NewInt(2), big.NewInt(7), pow(8), odd(160), pow(160), odd(161), odd(2000), new(big.Int).Neg(d.P), new(big.Int).Neg(d.Q), d.P, d.Q, odd(10000), odd(10001), odd(200000)} {
			k := map[string]*big.Int{"P": d.P, "Q": d.Q, "G": d.G, "Y": d.Y}
			for _, c := range par {
				k[string(c)] = v
			}
			add(fmt.Sprintf("dsa %s of %d*%d bits", par, v.Sign(), v.BitLen()), gen.Seq(gen.AlgID("1.2.840.10040.4.1", gen.Seq(gen.BigInt(k["P"]), gen.BigInt(k["Q"]), gen.BigInt(k["G"]))), gen.Bits(gen.BigInt(k["Y"]))))
		}
	}
	ecs := map[string]int{"1.3.132.0.33": 28, "1.2.840.10045.3.1.7": 32, "1.3.132.0.34": 48, "1.3.132.0.35": 66, "1.3.132.0.10": 32, "1.2.3": 32}
	for _, curve := range []string{"1.3.132.0.33", "1.2.840.10045.3.1.7", "1.3.132.0.34", "1.3.132.0.35", "1.3.132.0.10", "1.2.3"} {
		n := ecs[curve]
		for i, pt := range [][]byte{nil, {0}, {4}, append([]byte{4}, many(2*n, 0)...), append([]byte{4}, many(2*n, 0xff)...), append([]byte{4}, many(2*n-1, 1)...), append([]byte{2}, many(n, 1)...), append([]byte{3}, many(n, 0)...), append([]byte{4}, many(100000, 7)...)} {
			add(fmt.Sprintf("ec %s point %d", curve, i), gen.Seq(gen.AlgID("1.2.840.10045.2.1", gen.OID(curve)), gen.Bits(pt)))
		}
	}
	for _, alg := range []string{"1.2.840.113549.1.1.1", "1.2.840.10040.4.1", "1.2.840.10045.2.1", "1.3.101.112", "1.3.101.110", "1.2.3.4"} {
		for i, par := range [][]byte{nil, gen.Null(), gen.Seq(), gen.Int(1), gen.OID("1.2.3"), gen.Seq(gen.Int(1)), gen.Octets(nil)} {
			for j, key := range [][]byte{nil, {0}, gen.Int(5), gen.Seq(), gen.Seq(gen.Int(1)), many(32, 1), gen.Null()} {
				add(fmt.Sprintf("%s parameters %d key %d", alg, i, j), gen.Seq(gen.AlgID(alg, par), gen.Bits(key)))
			}
		}
	}
	for _, k := range gen.Names() {
		add(k, gen.K(k).SPKI)
	}
	return
})

// c12Sigs are signatures to go with them.
func c12Sigs() [][]byte {
	l := [][]byte{nil, {0}, many(128, 1), many(128, 0), many(128, 0xff), many(20000, 7)}
	big1 := new(big.Int).Lsh(big.NewInt(1), 100000)
	for _, r := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1), big1} {
		for _, s := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-2), big1} {
			l = append(l, gen.Seq(gen.BigInt(r), gen.BigInt(s)))
		}
	}
	return append(l, gen.Seq(), gen.Seq(gen.Int(1)), gen.Seq(gen.Int(1), gen.Int(1), gen.Int(1)), gen.Octets(many(30, 1)))
}

var c12Places = []string{"v1", "v2", "v3", "stamp", "lineage"}

func c12Key(c *mc.Ctx) {
	where := c12Places[c.Choose("where", len(c12Places))]
	key := c12Keys()[c.Choose("key", len(c12Keys()))]
	name, spki := key[0].(string), key[1].([]byte)
	c.Label("%s, %s", where, name)
	c.State([]byte(where), []byte(name))
	nm := gen.CN("x")
	crt := gen.CertSpec{Subject: nm, Issuer: nm, Key: gen.EC(0), RawSPKI: spki}.DER()
	algs := append([]uint32{0, 0x105, 0x411, 0x423, 0x425}, gen.AllAlgs...)
	sigs := c12Sigs()
	hashes, encs := []crypto.Hash{crypto.MD5, crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA512}, []string{"", "1.2.840.113549.1.1.1", "1.2.840.10040.4.1", "1.2.840.10045.2.1", "1.2.840.10045.4.3.2", "1.2.840.10040.4.3", "1.2.840.113549.1.1.11"}
	if !c.Deep() {
		hashes, encs = []crypto.Hash{crypto.MD5, crypto.SHA1, crypto.SHA256}, encs[:4]
		algs = []uint32{0, 0x101, 0x103, 0x104, 0x201, 0x202, 0x301, 0x421}
		if !strings.HasPrefix(name, "dsa") {
			sigs = sigs[:5]
		}
	}
	try := func(what string, apk []byte) {
		c12Do(c, len(apk), func() string { return fmt.Sprintf("%s, %s, %s", where, name, what) }, func() string { return c12APK(apk, c.Deep()) })
	}
	for i, sig := range sigs {
		if where == "v1" {
			for _, h := range hashes {
				for _, e := range encs {
					z := &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: c12App()}}}
					m := gen.MakeManifest("SHA1", z.Entries)
					apk := signV1(z, m, "SHA1", v1Signer{Key: gen.K("rsa1024-0"), Make: func(b []byte) ([]byte, func(min, max int32) (bool, [][]byte)) {
						si := gen.SignerOf{Key: gen.K("rsa1024-0"), Cert: crt, Hash: h, EncOID: e, Attrs: i%2 == 0}.Make(b)
						si.Sig = sig
						return gen.P7Spec{Certs: [][]byte{crt}, Signers: []*gen.SI{si}}.DER(), nil
					}}).Zip.Build().Assemble(nil)
					try(fmt.Sprintf("%v %s signature %d", h, e, i), apk)
				}
			}
			continue
		}
		for _, alg := range algs {
			var apk []byte
			forge := func(r *gen.SignerRec) { r.Sigs = []gen.AlgBytes{{Alg: alg, Bytes: sig}}; r.PubKey = spki }
			spec := gen.SignerSpec{Key: gen.EC(0), Certs: [][]byte{crt}, Min: 28, Max: 0x7fffffff, PreSign: func(r *gen.SignerRec) { r.Digests[0].Alg = alg }, PostSign: forge}
			switch where {
			case "v2":
				apk = tinySec.Assemble(gen.EncodeBlock(gen.V2(tinySec, spec)))
			case "v3":
				apk = tinySec.Assemble(gen.EncodeBlock(gen.V3(tinySec, spec)))
			case "stamp":
				b := c15Base(1, sha(crt))
				rec := gen.StampSpec{Key: gen.EC(0), Cert: crt, Over: b.over, Attrs: []gen.Attr{timeAttr(1)}}.Rec()
				for i := range rec.Schemes {
					rec.Schemes[i].Sigs = []gen.AlgBytes{{Alg: alg, Bytes: sig}}
				}
				apk = b.sec.Assemble(gen.EncodeBlock(append(slices.Clone(b.pairs), rec.Pair())...))
			case "lineage":
				line := gen.MakeLineage(gen.EC(1), gen.EC(2), gen.EC(3))
				line[1].Cert, line[0].Alg, line[1].ParentAlg = crt, gen.DefaultAlg(gen.EC(1)), gen.DefaultAlg(gen.EC(1))
				line[1].Sig = gen.EC(1).SignAlg(line[0].Alg, line[1].SignedPart())
				line[1].Alg, line[2].ParentAlg, line[2].Sig = alg, alg, sig
				apk = tinySec.Assemble(gen.EncodeBlock(gen.V3(tinySec, gen.SignerSpec{Key: gen.EC(3), Min: 28, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(line)}})))
			}
			try(fmt.Sprintf("algorithm %#x signature %d", alg, i), apk)
		}
	}
}

func c12App() []byte {
	return gen.ManifestSpec{MinSDK: gen.IV(16), TargetSDK: gen.IV(28)}.AXML()
}

// ---- many of everything

type c12Scale struct {
	name string
	p7   bool
	big  int // elements in the quick tier
	make func(n int) []byte
}

func many(n int, b ...byte) []byte { return bytes.Repeat(b, n) }

func c12Main() string { return "Manifest-Version: 1.0\r\n\r\n" }

var c12Scales = sync.OnceValue(func() []c12Scale {
	var l []c12Scale
	add := func(name string, n int, f func(n int) []byte) {
		l = append(l, c12Scale{name: name, big: n, make: f})
	}
	block := func(pairs ...gen.Pair) []byte { return tinySec.Assemble(gen.EncodeBlock(pairs...)) }
	k := gen.EC(1)
	alg := gen.DefaultAlg(k)
	// signing block
	add("pairs", 100000, func(n int) []byte {
		var ps []gen.Pair
		for i := 0; i < n; i++ {
			ps = append(ps, gen.Pair{ID: uint32(i + 1), Val: nil})
		}
		return block(append(ps, gen.V2(tinySec, gen.SignerSpec{Key: k}))...)
	})
	add("pairs of one id", 100000, func(n int) []byte {
		p := gen.V2(tinySec, gen.SignerSpec{Key: k})
		ps := []gen.Pair{p}
		for i := 0; i < n; i++ {
			ps = append(ps, gen.Pair{ID: []uint32{gen.IDV2, gen.IDV3, gen.IDV31, gen.IDStampV2, gen.IDFrosting}[i%5], Val: []byte{1}})
		}
		return block(ps...)
	})
	for _, id := range []uint32{gen.IDV2, gen.IDV3, gen.IDV31, gen.IDStampV2, gen.IDFrosting} {
		add(fmt.Sprintf("empty signers %x", id), 300000, func(n int) []byte {
			return block(gen.Pair{ID: id, Val: gen.LP(many(n, 0, 0, 0, 0))})
		})
		add(fmt.Sprintf("zeros %x", id), 1000000, func(n int) []byte { return block(gen.Pair{ID: id, Val: many(n, 0)}) })
		add(fmt.Sprintf("ones %x", id), 1000000, func(n int) []byte { return block(gen.Pair{ID: id, Val: many(n, 1)}) })
		add(fmt.Sprintf("nested lengths %x", id), 250000, func(n int) []byte {
			b := make([]byte, 0, 4*n)
			for i := 0; i < n; i++ {
				b = append(b, gen.LE32(uint32(4*(n-i-1)))...)
			}
			return block(gen.Pair{ID: id, Val: b})
		})
	}
	add("v2 signers", 3000, func(n int) []byte {
		s := gen.SignerSpec{Key: k}.Build(tinySec, false)
		return block(gen.Pair{ID: gen.IDV2, Val: gen.SchemeBlock(slices.Repeat([][]byte{s}, n)...)})
	})
	add("v3 signers", 3000, func(n int) []byte {
		var ss [][]byte
		for i := 0; i < n; i++ {
			ss = append(ss, gen.SignerSpec{Key: k, Min: uint32(28 + i), Max: uint32(28 + i)}.Build(tinySec, true))
		}
		return block(gen.Pair{ID: gen.IDV3, Val: gen.SchemeBlock(ss...)})
	})
	edited := func(f func(r *gen.SignerRec), post func(r *gen.SignerRec)) []byte {
		return block(gen.V2(tinySec, gen.SignerSpec{Key: k, PreSign: f, PostSign: post}))
	}
	add("digests", 60000, func(n int) []byte {
		return edited(func(r *gen.SignerRec) { r.Digests = slices.Repeat(r.Digests[:1], n) }, func(r *gen.SignerRec) { r.Sigs = slices.Repeat(r.Sigs[:1], n) })
	})
	add("unknown digests and signatures", 60000, func(n int) []byte {
		return edited(func(r *gen.SignerRec) {
			for i := 0; i < n; i++ {
				r.Digests = append(r.Digests, gen.AlgBytes{Alg: uint32(0x10000 + i)})
			}
		}, func(r *gen.SignerRec) {
			for i := 0; i < n; i++ {
				r.Sigs = append(r.Sigs, gen.AlgBytes{Alg: uint32(0x10000 + i)})
			}
		})
	})
	add("signatures", 60000, func(n int) []byte {
		return edited(nil, func(r *gen.SignerRec) { r.Sigs = slices.Repeat(r.Sigs[:1], n) })
	})
	add("certificates", 3000, func(n int) []byte {
		return edited(func(r *gen.SignerRec) { r.Certs = slices.Repeat(r.Certs[:1], n) }, nil)
	})
	add("attributes", 100000, func(n int) []byte {
		return edited(func(r *gen.SignerRec) {
			for i := 0; i < n; i++ {
				r.Attrs = append(r.Attrs, gen.Attr{ID: uint32(i), Val: nil})
			}
		}, nil)
	})
	add("lineage", 2000, func(n int) []byte {
		var nodes []gen.LineageNode
		for i := 0; i < n; i++ {
			key := gen.EC(i % 2)
			nm := gen.CN(fmt.Sprint(i))
			node := gen.LineageNode{Cert: gen.CertSpec{Subject: nm, Issuer: nm, Key: key}.DER(), Alg: alg, Flags: 23}
			if i > 0 {
				node.ParentAlg = alg
				node.Sig = gen.EC((i-1)%2).SignAlg(alg, node.SignedPart())
			}
			nodes = append(nodes, node)
		}
		return block(gen.V3(tinySec, gen.SignerSpec{Key: gen.EC((n - 1) % 2), Certs: [][]byte{nodes[n-1].Cert}, Min: 28, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(nodes)}}))
	})
	add("lineage of one certificate", 3000, func(n int) []byte {
		nodes := gen.MakeLineage(gen.EC(1), gen.EC(1))
		for len(nodes) < n {
			nodes = append(nodes, nodes[1])
		}
		return block(gen.V3(tinySec, gen.SignerSpec{Key: k, Min: 28, Max: 0x7fffffff, Attrs: []gen.Attr{gen.RotAttr(nodes)}}))
	})
	add("rotation attributes", 20000, func(n int) []byte {
		var at []gen.Attr
		for i := 0; i < n; i++ {
			at = append(at, gen.Attr{ID: []uint32{gen.AttrRotMinSDK, gen.AttrRotation}[i%2], Val: gen.LE32(1)})
		}
		return block(gen.V3(tinySec, gen.SignerSpec{Key: k, Min: 28, Max: 0x7fffffff, Attrs: at}))
	})
	stamp := func(f func(*gen.StampRec)) []byte {
		b := c15Base(1, sha(gen.SelfCert(gen.EC(8))))
		rec := gen.StampSpec{Key: gen.EC(8), Over: b.over, With: true, Attrs: []gen.Attr{timeAttr(1)}}.Rec()
		f(rec)
		return b.sec.Assemble(gen.EncodeBlock(append(slices.Clone(b.pairs), rec.Pair())...))
	}
	add("stamp schemes", 60000, func(n int) []byte {
		return stamp(func(r *gen.StampRec) {
			for i := 0; i < n; i++ {
				r.Schemes = append(r.Schemes, gen.StampScheme{ID: uint32(i)})
			}
		})
	})
	add("stamp signatures", 60000, func(n int) []byte {
		return stamp(func(r *gen.StampRec) {
			for i := range r.Schemes {
				r.Schemes[i].Sigs = slices.Repeat(r.Schemes[i].Sigs[:1], n)
			}
			r.AttrSigs = slices.Repeat(r.AttrSigs[:1], n)
		})
	})
	add("stamp attributes", 60000, func(n int) []byte {
		return stamp(func(r *gen.StampRec) {
			var at []gen.Attr
			for i := 0; i < n; i++ {
				at = append(at, gen.Attr{ID: uint32(i)})
			}
			r.AttrData = gen.EncAttrs(at)
			r.AttrSigs = []gen.AlgBytes{{Alg: alg, Bytes: gen.EC(8).SignAlg(alg, r.AttrData)}}
		})
	})
	fb := c16Bases[1]
	add("frosting metadata", 30000, func(n int) []byte {
		f := gen.FrostSpec{Proto: many(n, 7)}
		for i := 0; i < n; i++ {
			f.Metas = append(f.Metas, gen.FrostMeta{Sha: fb.digest})
		}
		return fb.with(f.Encode())
	})
	// JAR files
	jar := func(mf string, sf string, more ...*gen.Entry) []byte {
		z := &gen.Zip{Entries: []*gen.Entry{{Name: "a", Data: []byte("a")}, {Name: "META-INF/MANIFEST.MF", Data: []byte(mf)}}}
		if sf != "" {
			key := gen.K("rsa1024-0")
			si := gen.SignerOf{Key: key, Cert: gen.SelfCert(key), Hash: crypto.SHA1}.Make([]byte(sf))
			z.Entries = append(z.Entries, &gen.Entry{Name: "META-INF/C.SF", Data: []byte(sf)}, &gen.Entry{Name: "META-INF/C.RSA", Data: gen.P7Spec{Certs: [][]byte{gen.SelfCert(key)}, Signers: []*gen.SI{si}}.DER()})
		}
		z.Entries = append(z.Entries, more...)
		return z.Build().Assemble(nil)
	}
	sfMain := func(mf string) string {
		return "Signature-Version: 1.0\r\nSHA1-Digest-Manifest: " + gen.B64Hash(crypto.SHA1, []byte(mf)) + "\r\n\r\n"
	}
	sections := func(n int, body string) string {
		var b strings.Builder
		b.WriteString(c12Main())
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "Name: f%d\r\n%s\r\n", i, body)
		}
		return b.String()
	}
	add("manifest sections", 60000, func(n int) []byte {
		mf := sections(n, "SHA1-Digest: AAAAAAAAAAAAAAAAAAAAAAAAAAA=\r\n")
		return jar(mf, sfMain(mf))
	})
	add("signature file sections", 60000, func(n int) []byte {
		mf := c12Main()
		return jar(mf, strings.Replace(sections(n, "SHA1-Digest: AAAAAAAAAAAAAAAAAAAAAAAAAAA=\r\n"), c12Main(), "Signature-Version: 1.0\r\nSHA1-Digest-Manifest: AAAA\r\n\r\n", 1))
	})
	add("manifest and signature file sections", 30000, func(n int) []byte {
		mf := sections(n, "SHA1-Digest: AAAAAAAAAAAAAAAAAAAAAAAAAAA=\r\n")
		dig := gen.B64Hash(crypto.SHA1, []byte("Name: f0\r\nSHA1-Digest: AAAAAAAAAAAAAAAAAAAAAAAAAAA=\r\n\r\n"))
		return jar(mf, strings.Replace(sections(n, "SHA1-Digest: "+dig+"\r\n"), c12Main(), "Signature-Version: 1.0\r\nSHA1-Digest-Manifest: AAAA\r\n\r\n", 1))
	})
	add("signed entries", 20000, func(n int) []byte {
		var es []*gen.Entry
		for i := 0; i < n; i++ {
			es = append(es, &gen.Entry{Name: fmt.Sprint("f", i), Data: []byte("x")})
		}
		mf := sections(n, "SHA1-Digest: "+gen.B64Hash(crypto.SHA1, []byte("x"))+"\r\n") + "Name: a\r\nSHA1-Digest: " + gen.B64Hash(crypto.SHA1, []byte("a")) + "\r\n\r\n"
		return jar(mf, sfMain(mf), es...)
	})
	text := func(name, one string, n int, front string) {
		add("manifest: "+name, n, func(n int) []byte { mf := front + strings.Repeat(one, n) + "\r\n\r\n"; return jar(mf, sfMain(mf)) })
		add("signature file: "+name, n, func(n int) []byte {
			return jar(c12Main(), strings.Replace(front, "Manifest-Version", "Signature-Version", 1)+strings.Repeat(one, n)+"\r\n\r\n")
		})
	}
	text("attributes", "A: b\r\n", 300000, c12Main()[:23])
	text("continuation lines", "\r\n x", 500000, "Manifest-Version: 1.0")
	text("empty continuation lines", "\r\n ", 500000, "Manifest-Version: 1.0")
	text("continued name", "\r\n x", 300000, c12Main()+"Name: n")
	text("empty lines", "\r\n", 1000000, c12Main())
	text("returns", "\r", 1000000, c12Main())
	text("newlines", "\n", 1000000, c12Main())
	text("spaces", " ", 2000000, c12Main())
	text("colons", ":", 2000000, c12Main())
	text("a long line", "x", 2000000, c12Main()+"Name: ")
	text("unnamed sections", "A: b\r\n\r\n", 100000, c12Main())
	text("same sections", "Name: a\r\nA: b\r\n\r\n", 100000, c12Main())
	text("schemes", "2, ", 500000, "Manifest-Version: 1.0\r\nX-Android-APK-Signed: ")
	text("digests", "SHA1-Digest-Manifest: AAAA\r\n", 50000, c12Main()[:23])
	text("algorithms", "SHA1 ", 300000, c12Main()+"Name: a\r\nDigest-Algorithms: ")
	add("signers", 500, func(n int) []byte {
		mf := c12Main() + "Name: a\r\nSHA1-Digest: " + gen.B64Hash(crypto.SHA1, []byte("a")) + "\r\n\r\n"
		sf := sfMain(mf)
		key := gen.K("rsa1024-0")
		si := gen.SignerOf{Key: key, Cert: gen.SelfCert(key), Hash: crypto.SHA1}.Make([]byte(sf))
		p7 := gen.P7Spec{Certs: [][]byte{gen.SelfCert(key)}, Signers: []*gen.SI{si}}.DER()
		var es []*gen.Entry
		for i := 0; i < n; i++ {
			es = append(es, &gen.Entry{Name: fmt.Sprintf("META-INF/S%d.SF", i), Data: []byte(sf)}, &gen.Entry{Name: fmt.Sprintf("META-INF/S%d.RSA", i), Data: p7})
		}
		return jar(mf, "", es...)
	})
	add("signature blocks without files", 20000, func(n int) []byte {
		var es []*gen.Entry
		for i := 0; i < n; i++ {
			es = append(es, &gen.Entry{Name: fmt.Sprintf("META-INF/S%d.RSA", i), Data: []byte("x")})
		}
		return jar(c12Main(), sfMain(c12Main()), es...)
	})
	add("entries of one name", 20000, func(n int) []byte {
		var es []*gen.Entry
		for i := 0; i < n; i++ {
			es = append(es, &gen.Entry{Name: "b", Data: []byte("x")}, &gen.Entry{Name: "META-INF/MANIFEST.MF", Data: []byte("x")})
		}
		return jar(c12Main(), sfMain(c12Main()), es...)
	})
	add("long names", 60, func(n int) []byte {
		var es []*gen.Entry
		for i := 0; i < n; i++ {
			es = append(es, &gen.Entry{Name: fmt.Sprint(i) + strings.Repeat("/../x", 13000), Data: []byte("x")})
		}
		return jar(c12Main(), sfMain(c12Main()), es...)
	})
	// PKCS#7, alone
	p7 := func(name string, n int, f func(n int) []byte) {
		l = append(l, c12Scale{name: "PKCS#7: " + name, p7: true, big: n, make: f})
	}
	rk := gen.K("rsa1024-0")
	good := gen.SignerOf{Key: rk, Cert: gen.SelfCert(rk), Hash: crypto.SHA1, Attrs: true}
	sd := func(dig, certs, sis []byte) []byte {
		return gen.Seq(gen.OID(gen.OIDSignedData), gen.TLV(0xa0, gen.Seq(gen.Int(1), gen.Set(dig), gen.Seq(gen.OID(gen.OIDData)), gen.TLV(0xa0, certs), gen.Set(sis))))
	}
	text1 := []byte("x")
	sha1Alg := gen.AlgID(gen.DigestOIDs[crypto.SHA1], gen.Null())
	p7("digest algorithms", 100000, func(n int) []byte {
		return sd(many(n, sha1Alg...), gen.SelfCert(rk), good.Make(text1).Enc())
	})
	p7("certificates", 3000, func(n int) []byte {
		return sd(sha1Alg, many(n, gen.SelfCert(rk)...), good.Make(text1).Enc())
	})
	p7("signers", 5000, func(n int) []byte {
		return sd(sha1Alg, gen.SelfCert(rk), many(n, good.Make(nil).Enc()...))
	})
	p7("certificates and signers", 2000, func(n int) []byte {
		var certs []byte
		for i := 0; i < n; i++ {
			nm := gen.CN(fmt.Sprint(i))
			certs = append(certs, gen.CertSpec{Subject: nm, Issuer: nm, Key: gen.EC(0)}.DER()...)
		}
		return sd(sha1Alg, gen.Cat(certs, gen.SelfCert(rk)), many(n, good.Make(nil).Enc()...))
	})
	p7("attributes", 60000, func(n int) []byte {
		of := good
		for i := 0; i < n; i++ {
			of.Extra = append(of.Extra, gen.P7Attr{OID: fmt.Sprintf("1.2.%d", n-i), Vals: gen.Int(1)})
		}
		return sd(sha1Alg, gen.SelfCert(rk), of.Make(text1).Enc())
	})
	p7("attribute values", 300000, func(n int) []byte {
		of := good
		of.Extra = []gen.P7Attr{{OID: "1.2.3", Vals: many(n, 2, 1, 1)}}
		return sd(sha1Alg, gen.SelfCert(rk), of.Make(text1).Enc())
	})
	p7("long numbers", 1000000, func(n int) []byte { return sd(gen.TLV(6, many(n, 0x81)), many(n, 2, 1, 1), gen.TLV(2, many(n, 0x7f))) })
	p7("identifier", 1000000, func(n int) []byte { return gen.Seq(gen.TLV(6, append(many(n, 0x81), 1)), gen.TLV(0xa0)) })
	p7("short identifier arcs", 1000000, func(n int) []byte { return gen.Seq(gen.TLV(6, many(n, 1)), gen.TLV(0xa0)) })
	p7("serial number", 1000000, func(n int) []byte {
		nm := gen.CN("x")
		crt := a19Parse(gen.CertSpec{Subject: nm, Issuer: nm, Key: gen.EC(0)}.DER())
		crt.kids[0].kids[1].content = append([]byte{1}, many(n, 7)...)
		return sd(sha1Alg, crt.encode(), good.Make(text1).Enc())
	})
	p7("name parts", 60000, func(n int) []byte {
		nm := gen.CN("x")
		crt := a19Parse(gen.CertSpec{Subject: nm, Issuer: nm, Key: gen.EC(0)}.DER())
		name := crt.kids[0].kids[5]
		for i := 0; i < n; i++ {
			name.kids = append(name.kids, name.kids[0])
		}
		return sd(sha1Alg, crt.encode(), good.Make(text1).Enc())
	})
	p7("extensions", 30000, func(n int) []byte {
		nm := gen.CN("x")
		var ext []byte
		for i := 0; i < n; i++ {
			ext = append(ext, gen.Seq(gen.OID(fmt.Sprintf("1.2.3.%d", i)), gen.Octets(nil))...)
		}
		return sd(sha1Alg, gen.CertSpec{Subject: nm, Issuer: nm, Key: gen.EC(0), Exts: ext}.DER(), good.Make(text1).Enc())
	})
	p7("general names", 100000, func(n int) []byte {
		nm := gen.CN("x")
		var out []byte
		for _, o := range []string{"2.5.29.17", "2.5.29.18", "2.5.29.30", "2.5.29.31", "2.5.29.32", "2.5.29.37", "1.3.6.1.5.5.7.1.1"} {
			body := gen.Seq(many(n, 0x82, 1, 'a'))
			if o == "2.5.29.30" {
				body = gen.Seq(gen.TLV(0xa0, many(n, 0x30, 3, 0x82, 1, 'a')))
			}
			if o == "2.5.29.37" {
				body = gen.Seq(many(n, 6, 1, 42))
			}
			out = append(out, gen.CertSpec{Subject: nm, Issuer: nm, Key: gen.EC(0), Exts: gen.Seq(gen.OID(o), gen.Octets(body))}.DER()...)
		}
		return sd(sha1Alg, out, good.Make(text1).Enc())
	})
	p7("octet string parts", 300000, func(n int) []byte {
		return gen.Seq(gen.OID(gen.OIDSignedData), gen.TLV(0xa0, gen.Seq(gen.Int(1), gen.Set(sha1Alg), gen.Seq(gen.OID(gen.OIDData), gen.TLV(0xa0, gen.TLV(0x24, many(n, 4, 1, 'x')))), gen.TLV(0xa0, gen.SelfCert(rk)), gen.Set(good.Make(many(n, 'x')).Enc()))))
	})
	p7("encrypted parts", 300000, func(n int) []byte {
		return c21Env{oid: c21Ciphers[2].oid, to: []string{"rsa1024-0"}, key: c21Content(16), params: gen.Octets(c21Content(16)), body: gen.TLV(0xa0, many(n, 4, 1, 'x'))}.DER()
	})
	p7("recipients", 3000, func(n int) []byte {
		return c21Env{oid: c21Ciphers[2].oid, to: slices.Repeat([]string{"rsa1024-1"}, n), key: c21Content(16), params: gen.Octets(c21Content(16)), body: c21Parts(c21Content(16))[0]}.DER()
	})
	for _, tag := range []byte{0x30, 0x31, 0x24, 0xa0, 0x23} {
		p7(fmt.Sprintf("indefinite nesting %x", tag), 500000, func(n int) []byte { return gen.Cat(many(n, tag, 0x80), many(2*n, 0)) })
		p7(fmt.Sprintf("open nesting %x", tag), 500000, func(n int) []byte { return many(n, tag, 0x80) })
		p7(fmt.Sprintf("definite nesting %x", tag), 120000, func(n int) []byte {
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, tag, 0x83, byte(5*(n-i-1)>>16), byte(5*(n-i-1)>>8), byte(5*(n-i-1)))
			}
			return b
		})
		p7(fmt.Sprintf("shallow nesting %x", tag), 10000, func(n int) []byte {
			b := many(n*50, 4, 1, 'x')
			for i := 0; i < 100; i++ {
				if i%2 == 0 {
					b = gen.TLV(tag, b)
				} else {
					b = gen.Cat([]byte{tag, 0x80}, b, []byte{0, 0})
				}
			}
			return b
		})
		p7(fmt.Sprintf("empty values %x", tag), 500000, func(n int) []byte { return gen.TLV(0x30, many(n, tag, 0)) })
		p7(fmt.Sprintf("empty indefinite values %x", tag), 200000, func(n int) []byte { return gen.TLV(0x30, many(n, tag, 0x80, 0, 0)) })
	}
	p7("tag", 1000000, func(n int) []byte { return gen.Cat([]byte{0x3f}, many(n, 0x81), []byte{1, 0}) })
	p7("length", 1000000, func(n int) []byte { return gen.Cat([]byte{0x30, 0xfe}, many(n, 0)) })
	return l
})

func c12Many(c *mc.Ctx) {
	all := c12Scales()
	s := &all[c.Choose("what", len(all))]
	n := s.big
	switch c.Choose("how many", 3) {
	case 0:
		n = 1
	case 1:
		n = 300
	case 2:
		if c.Deep() {
			n *= 3
		}
	}
	c.Label("%s x %d", s.name, n)
	b := s.make(n)
	c.State([]byte(s.name), gen.LE32(uint32(n)))
	run := func(b []byte) string {
		if s.p7 {
			return c12P7(b)
		}
		return c12APK(b, c.Deep())
	}
	t := time.Now()
	c12Do(c, len(b), func() string { return fmt.Sprintf("%s x %d", s.name, n) }, func() string { return run(b) })
	if time.Since(t) < 700*time.Millisecond || len(c.Fails()) > 0 || n < 1000 {
		return
	}
	// long: is it out of proportion?
	small := s.make(n / 8)
	c12Lock.Lock()
	defer c12Lock.Unlock()
	cpu := func(b []byte) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			runtime.GC()
			t := c12CPU()
			run(b)
			best = min(best, c12CPU()-t)
		}
		return best
	}
	if all := cpu(b); all > 1500*time.Millisecond {
		if part := cpu(small); all > 24*part {
			c.Failf("%s: %d take %v, %d take %v of processor time", s.name, n, all, n/8, part)
		}
	}
}

func init() {
	workers["c12axml"] = c12Worker
	register(&Check{ID: "C12", Spaces: []*mc.Space{
		{Name: "many", Doc: "every list, nesting, number and line of the formats 1, 300 and up to 10^6 long", Run: c12Many},
		{Name: "keys", Doc: "public keys of every type with impossible numbers and of wrong types, at every place of a key, with every algorithm and malformed signatures", Run: c12Key},
		{Name: "issuers", Doc: "v1 signatures with 2-3 (thorough 4) certificates naming one another as issuers in every way", Run: c12Issuers},
		{Name: "binary manifest", Doc: "the same edits of AndroidManifest.xml, in processes of limited memory", Run: c12Binary},
		{Name: "mutate", Doc: "signed files of every scheme and, signed again, the structures inside: bytes changed, removed, inserted, cut, 4- and 8-byte fields at the limits, at every position", Run: c12Mutate},
	}})
}
