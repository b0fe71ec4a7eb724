package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/avast/apkparser"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/zzverif/gen"
	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
	"github.com/avast/apkverifier/zzverif/sched"
)

// c14Corpus adds files in which many things can be processed in several orders.
var c14Corpus = sync.OnceValue(func() []sample {
	l := append([]sample(nil), corpus()...)
	add := func(name string, apk []byte) { l = append(l, sample{name: name, apk: apk, min: anyMin, max: anyMax}) }
	old := gen.ManifestSpec{MinSDK: gen.IV(16), TargetSDK: gen.IV(28)}
	z := func(names ...string) *gen.Zip {
		z := &gen.Zip{Entries: []*gen.Entry{{Name: "AndroidManifest.xml", Data: old.AXML()}}}
		for _, n := range names {
			z.Entries = append(z.Entries, &gen.Entry{Name: n, Data: []byte(n)})
		}
		return z
	}
	three := []v1Signer{{Key: gen.K("rsa1024-0"), Base: "B"}, {Key: gen.EC(0), Base: "A"}, {Key: gen.K("dsa1024-0"), Base: "C", Attrs: true}}
	add("v1 by three", signV1(z("a", "b"), nil, "SHA1", three...).Zip.Build().Assemble(nil))
	sub := append([]v1Signer(nil), three...)
	for i, n := range []string{"a", "b"} {
		sub[i].SF.Filter = func(name string) bool { return name != n }
	}
	add("v1 by three, signing different entries", signV1(z("a", "b"), nil, "SHA1", sub...).Zip.Build().Assemble(nil))
	two := append([]v1Signer(nil), three...)
	two[2].SF.Filter = func(name string) bool { return false }
	add("v1 by three, one signing nothing", signV1(z("a", "b"), nil, "SHA1", two...).Zip.Build().Assemble(nil))
	bad := append([]v1Signer(nil), three...)
	bad[1].Bad = true
	add("v1 by three, one bad", signV1(z("a", "b"), nil, "SHA1", bad...).Zip.Build().Assemble(nil))
	w := signV1(z("a", "b", "c", "d"), nil, "SHA1", three[0])
	w.Zip.Find("b").Data = []byte("x")
	add("v1 altered", w.Zip.Build().Assemble(nil))
	w = signV1(z("a", "./a", "b", "b/"), nil, "SHA1", three[0])
	add("v1 with colliding names", w.Zip.Build().Assemble(nil))

	stampKey := gen.K("rsa2048-0")
	b := c15Base(5, sha(gen.SelfCert(stampKey)))
	rec := gen.StampSpec{Key: stampKey, Algs: []uint32{gen.AlgRSA256, gen.AlgPSS256, gen.AlgRSA512, gen.AlgPSS512}, Over: b.over, Attrs: []gen.Attr{timeAttr(7)}}.Rec()
	for i := 0; i < 4; i++ {
		bad := gen.StampSpec{Key: stampKey, Algs: []uint32{gen.AlgRSA256, gen.AlgPSS256, gen.AlgRSA512, gen.AlgPSS512}, Over: b.over, Attrs: []gen.Attr{timeAttr(7)}}.Rec()
		for j := range bad.Schemes {
			bad.Schemes[j].Sigs[i].Bytes = flipIn(bad.Schemes[j].Sigs[i].Bytes, 9)
		}
		add(fmt.Sprintf("stamp with signature %d of 4 bad", i), b.sec.Assemble(gen.EncodeBlock(append(append([]gen.Pair(nil), b.pairs...), bad.Pair())...)))
	}
	for i := 0; i < 2; i++ { // equally strong, only one of them can be right
		b := c15Base(1, sha(gen.SelfCert(stampKey)))
		rec := gen.StampSpec{Key: stampKey, Algs: []uint32{gen.AlgRSA256}, Over: b.over, Attrs: []gen.Attr{timeAttr(7)}}.Rec()
		for j := range rec.Schemes {
			l := []gen.AlgBytes{rec.Schemes[j].Sigs[0], {Alg: gen.AlgDSA256, Bytes: []byte("x")}}
			rec.Schemes[j].Sigs = []gen.AlgBytes{l[i], l[1-i]}
		}
		add(fmt.Sprintf("stamp with a signature for another key, %d", i), b.sec.Assemble(gen.EncodeBlock(append(append([]gen.Pair(nil), b.pairs...), rec.Pair())...)))
	}
	add("stamp with four signatures", b.sec.Assemble(gen.EncodeBlock(append(append([]gen.Pair(nil), b.pairs...), rec.Pair())...)))
	return l
})

var c14Ranges = [][2]int32{{anyMin, anyMax}, {16, 23}, {28, anyMax}}

type mapOrder struct{ c *mc.Ctx }

func (h mapOrder) Yield() {}

// Order: all permutations of up to 4 keys, rotations of more, forwards and backwards.
func (h mapOrder) Order(n int) []int {
	if n <= 4 {
		ps := perms(n)
		return ps[h.c.Dev("map order", len(ps))]
	}
	k := h.c.Dev("map order", 2*n)
	p := make([]int, n)
	for i := range p {
		p[i] = (i + k/2) % n
		if k%2 == 1 {
			p[i] = n - 1 - p[i]
		}
	}
	return p
}

var perms = func() func(n int) [][]int {
	var all [5][][]int
	var rec func(pre []int, n int) [][]int
	rec = func(pre []int, n int) (out [][]int) {
		if len(pre) == n {
			return [][]int{append([]int(nil), pre...)}
		}
		for i := 0; i < n; i++ {
			used := false
			for _, x := range pre {
				used = used || x == i
			}
			if !used {
				out = append(out, rec(append(pre, i), n)...)
			}
		}
		return
	}
	for n := range all {
		all[n] = rec(nil, n)
	}
	return func(n int) [][]int { return all[n] }
}()

type sortedOrder struct{}

func (sortedOrder) Order(n int) []int { return nil }
func (sortedOrder) Yield()            {}

func with(h sched.Hook, f func() impl.Outcome) (o impl.Outcome) {
	sched.With(h, func() { o = f() })
	return
}

// c14Orders: every order of iteration over every map.
func c14Orders(c *mc.Ctx) {
	l := c14Corpus()
	i := c.Choose("file", len(l))
	a := c13Apis[c.Choose("api", 3)]
	r := c14Ranges[c.Choose("range", len(c14Ranges))]
	s := l[i]
	if s.big {
		c.Skip()
	}
	s.min, s.max = r[0], r[1]
	c.Label("%s, %s", s.name, a.name)
	run := func(h sched.Hook) impl.Outcome {
		return with(h, func() impl.Outcome { return a.on(s, &faulty{}, true) })
	}
	want := c14Keys.get(fmt.Sprint("orders", i, a.name, r), func() string { return run(sortedOrder{}).Key() })
	o := run(mapOrder{c})
	c.Trace(1)
	c.State([]byte(fmt.Sprint(i, a.name, r, c.Spent())), []byte(c.Describe()))
	if k := o.Key(); k != want {
		c.Failf("another order of iteration over a map changes the outcome from [%s] to [%s %s]", want, k, o.Err)
	}
}

var c14Keys = newCache[string, string]()

// c14Repeat: the same call again and again with the runtime's own map order.
func c14Repeat(c *mc.Ctx) {
	l := c14Corpus()
	i := c.Choose("file", len(l))
	s := l[i]
	a := c13Apis[c.Choose("api", len(c13Apis))]
	c.Label("%s, %s", s.name, a.name)
	n := 8
	if c.Deep() {
		n = 60
	}
	if s.big {
		n = 2
	}
	c.State([]byte(fmt.Sprint(i, a.name)))
	first := a.on(s, &faulty{}, true)
	k0 := first.Key()
	for j := 1; j < n; j++ {
		o := a.on(s, &faulty{}, true)
		c.Trace(1)
		if k := o.Key(); k != k0 {
			c.Failf("run %d of the same call gives [%s %s], the first gave [%s %s]", j+1, k, o.Err, k0, first.Err)
			return
		}
	}
}

// c14Fresh is the outcome in a process that verified nothing else before.
var c14Fresh = sync.OnceValue(func() []string {
	l := c14Corpus()
	out := make([]string, len(l))
	self, _ := os.Executable()
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range l {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			f := filepath.Join(c14Dir(), fmt.Sprintf("%d.apk", i))
			b, err := exec.Command(self, "worker", "c14fresh", f, fmt.Sprint(l[i].min), fmt.Sprint(l[i].max)).Output()
			if err != nil {
				b = []byte(fmt.Sprintf("process failed: %s", err))
			}
			out[i] = string(b)
			<-sem
		}()
	}
	wg.Wait()
	return out
})

func c14FreshWorker(args []string) {
	var min, max int32
	fmt.Sscan(args[1], &min)
	fmt.Sscan(args[2], &max)
	apk, err := os.ReadFile(args[0])
	if err != nil {
		panic(err)
	}
	fmt.Print(impl.Verify(apk, min, max).Key())
}

// c14Histories: every sequence of files verified one after the other, compared with fresh processes.
func c14Histories(c *mc.Ctx) {
	l := c14Corpus()
	fresh := c14Fresh()
	n := 2
	if c.Deep() {
		n = 3
	}
	type done struct {
		i int
		o impl.Outcome
	}
	var hist []done
	seq := []byte{}
	for j := 0; j < n; j++ {
		i := c.Choose("file", len(l))
		if l[i].big && n > 2 {
			c.Skip()
		}
		seq = append(seq, byte(i))
		s := l[i]
		if j == 0 && c.Bool("certificates extracted only") {
			impl.Extract(s.apk)
			continue
		}
		o := impl.Verify(s.apk, s.min, s.max)
		c.Trace(1)
		if k := o.Key(); k != fresh[i] {
			c.Failf("%q verified after others gives [%s %s], in a fresh process [%s]", s.name, k, o.Err, fresh[i])
		}
		hist = append(hist, done{i, o})
	}
	c.State(seq)
	for _, d := range hist { // what was returned earlier is still the same
		if k := d.o.Key(); k != fresh[d.i] {
			c.Failf("the result of %q changed to [%s] while other files were verified", l[d.i].name, k)
		}
	}
}

var c14Dir = sync.OnceValue(func() string {
	d, err := os.MkdirTemp(os.Getenv("ZZVERIF_TMP"), "c14")
	if err != nil {
		panic(err)
	}
	for i, s := range c14Corpus() {
		if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("%d.apk", i)), s.apk, 0o444); err != nil {
			panic(err)
		}
	}
	return d
})

// entriesOf reads everything through an archive.
func entriesOf(z *apkparser.ZipReader) string {
	var b strings.Builder
	for _, f := range z.FilesOrdered {
		if err := f.Open(); err != nil {
			fmt.Fprintf(&b, "%s: %s\n", f.Name, err)
			continue
		}
		for f.Next() {
			d, err := io.ReadAll(f)
			fmt.Fprintf(&b, "%s: %d %x %v\n", f.Name, len(d), sha(d), err)
		}
		f.Close()
	}
	return b.String()
}

// c14Ways: the ways to hand a file over.
func c14Ways(c *mc.Ctx) {
	l := c14Corpus()
	i := c.Choose("file", len(l))
	s := l[i]
	r := c14Ranges[c.Choose("range", len(c14Ranges))]
	extract := c.Bool("extract")
	way := mc.Pick(c, "way", "reader at an offset", "archive", "path", "path and archive", "archive of the same reader", "archive opened from the path")
	c.Label("%s, %s", s.name, way)
	at := 0
	if way == "reader at an offset" || way == "archive of the same reader" {
		at = mc.Pick(c, "offset", 1, len(s.apk)/2, len(s.apk), len(s.apk)+10)
	}
	times := 1
	if strings.Contains(way, "archive") {
		times = 1 + c.Choose("times", 3)
	}
	reads := times > 1 && c.Bool("entries read in between")
	c.State([]byte(fmt.Sprint(i, r, extract, way, at, times, reads)))
	want := c14Keys.get(fmt.Sprint("ways", i, r, extract), func() string {
		if extract {
			return impl.Extract(s.apk).Key()
		}
		return impl.Verify(s.apk, r[0], r[1]).Key()
	})
	file := filepath.Join(c14Dir(), fmt.Sprintf("%d.apk", i))
	path := strings.Contains(way, "path")
	stat := func() string {
		if !path {
			return ""
		}
		fi, err := os.Stat(file)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(fi.Size(), fi.ModTime(), fi.Mode())
	}
	before := stat()
	rd := bytes.NewReader(s.apk)
	rd.Seek(int64(at), io.SeekStart)
	var z *apkparser.ZipReader
	switch way {
	case "archive", "path and archive":
		z, _ = apkparser.OpenZipReader(bytes.NewReader(s.apk))
	case "archive of the same reader":
		z, _ = apkparser.OpenZipReader(rd)
		rd.Seek(int64(at), io.SeekStart)
	case "archive opened from the path":
		z, _ = apkparser.OpenZip(file)
	}
	if strings.Contains(way, "archive") && z == nil {
		c.Skip()
	}
	var all string
	if z != nil {
		z2, _ := apkparser.OpenZipReader(bytes.NewReader(s.apk))
		all = entriesOf(z2)
		if reads && entriesOf(z) != all {
			panic("archive not readable")
		}
	}
	for t := 0; t < times; t++ {
		var o impl.Outcome
		switch {
		case path && extract:
			o = impl.ExtractPath(file, z)
		case path:
			o = impl.VerifyPathZip(file, z, r[0], r[1])
		case extract:
			o = impl.ExtractZip(rd, z)
		default:
			o = impl.VerifyZip(rd, z, r[0], r[1])
		}
		c.Trace(1)
		if k := o.Key(); k != want {
			c.Failf("call %d, %s: [%s %s], must be [%s]", t+1, way, k, o.Err, want)
		}
		if z != nil && (reads || t == times-1) {
			if got := entriesOf(z); got != all {
				c.Failf("after call %d the archive reads differently: %s, before %s", t+1, got, all)
			}
		}
	}
	if z != nil {
		if err := z.Close(); err != nil {
			c.Failf("the archive cannot be closed any more: %s", err)
		}
	}
	if after := stat(); after != before {
		c.Failf("the file changed from %s to %s", before, after)
	}
	if path {
		if b, err := os.ReadFile(file); err != nil || !bytes.Equal(b, s.apk) {
			c.Failf("the file's content changed")
		}
	} else if !bytes.Equal(s.apk, c14Copies()[i]) {
		c.Failf("the file's content changed in memory")
	}
}

var c14Copies = sync.OnceValue(func() [][]byte {
	var l [][]byte
	for _, s := range c14Corpus() {
		l = append(l, clone(s.apk))
	}
	return l
})

// c14Thread is a verification under the controlled scheduler. It stops before every reader operation and before every
// statement that touches mutable package-level variables.
type c14Thread struct {
	resume  chan bool
	events  chan *c14Thread
	done    bool
	blocked bool
	out     impl.Outcome
}

func (t *c14Thread) Yield() {
	t.events <- t
	<-t.resume
}

func (t *c14Thread) Order(n int) []int { return nil }

// c14Schedule runs the calls in the interleaving the choices say. Preemptions are deviations.
func c14Schedule(c *mc.Ctx, calls []func(hook func(int) faultAct) impl.Outcome) []impl.Outcome {
	events := make(chan *c14Thread)
	var ts []*c14Thread
	for _, f := range calls {
		t := &c14Thread{resume: make(chan bool), events: events}
		ts = append(ts, t)
		go func() {
			<-t.resume
			sched.With(t, func() {
				t.out = f(func(int) faultAct { t.Yield(); return actNone })
			})
			t.done = true
			events <- t
		}()
	}
	runnable := func(except *c14Thread) (l []*c14Thread) {
		for _, t := range ts {
			if !t.done && !t.blocked && t != except {
				l = append(l, t)
			}
		}
		return
	}
	cur := ts[c.Choose("first", len(ts))]
	for {
		cur.resume <- true
		for {
			select {
			case t := <-events:
				if t != cur { // was waiting for a lock and got it
					t.blocked = false
					continue
				}
			case <-time.After(2 * time.Second): // waits for something another thread has
				cur.blocked = true
			}
			break
		}
		if cur.done || cur.blocked {
			l := runnable(nil)
			for len(l) == 0 {
				alive := false
				for _, t := range ts {
					alive = alive || !t.done
				}
				if !alive {
					var out []impl.Outcome
					for _, t := range ts {
						out = append(out, t.out)
					}
					return out
				}
				select {
				case t := <-events:
					t.blocked = false
				case <-time.After(20 * time.Second):
					c.Failf("deadlock: no verification makes progress")
					return nil
				}
				l = runnable(nil)
			}
			cur = l[c.Choose("next", len(l))]
			continue
		}
		if l := runnable(cur); len(l) > 0 {
			if k := c.Dev("preempt", len(l)+1); k > 0 {
				cur = l[k-1]
			}
		}
	}
}

func c14Threads(c *mc.Ctx, files []sample, idx []int) {
	fresh := c14Fresh()
	var calls []func(func(int) faultAct) impl.Outcome
	for _, s := range files {
		calls = append(calls, func(hook func(int) faultAct) impl.Outcome {
			f := &faulty{hook: hook, r: bytes.NewReader(s.apk)}
			return impl.VerifyReader(faultyAt{f}, s.min, s.max)
		})
	}
	out := c14Schedule(c, calls)
	c.Trace(len(files))
	c.State([]byte(c.Describe()))
	for i, o := range out {
		if k := o.Key(); k != fresh[idx[i]] {
			c.Failf("%q verified concurrently gives [%s %s], alone [%s]", files[i].name, k, o.Err, fresh[idx[i]])
		}
	}
}

func pickFiles(c *mc.Ctx, n int, ok func(s sample) bool) (l []sample, idx []int) {
	all := c14Corpus()
	var cand []int
	for i, s := range all {
		if ok(s) {
			cand = append(cand, i)
		}
	}
	lo := 0
	for j := 0; j < n; j++ {
		k := lo + c.Choose("file", len(cand)-lo)
		lo = k // unordered: any thread may start
		l, idx = append(l, all[cand[k]]), append(idx, cand[k])
	}
	return
}

// c14One: one preemption anywhere, all pairs of files.
func c14One(c *mc.Ctx) {
	l, idx := pickFiles(c, 2, func(s sample) bool { return !s.big })
	if !c.Deep() && !c14Few[l[0].name] && !c14Few[l[1].name] {
		c.Skip()
	}
	c14Threads(c, l, idx)
}

var c14Few = map[string]bool{"v1 by three, signing different entries": true, "v1+v2+v3+v3.1": true, "v2 verity": true, "stamped v2, broken v3": true, "v1 altered": true, "frosting": true}

// c14Two: two preemptions, some files.
func c14Two(c *mc.Ctx) {
	l, idx := pickFiles(c, 2, func(s sample) bool {
		return c14Few[s.name] && (c.Deep() || s.name == "v2 verity" || s.name == "stamped v2, broken v3")
	})
	c14Threads(c, l, idx)
}

// c14Three: three threads, one preemption.
func c14Three(c *mc.Ctx) {
	l, idx := pickFiles(c, 3, func(s sample) bool { return c14Few[s.name] })
	c14Threads(c, l, idx)
}

// c14Best is the race detector's workload: everything at once, unscheduled.
func c14RaceWorker(args []string) {
	l := c14Corpus()
	n := 2
	if len(args) > 0 && args[0] == "deep" {
		n = 20
	}
	keys := make([]string, len(l))
	for i, s := range l {
		keys[i] = impl.Verify(s.apk, s.min, s.max).Key()
	}
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for t := 0; t < 8; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n*len(l); j++ {
				i := (j*(2*t+1) + t*5) % len(l)
				if j%3 == t%3 {
					i = (j / 8) % len(l)
				}
				s := l[i]
				if s.big && j > len(l) {
					continue
				}
				o := impl.Verify(s.apk, s.min, s.max)
				if k := o.Key(); k != keys[i] {
					select {
					case bad <- fmt.Sprintf("%q verified concurrently gives [%s %s], alone [%s]", s.name, k, o.Err, keys[i]):
					default:
					}
				}
				if cs, err := apkverifier.ExtractCertsReader(bytes.NewReader(s.apk), nil); err == nil && len(cs) > 0 {
					apkverifier.PickBestApkCert(cs)
				}
			}
		}()
	}
	wg.Wait()
	close(bad)
	for b := range bad {
		fmt.Println("MISMATCH", b)
	}
	fmt.Println("RACEWORKER", 8*n*len(l))
}

// c14After runs the workload in a binary with the race detector.
func c14After(e *mc.Engine) {
	e.Extra["instrumented"] = sched.Sites.Load() > 0
	bin := os.Getenv("ZZVERIF_RACE")
	if bin == "" {
		e.Extra["race"] = "no binary with the race detector"
		return
	}
	args := []string{"worker", "c14race"}
	if e.Deep {
		args = append(args, "deep")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66")
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	sum, _ := json.Marshal(strings.TrimSpace(stdout.String()))
	e.Extra["race"] = fmt.Sprintf("8 threads, unscheduled, under the race detector: %s", sum)
	text := stderr.String()
	switch {
	case strings.Contains(text, "WARNING: DATA RACE") && strings.Contains(text, "github.com/avast/apkverifier"):
		e.Fail("race", "data race between concurrent verifications: %s", cut(text, 3000))
	case strings.Contains(stdout.String(), "MISMATCH"):
		e.Fail("race", "%s", cut(stdout.String(), 1000))
	case err != nil && strings.Contains(text, "fatal error:"):
		e.Fail("race", "concurrent verifications crash: %s", cut(text, 3000))
	case !strings.Contains(stdout.String(), "RACEWORKER"):
		e.Extra["race"] = fmt.Sprintf("did not run: %v %s", err, cut(text, 300))
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func init() {
	workers["c14fresh"] = c14FreshWorker
	workers["c14race"] = c14RaceWorker
	register(&Check{
		ID:   "C14",
		Rule: "all iteration orders of maps, histories, ways of calling and interleavings of the spaces, each run on the real code; a state is a distinct combination",
		Assume: []string{
			"threads interleave at reader operations and at statements using package-level variables that some function may change; finer interleavings are left to the race detector",
		},
		Spaces: []*mc.Space{
			{Name: "orders", Doc: "every file x 3 entry points x 3 SDK ranges, every order of every iteration over a map that differs from sorted order in 2 (thorough 3) iterations", Dev: 2, DevDeep: 3, Run: c14Orders},
			{Name: "repeat", Doc: "every file x entry point, several times with the runtime's order", Run: c14Repeat},
			{Name: "histories", Doc: "every sequence of 2 (thorough 3) files in one process against fresh processes", Run: c14Histories},
			{Name: "ways", Doc: "every file by reader, path and opened archive, repeated, with reads in between", Run: c14Ways},
			{Name: "one", Doc: "every pair of files (quick: one of them of 6 rich ones) verified concurrently with at most 1 preemption", Dev: 1, Slow: 10 * time.Minute, Run: c14One},
			{Name: "two", Doc: "pairs of some files with at most 2 preemptions", Dev: 2, Slow: 10 * time.Minute, Run: c14Two},
			{Name: "three", Doc: "triples of some files with at most 1 preemption", Dev: 1, Slow: 10 * time.Minute, Thorough: true, Run: c14Three},
		},
		After: c14After,
	})
}
