package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/avast/apkparser"

	"github.com/avast/apkverifier/zzverif/impl"
	"github.com/avast/apkverifier/zzverif/mc"
)

// faulty is a reader whose operations are numbered; hook decides what each of them does.
type faulty struct {
	r    *bytes.Reader
	n    int
	hook func(n int) faultAct
	cap  int  // at most that many bytes per Read, 0: no limit
	eof  bool // deliver io.EOF together with the last byte
}

type faultAct int

const (
	actNone     faultAct = iota
	actFail              // nothing is delivered
	actPartial           // half of the data is delivered with the error
	actFull              // all of the data is delivered with the error
	actUnexpEOF          // like actFail with io.ErrUnexpectedEOF
	actWrapEOF           // like actFail with an error that wraps io.EOF
	actShort0            // no data and no error, reads only
	actShort1            // one byte and no error, reads only
	actShortH            // half and no error, reads only
	actShortL            // all but one byte and no error, reads only
)

var errFault = errors.New("injected fault")

func (f *faulty) act() faultAct {
	n := f.n
	f.n++
	if f.hook == nil {
		return actNone
	}
	return f.hook(n)
}

func (f *faulty) io(p []byte, do func([]byte) (int, error), short bool) (int, error) {
	a := f.act()
	if f.cap > 0 && len(p) > f.cap && short {
		p = p[:f.cap]
	}
	switch a {
	case actFail:
		return 0, errFault
	case actUnexpEOF:
		return 0, io.ErrUnexpectedEOF
	case actWrapEOF:
		return 0, fmt.Errorf("wrapped: %w", io.EOF)
	case actPartial:
		n, _ := do(p[:len(p)/2])
		return n, errFault
	case actFull:
		n, _ := do(p)
		return n, errFault
	}
	if short {
		switch {
		case a == actShort0 && len(p) > 0:
			return 0, nil
		case a == actShort1 && len(p) > 1:
			p = p[:1]
		case a == actShortH && len(p) > 1:
			p = p[:len(p)/2]
		case a == actShortL && len(p) > 1:
			p = p[:len(p)-1]
		}
	}
	return do(p)
}

func (f *faulty) Read(p []byte) (int, error) {
	return f.io(p, func(p []byte) (int, error) {
		n, err := f.r.Read(p)
		if f.eof && err == nil && f.r.Len() == 0 {
			err = io.EOF
		}
		return n, err
	}, true)
}

func (f *faulty) Seek(off int64, whence int) (int64, error) {
	switch f.act() {
	case actFail, actPartial, actFull:
		return 0, errFault
	case actUnexpEOF:
		return 0, io.ErrUnexpectedEOF
	case actWrapEOF:
		return 0, fmt.Errorf("wrapped: %w", io.EOF)
	}
	return f.r.Seek(off, whence)
}

// faultyAt also has ReadAt.
type faultyAt struct{ *faulty }

func (f faultyAt) ReadAt(p []byte, off int64) (int, error) {
	return f.io(p, func(p []byte) (int, error) {
		n, err := f.r.ReadAt(p, off)
		if f.eof && err == nil && off+int64(n) == f.r.Size() {
			err = io.EOF
		}
		return n, err
	}, false)
}

type c13Api struct {
	name string
	zip  bool
	run  func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome
}

var c13Apis = []c13Api{
	{"Verify", false, func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome {
		return impl.VerifyReader(r, s.min, s.max)
	}},
	{"ExtractCerts", false, func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome { return impl.ExtractReader(r) }},
	{"signingblock.Verify", false, func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome {
		return impl.SigBlockReader(r, max(s.min, 21), s.max)
	}},
	{"signingblock.ExtractCerts", false, func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome {
		return impl.ExtractBlockReader(r, max(s.min, 21), s.max)
	}},
	{"Verify of an open archive", true, func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome {
		return impl.VerifyZip(r, z, s.min, s.max)
	}},
	{"ExtractCerts of an open archive", true, func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome { return impl.ExtractZip(r, z) }},
	{"signingblock.Verify of an open archive", true, func(r io.ReadSeeker, z *apkparser.ZipReader, s sample) impl.Outcome {
		return impl.SigBlockZip(r, z, max(s.min, 21), s.max)
	}},
}

// run runs api on s through f.
func (a c13Api) on(s sample, f *faulty, at bool) impl.Outcome {
	f.r = bytes.NewReader(s.apk)
	var r io.ReadSeeker = f
	if at {
		r = faultyAt{f}
	}
	var z *apkparser.ZipReader
	if a.zip {
		z, _ = apkparser.OpenZipReader(bytes.NewReader(s.apk))
		if z == nil {
			return impl.Outcome{Err: "no archive"}
		}
		defer z.Close()
	}
	return a.run(r, z, s)
}

type c13Key struct {
	s, a int
	at   bool
}

type c13Base struct {
	o   impl.Outcome
	key string
	ops int
}

var c13Bases = newCache[c13Key, *c13Base]()

func c13Base_(c *mc.Ctx, big int) (sample, c13Api, bool, *c13Base) {
	l := corpus()
	if big >= 0 {
		var k []sample
		for _, s := range l {
			if s.big == (big == 1) {
				k = append(k, s)
			}
		}
		l = k
	}
	k := c13Key{c.Choose("file", len(l)), c.Choose("api", len(c13Apis)), c.Bool("reader has ReadAt")}
	s, a := l[k.s], c13Apis[k.a]
	c.Label("%s, %s", s.name, a.name)
	k.s += 1000 * big
	b := c13Bases.get(k, func() *c13Base {
		f := &faulty{}
		o := a.on(s, f, k.at)
		return &c13Base{o, o.Key(), f.n}
	})
	return s, a, k.at, b
}

// c13Judge: an error or the fault-free outcome.
func c13Judge(c *mc.Ctx, b *c13Base, o impl.Outcome) {
	c.Trace(1)
	c.Note("%d operations, fault-free accept=%v nf=%v; with the fault accept=%v nf=%v %s", b.ops, b.o.Accept, b.o.NotFound, o.Accept, o.NotFound, o.Err)
	switch {
	case o.Panic != "":
		c.Failf("%s", o.Panic)
	case o.Accept && o.Key() != b.key:
		c.Failf("a reader fault changes the outcome from [%s %s] to [%s]", b.key, b.o.Err, o.Key())
	case o.NotFound && !b.o.NotFound:
		c.Failf("a reader fault makes the signing block count as missing: %s", o.Err)
	case o.MixedDex && !b.o.MixedDex:
		c.Failf("a reader fault turns %q into the mixed DEX error of a valid signature", b.o.Err)
	}
}

var c13Kinds = []faultAct{actFail, actPartial, actFull, actUnexpEOF, actWrapEOF}

func c13Label(n, ops int) string { return fmt.Sprintf("operation %d of %d", n, ops) }

// c13Faults: one fault, once or for good, at every operation.
func c13Faults(c *mc.Ctx) {
	s, a, at, b := c13Base_(c, -1)
	if b.ops == 0 {
		c.Skip()
	}
	n := c.Choose("operation", b.ops)
	k := c13Kinds[c.Choose("fault", len(c13Kinds))]
	forever := c.Bool("for good")
	c.State([]byte(s.name), []byte(a.name), []byte(fmt.Sprint(at, n, k, forever)))
	f := &faulty{hook: func(i int) faultAct {
		if i == n || forever && i > n {
			return k
		}
		return actNone
	}}
	c13Judge(c, b, a.on(s, f, at))
}

// c13Pairs: two faults.
func c13Pairs(c *mc.Ctx) {
	s, a, at, b := c13Base_(c, 0)
	if b.ops == 0 || a.zip {
		c.Skip()
	}
	n := c.Choose("operation", b.ops)
	m := n + 1 + c.Choose("gap", min(150, max(1, b.ops-n)))
	k := mc.Pick(c, "fault", actFail, actUnexpEOF)
	c.State([]byte(s.name), []byte(a.name), []byte(fmt.Sprint(at, n, m, k)))
	f := &faulty{hook: func(i int) faultAct {
		if i == n || i == m {
			return k
		}
		return actNone
	}}
	c13Judge(c, b, a.on(s, f, at))
}

func c13Same(c *mc.Ctx, b *c13Base, o impl.Outcome) {
	c.Trace(1)
	if o.Panic != "" {
		c.Failf("%s", o.Panic)
	} else if k := o.Key(); k != b.key {
		c.Failf("short reads change the outcome from [%s %s] to [%s %s]", b.key, b.o.Err, k, o.Err)
	}
}

// c13Pieces: every read limited to some bytes.
func c13Pieces(c *mc.Ctx) {
	s, a, at, b := c13Base_(c, -1)
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 11, 15, 16, 17, 21, 22, 23, 31, 32, 64, 100, 255, 511, 512, 513, 4095, 4096, 4097}
	if c.Deep() {
		sizes = nil
		for i := 0; i < 300; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 32767, 65535, 65536)
	}
	k := sizes[c.Choose("piece", len(sizes))]
	if s.big && k > 0 && k < 64 && k != 7 {
		c.Skip()
	}
	c.Label("%d bytes", k)
	eof := c.Bool("end reported with the last byte")
	empty := c.Bool("every third read empty")
	c.State([]byte(s.name), []byte(a.name), []byte(fmt.Sprint(at, k, eof, empty)))
	f := &faulty{cap: k, eof: eof}
	if empty {
		f.hook = func(i int) faultAct {
			if i%3 == 2 {
				return actShort0
			}
			return actNone
		}
	}
	c13Same(c, b, a.on(s, f, at))
}

// c13Short: one read cut short at every operation.
func c13Short(c *mc.Ctx) {
	s, a, at, b := c13Base_(c, -1)
	if b.ops == 0 {
		c.Skip()
	}
	n := c.Choose("operation", b.ops)
	k := mc.Pick(c, "delivers", actShort0, actShort1, actShortH, actShortL)
	c.State([]byte(s.name), []byte(a.name), []byte(fmt.Sprint(at, n, k)))
	f := &faulty{hook: func(i int) faultAct {
		if i == n {
			return k
		}
		return actNone
	}}
	c13Same(c, b, a.on(s, f, at))
}

func init() {
	register(&Check{
		ID:    "C13",
		Level: "fault_enumeration",
		Rule:  "all runs of every entry point over the corpus in which the caller's reader fails, or delivers less, at the stated operations; a state is a distinct (file, entry point, fault plan)",
		Assume: []string{
			"io.EOF before the end of the file means a shorter file, not a fault",
			"faults of a reader that only a caller-opened archive uses are its owner's to notice",
		},
		Spaces: []*mc.Space{
			{Name: "faults", Doc: "every operation (read, seek, positioned read) of every run x 5 kinds of faults x once or for good", Run: c13Faults},
			{Name: "pairs", Doc: "every pair of failing operations at most 150 operations apart, small files", Thorough: true, Run: c13Pairs},
			{Name: "pieces", Doc: "every read limited to each of a list of sizes (thorough: all below 300), end of file early or late, empty reads", Run: c13Pieces},
			{Name: "short", Doc: "every single read of every run delivering nothing, one byte, half, all but one byte", Run: c13Short},
		},
	})
}
