// Package mc is a stateless explicit-state explorer: a space is a function that resolves its nondeterminism through
// Choose/Dev calls, and the engine enumerates every path of the resulting choice tree (optionally bounding the number
// of deviations from the default choice), in parallel, to the end.
package mc

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Space is one bounded space of behaviours.
type Space struct {
	Name     string
	Doc      string // what is enumerated
	Dev      int    // deviation budget in the quick tier (ignored if the space uses no Dev)
	DevDeep  int    // deviation budget in the thorough tier (0: same)
	Thorough bool   // only in the thorough tier
	Serial   bool   // one worker only
	Slow     time.Duration
	Run      func(c *Ctx)
}

type step struct {
	name string
	val  int
	n    int
	dev  bool
}

// maxMemory is far more than all executions of a check take together.
const maxMemory = 10 << 30

// Ctx is one execution.
type Ctx struct {
	prefix  []int
	path    []step
	budget  int
	spent   int
	eng     *Engine
	sp      *Space
	note    string
	fails   []string
	traces  int64
	started time.Time
	labels  []string
	replay  bool
}

type skip struct{}

func (c *Ctx) choose(name string, n int, dev bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("space %s: empty choice %s", c.sp.Name, name))
	}
	i := len(c.path)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("space %s: choice %s=%d out of %d on replay", c.sp.Name, name, v, n))
		}
	}
	c.path = append(c.path, step{name, v, n, dev})
	return v
}

// Choose picks one of n alternatives; all are explored.
func (c *Ctx) Choose(name string, n int) int { return c.choose(name, n, false) }

// Dev picks 0 (default) or, if the deviation budget allows, one of n-1 deviations.
func (c *Ctx) Dev(name string, n int) int {
	if c.spent >= c.budget {
		return 0
	}
	v := c.choose(name, n, true)
	if v != 0 {
		c.spent++
	}
	return v
}

// Bool explores false and true.
func (c *Ctx) Bool(name string) bool { return c.Choose(name, 2) == 1 }

// DevBool explores false and, within the budget, true.
func (c *Ctx) DevBool(name string) bool { return c.Dev(name, 2) == 1 }

// Budget sets the deviation budget of this execution (call before any Dev).
func (c *Ctx) Budget(n int) { c.budget = n }

// Spent tells how many deviations were taken.
func (c *Ctx) Spent() int { return c.spent }

// Deep tells whether the thorough tier runs.
func (c *Ctx) Deep() bool { return c.eng.Deep }

// Pick explores all values.
func Pick[T any](c *Ctx, name string, vals ...T) T { return vals[c.Choose(name, len(vals))] }

// DevPick takes the first value by default.
func DevPick[T any](c *Ctx, name string, vals ...T) T { return vals[c.Dev(name, len(vals))] }

// Skip abandons a meaningless combination.
func (c *Ctx) Skip() { panic(skip{}) }

// Label adds a readable name of what a choice means.
func (c *Ctx) Label(f string, a ...any) {
	if len(c.labels) < 40 {
		c.labels = append(c.labels, fmt.Sprintf(f, a...))
	}
}

// State records the model state / input reached.
func (c *Ctx) State(parts ...[]byte) {
	h := sha256.New()
	h.Write([]byte(c.sp.Name))
	var l [8]byte
	for _, p := range parts {
		binary.LittleEndian.PutUint64(l[:], uint64(len(p)))
		h.Write(l[:])
		if len(p) > 1<<20 { // large inputs: sample of the bytes plus the path identifies the state
			h.Write(p[:4096])
			h.Write(p[len(p)-65536:])
			for _, s := range c.path {
				fmt.Fprintf(h, "%d,", s.val)
			}
			continue
		}
		h.Write(p)
	}
	var sum [32]byte
	h.Sum(sum[:0])
	k := binary.LittleEndian.Uint64(sum[:])
	e := c.eng
	sh := &e.shards[k%64]
	sh.mu.Lock()
	sh.m[k] = struct{}{}
	sh.mu.Unlock()
}

// Trace counts executions of the real code compared with the model.
func (c *Ctx) Trace(n int) { c.traces += int64(n) }

var outcomes sync.Map // string -> *int64

// Outcome counts how a case was decided.
func Outcome(kind string) {
	v, ok := outcomes.Load(kind)
	if !ok {
		v, _ = outcomes.LoadOrStore(kind, new(int64))
	}
	atomic.AddInt64(v.(*int64), 1)
}

// Note describes the outcome for samples.
func (c *Ctx) Note(f string, a ...any) { c.note = fmt.Sprintf(f, a...) }

// Failf reports a violation.
func (c *Ctx) Failf(f string, a ...any) { c.fails = append(c.fails, fmt.Sprintf(f, a...)) }

// Fails returns what was reported so far.
func (c *Ctx) Fails() []string { return c.fails }

// Describe renders the path.
func (c *Ctx) Describe() string {
	var b []string
	for _, s := range c.path {
		b = append(b, fmt.Sprintf("%s=%d/%d", s.name, s.val, s.n))
	}
	s := strings.Join(b, " ")
	if len(c.labels) > 0 {
		s += " {" + strings.Join(c.labels, "; ") + "}"
	}
	return s
}

// Engine explores the spaces of a property.
type Engine struct {
	Property string
	Deep     bool
	Seed     int
	Level    string
	Rule     string
	Assume   []string
	Dir      string // /verif
	Deadline time.Time

	shards [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	runs, edges, traces, skipped int64
	samples                      []any
	perSpace                     []map[string]any
	violations                   int
	known                        []Finding
	seenKnown                    map[string]bool
	truncated                    bool
	start                        time.Time
	Extra                        map[string]any
	mu                           sync.Mutex
}

// Finding is one entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Match    string `json:"match"` // substring of the failure message
	What     string `json:"what"`
}

// New makes an engine.
func New(prop, dir string, deep bool, seed int, limit time.Duration) *Engine {
	e := &Engine{Property: prop, Deep: deep, Seed: seed, Dir: dir, Level: "model_checking", start: time.Now(), seenKnown: map[string]bool{}, Extra: map[string]any{}}
	e.Deadline = e.start.Add(limit)
	for i := range e.shards {
		e.shards[i].m = map[uint64]struct{}{}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "known-findings.json")); err == nil {
		var f struct {
			Findings []Finding `json:"findings"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			os.Exit(2)
		}
		for _, k := range f.Findings {
			if k.Property == prop {
				e.known = append(e.known, k)
			}
		}
	}
	return e
}

// States is the number of distinct states so far.
func (e *Engine) States() int64 {
	var n int64
	for i := range e.shards {
		e.shards[i].mu.Lock()
		n += int64(len(e.shards[i].m))
		e.shards[i].mu.Unlock()
	}
	return n
}

func (e *Engine) budgetOf(sp *Space) int {
	if e.Deep && sp.DevDeep > 0 {
		return sp.DevDeep
	}
	return sp.Dev
}

func (e *Engine) exec(sp *Space, prefix []int) (c *Ctx, skipped bool) {
	c = &Ctx{prefix: prefix, budget: e.budgetOf(sp), eng: e, sp: sp, started: time.Now()}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skip); ok {
				skipped = true
				return
			}
			fmt.Fprintf(os.Stderr, "harness failure in space %s at %s: %v\n%s\n", sp.Name, c.Describe(), r, debug.Stack())
			os.Exit(2)
		}
	}()
	sp.Run(c)
	return c, false
}

// Explore enumerates a space.
func (e *Engine) Explore(sp *Space) {
	if sp.Thorough && !e.Deep {
		return
	}
	if e.violations >= 3 {
		return
	}
	t0 := time.Now()
	s0 := e.States()
	r0, ed0 := atomic.LoadInt64(&e.runs), atomic.LoadInt64(&e.edges)
	workers := runtime.GOMAXPROCS(0)
	if sp.Serial {
		workers = 1
	}
	slow := sp.Slow
	if slow == 0 {
		slow = 90 * time.Second
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	active := 0
	stop := false
	cur := make([]struct {
		mu sync.Mutex
		c  *Ctx
		t  time.Time
		p  []int
	}, workers)
	done := make(chan struct{})
	go func() { // out of memory
		m := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
		for {
			select {
			case <-done:
				return
			case <-time.After(30 * time.Millisecond):
			}
			if metrics.Read(m); m[0].Value.Uint64()-m[1].Value.Uint64() < maxMemory {
				continue
			}
			// the one that has been running longest
			var p []int
			var since time.Time
			for i := range cur {
				cur[i].mu.Lock()
				if t := cur[i].t; !t.IsZero() && (since.IsZero() || t.Before(since)) {
					since, p = t, cur[i].p
				}
				cur[i].mu.Unlock()
			}
			path := e.writeReplay(sp, p, []string{"memory runs out; this or another execution running at the time takes it"}, "memory")
			fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", e.Property, path)
			fmt.Fprintf(Out, "  space %s: executions take more than %d GB\n", sp.Name, maxMemory>>30)
			e.violations++
			e.WriteEvidence()
			os.Exit(1)
		}
	}()
	go func() { // hang detector
		for {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			for i := range cur {
				cur[i].mu.Lock()
				t, p := cur[i].t, cur[i].p
				cur[i].mu.Unlock()
				if !t.IsZero() && time.Since(t) > slow {
					path := e.writeReplay(sp, p, []string{fmt.Sprintf("execution did not finish within %s", slow)}, "hang")
					fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", e.Property, path)
					fmt.Fprintf(Out, "  space %s: an execution does not terminate (%s)\n", sp.Name, slow)
					e.violations++
					e.WriteEvidence()
					os.Exit(1)
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(stack) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()

				cur[w].mu.Lock()
				cur[w].t, cur[w].p = time.Now(), p
				cur[w].mu.Unlock()
				c, skipped := e.exec(sp, p)
				cur[w].mu.Lock()
				cur[w].t = time.Time{}
				cur[w].mu.Unlock()

				atomic.AddInt64(&e.runs, 1)
				ne := len(c.path) - len(p)
				if len(p) > 0 {
					ne++
				}
				atomic.AddInt64(&e.edges, int64(ne))
				atomic.AddInt64(&e.traces, c.traces)
				if skipped {
					atomic.AddInt64(&e.skipped, 1)
				}
				var next [][]int
				for i := len(c.path) - 1; i >= len(p); i-- {
					for v := c.path[i].n - 1; v >= 1; v-- {
						q := make([]int, i+1)
						for j := 0; j < i; j++ {
							q[j] = c.path[j].val
						}
						q[i] = v
						next = append(next, q)
					}
				}
				if len(c.fails) > 0 && !skipped {
					e.report(sp, c)
				} else if !skipped {
					e.sample(sp, c)
				}
				mu.Lock()
				active--
				stack = append(stack, next...)
				if e.violations >= 3 {
					stop = true
				}
				if time.Now().After(e.Deadline) {
					stop = true
					e.truncated = true
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	close(done)
	m := map[string]any{"space": sp.Name, "enumerates": sp.Doc, "executions": atomic.LoadInt64(&e.runs) - r0, "choice_edges": atomic.LoadInt64(&e.edges) - ed0, "distinct_states": e.States() - s0, "wall_s": time.Since(t0).Seconds(), "complete": !stop}
	if b := e.budgetOf(sp); b > 0 {
		m["deviation_bound"] = b
	}
	e.perSpace = append(e.perSpace, m)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(Out, "# %s/%s: runs=%d states=%d %.1fs complete=%v\n", e.Property, sp.Name, m["executions"], m["distinct_states"], m["wall_s"], !stop)
	}
}

func (e *Engine) sample(sp *Space, c *Ctx) {
	if c.note == "" {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, s := range e.samples {
		if s.(map[string]any)["space"] == sp.Name {
			n++
		}
	}
	if n < 2 {
		e.samples = append(e.samples, map[string]any{"space": sp.Name, "path": c.Describe(), "outcome": c.note})
	}
}

func (e *Engine) writeReplay(sp *Space, prefix []int, fails []string, desc string) string {
	dir := filepath.Join(e.Dir, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", e.Property, strings.ReplaceAll(sp.Name, " ", "-"), e.violations))
	b, _ := json.MarshalIndent(map[string]any{"property": e.Property, "space": sp.Name, "choices": prefix, "deep": e.Deep, "failures": fails, "path": desc}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func (e *Engine) report(sp *Space, c *Ctx) {
	e.mu.Lock()
	defer e.mu.Unlock()
	var known []string
	for _, f := range c.fails {
		for _, k := range e.known {
			if k.Space == sp.Name && strings.Contains(f, k.Match) {
				known = append(known, k.What)
				break
			}
		}
	}
	if len(known) == len(c.fails) {
		for _, k := range known {
			e.seenKnown[k] = true
		}
		return
	}
	if e.violations >= 3 {
		return
	}
	var full []int
	for _, s := range c.path {
		full = append(full, s.val)
	}
	again := 0
	for i := 0; i < 5; i++ {
		r, _ := e.exec(sp, full)
		if len(r.fails) > 0 {
			again++
		}
	}
	path := e.writeReplay(sp, full, c.fails, c.Describe())
	e.violations++
	fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", e.Property, path)
	fmt.Fprintf(Out, "  space %s: %s\n  path: %s\n  reproduced %d/5\n", sp.Name, strings.Join(c.fails, "\n    "), c.Describe(), again)
}

// Fail reports a violation found outside an exploration.
func (e *Engine) Fail(space string, f string, a ...any) {
	c := &Ctx{eng: e, sp: &Space{Name: space, Run: func(*Ctx) {}}}
	c.Failf(f, a...)
	e.report(c.sp, c)
}

// Count adds externally counted work.
func (e *Engine) Count(states [][]byte, edges, traces int64) {
	c := &Ctx{eng: e, sp: &Space{Name: "ext"}}
	for _, s := range states {
		c.State(s)
	}
	e.edges += edges
	e.traces += traces
}

// AddSample adds a sample.
func (e *Engine) AddSample(s any) {
	e.samples = append(e.samples, map[string]any{"space": "ext", "case": s})
}

// WriteEvidence writes the evidence file.
func (e *Engine) WriteEvidence() {
	tier := "quick"
	if e.Deep {
		tier = "thorough"
	}
	cov := map[string]any{
		"states": e.States(), "transitions": e.edges, "traces_validated_against_impl": e.traces,
		"executions": e.runs, "samples": e.samples, "spaces": e.perSpace, "exhaustive": !e.truncated,
	}
	if e.samples == nil {
		cov["samples"] = []any{}
	}
	if e.Level != "model_checking" {
		for _, k := range []string{"states", "traces_validated_against_impl", "executions"} {
			delete(cov, k)
		}
		cov["evaluations"] = e.traces
		cov["distinct_nontrivial"] = e.States()
	}
	cov["rule"] = e.Rule
	oc := map[string]int64{}
	outcomes.Range(func(k, v any) bool {
		oc[k.(string)] = atomic.LoadInt64(v.(*int64))
		return true
	})
	if len(oc) > 0 {
		cov["outcomes"] = oc
	}
	for k, v := range e.Extra {
		cov[k] = v
	}
	ev := map[string]any{"property": e.Property, "tier": tier, "seed": e.Seed, "level": e.Level, "coverage": cov, "wall_s": time.Since(e.start).Seconds(), "violations": e.violations}
	if e.Assume != nil {
		ev["assumptions"] = e.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.Dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(e.Dir, "evidence", e.Property+".json"), b, 0o644)
}

// Out is where the engine reports; the code under test may print to os.Stdout, which the checks divert.
var Out = os.Stdout

// Finish writes evidence, prints a summary and returns the exit code.
func (e *Engine) Finish() int {
	e.WriteEvidence()
	var ks []string
	for _, k := range e.known {
		ks = append(ks, k.What)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if e.seenKnown[k] {
			fmt.Fprintf(Out, "KNOWN-FINDING: property=%s %s\n", e.Property, k)
		}
	}
	fmt.Fprintf(Out, "%s: states=%d transitions=%d traces=%d executions=%d violations=%d exhaustive=%v %.1fs\n", e.Property, e.States(), e.edges, e.traces, e.runs, e.violations, !e.truncated, time.Since(e.start).Seconds())
	if e.violations > 0 {
		return 1
	}
	return 0
}

// Replay re-executes a path.
func (e *Engine) Replay(sp *Space, choices []int) []string {
	c, _ := e.exec(sp, choices)
	fmt.Fprintln(Out, "path:", c.Describe())
	return c.fails
}
