// Command zzverif runs the checks: zzverif check <ID>; zzverif replay <file>; zzverif list.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/avast/apkverifier/zzverif/checks"
	"github.com/avast/apkverifier/zzverif/instr"
	"github.com/avast/apkverifier/zzverif/mc"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: zzverif check ID | replay FILE | list")
		os.Exit(2)
	}
	if checks.Worker(os.Args[1:]) {
		return
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		if os.Getenv("ZZVERIF_CHILD") == "" {
			os.Exit(supervise(os.Args[2]))
		}
		os.Exit(check(os.Args[2]))
	case "overlay": // REPO DIR COUNT
		n, _ := strconv.Atoi(os.Args[4])
		if !checks.Overlay(os.Args[2], os.Args[3], n) {
			os.Exit(1)
		}
	case "instrument": // DIR
		sum, err := instr.Write(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Println(sum)
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		os.Exit(2)
	}
}

type tail struct {
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if len(t.buf) < 1<<20 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

// supervise runs the check in a child so that crashes no recover() stops (stack exhaustion, concurrent map access)
// of the code under test are reported as what they are.
func supervise(id string) int {
	self, _ := os.Executable()
	cmd := exec.Command(self, "check", id)
	cmd.Env = append(os.Environ(), "ZZVERIF_CHILD=1")
	t := &tail{}
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(os.Stderr, t)
	err := cmd.Run()
	if u, ok := cmd.ProcessState.SysUsage().(*syscall.Rusage); ok && os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("# %s: at most %d MB\n", id, u.Maxrss>>10)
	}
	if err == nil {
		return 0
	}
	code := cmd.ProcessState.ExitCode()
	if code == 1 {
		return 1
	}
	s := string(t.buf)
	if crashed(s) {
		dir := filepath.Join(verifDir(), "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, id+"-crash.txt")
		if len(s) > 20000 {
			s = s[:20000]
		}
		os.WriteFile(p, []byte(s), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  the code under test crashed the process\n", id, p)
		ev := map[string]any{"property": id, "tier": tier(), "seed": 1, "level": "model_checking", "violations": 1, "wall_s": 0.0, "coverage": map[string]any{"crash": s[:min(len(s), 500)], "states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": []any{s[:min(len(s), 200)]}}}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644)
		return 1
	}
	return 2
}

// crashed: the output of a process that ended on its own, in a goroutine of the code under test.
func crashed(s string) bool {
	if strings.Contains(s, "harness failure") {
		return false
	}
	i := strings.Index(s, "fatal error:")
	if i < 0 {
		i = strings.Index(s, "panic:")
	}
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(s[i:], "\n") {
		if strings.HasPrefix(l, "github.com/avast/apkverifier/zzverif/") {
			return strings.Contains(s[i:], "fatal error:") && strings.Contains(strings.ReplaceAll(s[i:], "github.com/avast/apkverifier/zzverif/", ""), "github.com/avast/apkverifier")
		}
		if strings.HasPrefix(l, "github.com/avast/") {
			return true
		}
	}
	return false
}

func tier() string {
	if deep() {
		return "thorough"
	}
	return "quick"
}

func deep() bool { return os.Getenv("ZZVERIF_DEEP") != "" }

func check(id string) int {
	c := checks.All[id]
	if c == nil {
		fmt.Println("no such check", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	limit := c.Quick
	if deep() {
		limit = c.Deep
	}
	if s := os.Getenv("ZZVERIF_LIMIT"); s != "" {
		limit, _ = time.ParseDuration(s)
	}
	e := mc.New(id, verifDir(), deep(), seed, limit)
	e.Rule, e.Assume = c.Rule, c.Assume
	if c.Level != "" {
		e.Level = c.Level
	}
	for _, s := range c.Spaces {
		if f := os.Getenv("ZZVERIF_SPACE"); f != "" && f != s.Name {
			continue
		}
		e.Explore(s)
	}
	if c.After != nil && os.Getenv("ZZVERIF_SPACE") == "" {
		c.After(e)
	}
	return e.Finish()
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Space string
		Choices         []int
		Deep            bool
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	c := checks.All[r.Property]
	if c == nil || c.Space(r.Space) == nil {
		fmt.Println("unknown property or space")
		return 2
	}
	e := mc.New(r.Property, verifDir(), r.Deep, 1, time.Hour)
	fails := e.Replay(c.Space(r.Space), r.Choices)
	if len(fails) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", r.Property, file, strings.Join(fails, "\n"))
		return 1
	}
	fmt.Println("holds")
	return 0
}
