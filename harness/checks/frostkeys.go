package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/avast/apkverifier/zzverif/gen"
)

// The key Play frosting is signed with. Nobody but Google can sign with it, so the check builds the code with keys of
// its own in its place.
const playKey = "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEZH2+1+E07dnErAD3L6BbTnaohU0bbXriNlJI7VxJU+LjdSwPyXR5pomARAMoyPkMksLz/gitUPtFuJoPL2ziEw=="

var frostTestKeys = []*gen.Key{gen.EC(0), gen.EC(1), gen.EC(2)}

// frostKeys are the keys of the tested build, in order.
func frostKeys() (ders [][]byte, own bool) {
	if n := os.Getenv("ZZVERIF_FROST"); n != "" {
		var l [][]byte
		for _, k := range frostTestKeys {
			l = append(l, k.SPKI)
		}
		if n == "1" {
			l = l[:1]
		}
		return l, true
	}
	b, _ := base64.StdEncoding.DecodeString(playKey)
	return [][]byte{b}, false
}

// Overlay writes copies of the source files containing the Play key, with test keys, and a go build overlay.
func Overlay(repo, dir string, count int) bool {
	var l []string
	for _, k := range frostTestKeys[:count] {
		l = append(l, base64.StdEncoding.EncodeToString(k.SPKI))
	}
	repl := map[string]string{}
	if old, err := os.ReadFile(os.Getenv("ZZVERIF_OVERLAY")); err == nil { // an overlay to extend
		var o struct{ Replace map[string]string }
		json.Unmarshal(old, &o)
		repl = o.Replace
	}
	found := false
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		src := p
		if r := repl[p]; r != "" {
			src = r
		}
		b, err := os.ReadFile(src)
		if err != nil || !bytes.Contains(b, []byte(playKey)) || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		found = true
		q := filepath.Join(dir, fmt.Sprintf("frost%d.go", len(repl)))
		os.WriteFile(q, bytes.ReplaceAll(b, []byte(playKey), []byte(strings.Join(l, ","))), 0o644)
		repl[p] = q
		return nil
	})
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0o644)
	return found
}
