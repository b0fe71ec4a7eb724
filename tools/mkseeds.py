#!/usr/bin/env python3
"""Writes patch.diff, demo.sh, demo_test.go and meta.json of the planted bugs (fixtures come from checks/fixtures_test.go).
mkseeds.py [id...]; afterwards every demonstration is run on the unchanged and on the patched code in a scratch copy."""
import json, os, subprocess, sys, tempfile, shutil
SEED = "/verif/seeded"
SEEDS = []
def seed(id, prop, file, old, new, needs, breaks, body, pkg=".", helpers="", more=(), frost=False):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, body=body, pkg=pkg, helpers=helpers, frost=frost))

DEMO_SH = '''#!/bin/bash
# Run in /repo: exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/zzdemo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" >"$t/overlay.json"
DEMO_DIR="$d" go test -count=1 -vet=off -timeout 250s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%s
'''
# with a frosting key of our own
FROST_SH = '''#!/bin/bash
# Run in /repo: exit 0 when the property holds. The frosting key is replaced with one of our own.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
sed 's#MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEZH2+1+E07dnErAD3L6BbTnaohU0bbXriNlJI7VxJU+LjdSwPyXR5pomARAMoyPkMksLz/gitUPtFuJoPL2ziEw==#%(key)s#' signingblock/frosting.go >"$t/frosting.go"
printf '{"Replace":{"%%s/zzdemo_test.go":"%%s/demo_test.go","%%s/signingblock/frosting.go":"%%s/frosting.go"}}' "$PWD" "$d" "$PWD" "$t" >"$t/overlay.json"
DEMO_DIR="$d" go test -count=1 -vet=off -timeout 250s -overlay "$t/overlay.json" -run '^TestZZDemo$' .
'''
FROST = '''
func zzfrost(t *testing.T, name string, want bool) {
	res, err := zzverify(zzload(t, name), 24, zzany)
	if err != nil || res.SigningBlockResult == nil || res.SigningBlockResult.Frosting == nil {
		t.Fatal(name, err)
	}
	if f := res.SigningBlockResult.Frosting; (f.Error == nil) != want {
		t.Errorf("%s: clean=%v (%v), want %v", name, f.Error == nil, f.Error, want)
	}
}
'''
HEAD = '''package apkverifier_test

import (
	"bytes"
	"compress/gzip"
	"io"
	"os"
	"path/filepath"
	"testing"

	"github.com/avast/apkverifier"
%s)

func zzload(t *testing.T, name string) []byte {
	f, err := os.Open(filepath.Join(os.Getenv("DEMO_DIR"), name+".gz"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func zzverify(b []byte, min, max int32) (apkverifier.Result, error) {
	return apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(b), nil, min, max)
}

func zzaccept(t *testing.T, name string, min, max int32, want bool) {
	_, err := zzverify(zzload(t, name), min, max)
	if (err == nil) != want {
		t.Errorf("%%s with <%%d;%%d>: accepted=%%v (%%v), want %%v", name, min, max, err == nil, err, want)
	}
}

const zzany = int32(0x7fffffff)

'''
exec(open("/verif/tools/seeds.py").read())

def run(cmd, cwd):
    env = dict(os.environ)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)

def main():
    want = set(sys.argv[1:])
    base = tempfile.mkdtemp(prefix="seed")
    bad = 0
    try:
        for s in SEEDS:
            if want and s["id"] not in want:
                continue
            d = f"{SEED}/{s['id']}"
            os.makedirs(d, exist_ok=True)
            w = f"{base}/{s['id']}"
            run(f"git -C /repo worktree prune; git clone -q /repo {w}", "/")
            for f, old, new in s["edits"]:
                t = open(f"{w}/{f}").read()
                if t.count(old) != 1:
                    print(s["id"], "pattern found", t.count(old), "times in", f); bad += 1
                open(f"{w}/{f}", "w").write(t.replace(old, new, 1))
            open(f"{d}/patch.diff", "w").write(run("git diff", w).stdout)
            open(f"{d}/demo.sh", "w").write(FROST_SH % dict(key=open("/verif/tools/frosting.key").read().strip()) if s["frost"] else DEMO_SH % (s["pkg"], s["pkg"]))
            os.chmod(f"{d}/demo.sh", 0o755)
            imp = "".join(f'\t"{i}"\n' for i in s["helpers"].split())
            if s["frost"]:
                s["body"] += FROST
            body = s["body"] if s["body"].startswith("package") else HEAD % imp + s["body"].strip() + "\n"
            open(f"{d}/demo_test.go", "w").write(body)
            fm = run(f"gofmt -l {d}/demo_test.go {w}/{s['edits'][0][0]}", w)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            b = run("gofmt -l . | grep -v sec1.go; go build ./...", w)
            a1 = run(f"bash {d}/demo.sh", w)
            st = run("go test -vet=off -count=1 ./... 2>&1 | tail -40", w)
            run("git stash -q", w)
            a0 = run(f"bash {d}/demo.sh", w)
            st0 = run("go test -vet=off -count=1 ./... 2>&1 | grep -c '^--- FAIL'", w).stdout.strip()
            f1 = str(sum(l.startswith("--- FAIL") for l in st.stdout.splitlines()))
            ok = b.returncode == 0 and a1.returncode != 0 and a0.returncode == 0 and "FAIL: TestZZDemo" in a1.stdout and st0 == f1
            print(s["id"], "ok" if ok else f"BAD build={b.returncode} clean={a0.returncode} patched={a1.returncode} tests {st0}->{f1}", fm.stdout.strip())
            if not ok:
                bad += 1
                print(b.stdout[-500:], b.stderr[-1500:], a0.stdout[-1500:], a0.stderr[-800:], "-----", a1.stdout[-1500:])
    finally:
        shutil.rmtree(base)
    sys.exit(bad != 0)
main()
