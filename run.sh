#!/bin/bash
# run.sh <property id> [quick|thorough]: builds the harness against /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
[ "$tier" = thorough ] && export ZZVERIF_DEEP=1
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1
unset GOMAXPROCS 2>/dev/null
mkdir -p build evidence
tmp=$(mktemp -d "$PWD/build/$id.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
export ZZVERIF_TMP=$tmp
(cd harness && go build -o "$tmp/zzverif" .) || { echo "harness does not build against /repo" >&2; exit 2; }
if [ "$id" = C16 ]; then # builds with frosting keys of our own, see harness/checks/frostkeys.go
  export ZZVERIF_PLAIN=$tmp/plain
  cp "$tmp/zzverif" "$tmp/plain"
  for n in 3 1; do
    "$tmp/plain" overlay /repo "$tmp" $n || break
    (cd harness && go build -overlay "$tmp/overlay.json" -o "$tmp/zzfrost" .) || break
    ZZVERIF_FROST=$n "$tmp/zzfrost" worker frostprobe || continue
    export ZZVERIF_FROST=$n
    mv "$tmp/zzfrost" "$tmp/zzverif"
    break
  done
  if [ -z "${ZZVERIF_FROST:-}" ] && [ -x "$tmp/zzfrost" ]; then # replaced, but honest frosting is refused
    export ZZVERIF_FROST=3
    "$tmp/plain" overlay /repo "$tmp" 3 && (cd harness && go build -overlay "$tmp/overlay.json" -o "$tmp/zzverif" .)
  fi
fi
if [ "$id" = C14 ]; then # map iterations and shared variables under control, see harness/instr; and the race detector
  (cd harness && go build -race -o "$tmp/zzrace" .) && export ZZVERIF_RACE=$tmp/zzrace
  (cd harness && "$tmp/zzverif" instrument "$tmp" && go build -overlay "$tmp/overlay.json" -o "$tmp/zzinstr" .) && mv "$tmp/zzinstr" "$tmp/zzverif"
fi
"$tmp/zzverif" check "$id"
rc=$?
exit $rc
