#!/bin/bash
# usage: run.sh <ID> <quick|thorough> [-only <key>]
# Builds the harness from the current tree of $REPO (default /repo) and
# decides one property.  Exit 0: held; 1: VIOLATION; 3: cannot build or run.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${REPO:-/repo}"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
export VERIF_ROOT="$ROOT" VERIF_REPO="$REPO" VERIF_SEED="${VERIF_SEED:-1}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
B="$ROOT/.build/$ID.$$"
mkdir -p "$B" "$ROOT/evidence" || exit 3
export VERIF_BUILD="$B"
[ -n "${KEEP:-}" ] || trap 'rm -rf "$B"' EXIT
# private module file, so that nothing committed is rewritten by the go tool
sed "s#=> /repo\$#=> $REPO#" "$ROOT/harness/go.mod" > "$B/go.mod"
cp "$ROOT/harness/go.sum" "$B/go.sum"
export VERIF_MODFILE="$B/go.mod"
cd "$ROOT/harness" || exit 3
source "$ROOT/build_lib.sh"
build_for "$ID" "$B/h" > "$B/build.log" 2>&1 || { echo "build failed:"; tail -40 "$B/build.log"; exit 3; }
"$B/h" "$ID" "$TIER" "$@" 2> "$B/stderr"
rc=$?
head -c 20000 "$B/stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && [ $rc -ne 3 ]; then
  # the Go runtime itself ended the process (stack overflow, concurrent map
  # access, ...): the code under test crashed without a recoverable panic.
  if grep -qE '^(fatal error|runtime: goroutine stack exceeds|panic:|SIG)' "$B/stderr"; then
    mkdir -p "$ROOT/replay"; cp "$B/stderr" "$ROOT/replay/$ID.crash.txt"
    echo "VIOLATION property=$ID replay=$ROOT/replay/$ID.crash.txt"
    exit 1
  fi
  exit 3
fi
exit $rc
