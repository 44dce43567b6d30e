#!/bin/bash
# run.sh GROUP PROP [args]: builds harness GROUP against /repo's working tree
# (overlaid into its module, nothing is written there) and runs PROP.
# ZV_RACE=1 builds with the race detector.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${ZV_REPO:-/repo}
export HOME=${HOME:-/root}
export GOROOT=/opt/veriftools/go1.23.12
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOENV=off GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOTELEMETRY=off GOSUMDB=off
export TZ=UTC
G=$1; P=$2; shift 2
W=$(mktemp -d "${TMPDIR:-/tmp}/zvrun-XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
python3 - "$V/harness" "$REPO" > "$W/overlay.json" <<'P' || exit 2
import json, os, sys
h, repo = sys.argv[1:]
r = {}
for d, _, fs in os.walk(h):
    for f in fs:
        if f.endswith(".go"):
            src = os.path.join(d, f)
            r[os.path.join(repo, "internal/zverif", os.path.relpath(src, h))] = src
json.dump({"Replace": r}, sys.stdout)
P
cp "$REPO/go.mod" "$W/go.mod" && cp "$REPO/go.sum" "$W/go.sum" || exit 2
race=()
[ "${ZV_RACE:-}" = 1 ] && { race=(-race); export CGO_ENABLED=1; }
cd "$REPO" || exit 2
tags=verif
if [ "${ZV_COMMITS:-}" = 1 ]; then
    # A copy of the key-value store that tells about every commit, so that a
    # crash can be placed between any two of them.
    B=$(go list -modfile "$W/go.mod" -m -f '{{.Dir}}' github.com/dgraph-io/badger/v4) && [ -d "$B" ] || exit 2
    cp -r "$B" "$W/badger" && chmod -R u+w "$W/badger" || exit 2
    python3 - "$W/badger" <<'P' || exit 2
import sys
d = sys.argv[1]
s = open(d + "/txn.go").read()
i = s.index("func (txn *Txn) Commit() error {")
j = s.index("txnCb, err := txn.commitAndSend()", i)
s = s[:j] + """if h := VerifCommit; h != nil {
		size := 0
		for _, e := range txn.pendingWrites {
			size += len(e.Value)
		}
		h(size, false)
		defer h(size, true)
	}
	""" + s[j:]
open(d + "/txn.go", "w").write(s)
open(d + "/verif_commit.go", "w").write("package badger\n\nvar VerifCommit func(size int, after bool)\n")
P
    go mod edit -modfile "$W/go.mod" -replace "github.com/dgraph-io/badger/v4=$W/badger" 2>/dev/null ||
        echo "replace github.com/dgraph-io/badger/v4 => $W/badger" >> "$W/go.mod"
    tags=verif,zvcommits
fi
if ! go build "${race[@]}" -tags "$tags" -overlay "$W/overlay.json" -modfile "$W/go.mod" -o "$W/bin" "./internal/zverif/$G" 2> "$W/build.log"; then
    cat "$W/build.log" >&2
    echo "build of harness $G failed" >&2
    exit 2
fi
if [ "$G" = svc ] || [ "$G" = client ]; then
    # the real server, in the same kind of build
    go build "${race[@]}" -tags verif -modfile "$W/go.mod" -o "$W/rq" ./cmd/rq || exit 2
    export ZV_RQ=$W/rq
fi
export VERIF_FLUSH_INTERVAL=${VERIF_FLUSH_INTERVAL:-30ms}
if [ "${ZV_BUILD_ONLY:-}" = 1 ]; then exit 0; fi
cd "$V" || exit 2
GOGC=${ZV_GOGC:-off} GOMEMLIMIT=${ZV_MEM:-2GiB} GOMAXPROCS=${ZV_PROCS:-1} "$W/bin" -prop "$P" -verif "$V" "$@"
