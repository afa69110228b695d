#!/bin/bash
# build.sh OUTDIR: builds the simulated system from /repo's current working tree
# into OUTDIR/vsim. Nothing is written in /repo or /opt/vp.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
mkdir -p "$OUT"
cp "$REPO/go.mod" "$OUT/repo.mod"
cp "$HERE/repo.sum" "$OUT/repo.sum"
( cd "$HERE" && GOFLAGS=-buildvcs=false go build -o "$OUT/rewrite" ./rewrite )
M=github.com/KitchenMishap/pudding-shed
cd "$REPO"
# every package that the simulated system can include (those that compile)
PK="jobs chainstorage chainreadinterface corereader2 concurrency memblocker memfile wordfile intarrayarray indexedhashes indexedhashes3 intrinsicobjects intrinsicobjectschi intrinsicobjectscri transactionindexing numberedfolders weddingcakefront weddingcakeback weddingcake"
ARGS=""
for p in $PK; do [ -d "$p" ] && ARGS="$ARGS $M/$p"; done
rewrite() {
  "$OUT/rewrite" -repo "$REPO" -out "$OUT" -sim "$HERE/overlay" -modfile "$OUT/repo.mod" -nohook "$1" -scale "$2" -noyield "weddingcake,intarrayarray/,indexedhashestree,tinychain,intrinsicobjects/,chainreadinterface" $ARGS
}
SCALE=weddingcakeback=65535
B="go build -tags verif -modfile $OUT/repo.mod -overlay $OUT/overlay.json"
rewrite "" $SCALE
if ! $B -o "$OUT/vsim" $M/verifsim/cmd/vsim 2>"$OUT/build.err"; then
  # the capacities that are made adjustable may no longer fit: leave them as they are
  rewrite ""
  if $B -o "$OUT/vsim" $M/verifsim/cmd/vsim 2>"$OUT/build2.err"; then
    echo "capacities not scaled" >&2
    exit 0
  fi
  # hooks reach into the insides of a package: leave out those that no longer
  # fit (the scenarios that need them do without)
  BAD=""
  for h in $(cd "$HERE/overlay/hooks" && find . -name '*.go' | sed 's|^\./||'); do
    $B -o /dev/null "$M/$(dirname "$h")" 2>/dev/null || BAD="$BAD,$h"
  done
  if [ -z "$BAD" ]; then cat "$OUT/build.err" >&2; exit 1; fi
  echo "hooks left out: $BAD" >&2
  rewrite "${BAD#,}" $SCALE
  $B -o "$OUT/vsim" $M/verifsim/cmd/vsim 2>/dev/null && exit 0
  rewrite "${BAD#,}"
  $B -o "$OUT/vsim" $M/verifsim/cmd/vsim
fi
