#!/bin/bash
# check.sh PROPERTY quick|thorough   decide one property on /repo's working tree
# check.sh replay FILE               reproduce a violation from its replay file
# check.sh setup                     build once, to see that it builds
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$HERE}
D=$(mktemp -d "${TMPDIR:-/tmp}/vsim-XXXXXXXX") || exit 2
trap 'rm -rf -- "$D"' EXIT
if ! bash "$HERE/sim/build.sh" "$D" >"$D/build.log" 2>&1; then
  echo "harness error: the simulated system does not build" >&2
  tail -n 40 "$D/build.log" >&2
  exit 2
fi
case "${1:-}" in
  setup) exit 0 ;;
  replay)
    "$D/vsim" exec "$2" >"$D/out.json"
    rc=$?
    cat "$D/out.json"
    if [ $rc = 1 ]; then
      P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["spec"].get("prop",""))' "$2")
      echo "VIOLATION property=$P replay=$2"
    fi
    exit $rc ;;
  *) "$D/vsim" check "$1" "${2:-quick}"; exit $? ;;
esac
