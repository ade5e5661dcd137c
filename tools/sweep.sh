#!/bin/bash
# sweep.sh [ID...]: apply every planted bug in turn and run its property's check. Works in copies of
# /repo and of /verif's working tree below $W (default /tmp/sd/sw).
ROOT=$(cd "$(dirname "$0")/.." && pwd)
W=${W:-/tmp/sd/sw}
mkdir -p "$W" && rm -rf "${W:?}/repo" && cp -a /repo "$W/repo" && git -C "$W/repo" checkout -q -- . || exit 2
mkdir -p "$W/verif" && cp -r "$ROOT/harness" "$ROOT/run.sh" "$ROOT/known_findings.txt" "$W/verif/" || exit 2
sed -i "s#\"/repo\"#\"$W/repo\"#" "$W/verif/harness/Cargo.toml"
sed -i "s#cd /repo#cd $W/repo#" "$W/verif/run.sh"
if [ $# -eq 0 ]; then set -- $(ls "$ROOT/seeded"); fi
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$ROOT/seeded/$id/meta.json")
  prop=${CHECK:-$prop}
  git -C "$W/repo" apply "$ROOT/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  start=$(date +%s)
  out=$("$W/verif/run.sh" "$prop" 2>&1); rc=$?
  git -C "$W/repo" checkout -q -- .
  verdict=MISSED
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then verdict=caught
  elif [ $rc -ne 0 ]; then verdict="ERROR($rc)"; fi
  echo "$id $prop $verdict $(( $(date +%s) - start ))s"
done
