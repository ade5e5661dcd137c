#!/bin/bash
# run.sh <property> [--replay FILE] | run.sh --build <property>
# Builds the property's check from /repo's working tree and runs it.
# Exit 0: held; 1: violated (VIOLATION line); anything else: error of the check.
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
if [ "$1" = "--build" ]; then ID=$2; BUILD_ONLY=1; else ID=$1; BUILD_ONLY=; fi
case $ID in
  C01|C02|C03|C04|C05|C06|C07) BIN=image; GROUPS_="" ;;
  C28) BIN=effort; GROUPS_="math neighbors dbscan" ;;
  C27) BIN=memory; GROUPS_="" ;;
  C08|C09|C10|C26) BIN=color; GROUPS_="math color" ;;
  C11|C12) BIN=neighbors; GROUPS_="math neighbors" ;;
  C13|C14) BIN=dbscan; GROUPS_="math dbscan" ;;
  C15|C16|C17|C29) BIN=kmeans; GROUPS_="math kmeans" ;;
  C18) BIN=graph; GROUPS_="math graph" ;;
  C19|C20|C24) BIN=hierarchical; GROUPS_="math hierarchical" ;;
  C21) BIN=hdbscan; GROUPS_="math hdbscan" ;;
  C30) BIN=refuse; GROUPS_="math hierarchical hdbscan kmeans dbscan" ;;
  C22|C23|C25) BIN=math; GROUPS_="math" ;;
  *) echo "unknown property: $ID" >&2; exit 2 ;;
esac
FLAGS=""
if [ -n "$GROUPS_" ]; then
  FLAGS="--cfg verif_hooks"
  for g in $GROUPS_; do FLAGS="$FLAGS --cfg verif_hooks=\"$g\""; done
fi
TARGET=$ROOT/target/$BIN
mkdir -p "$TARGET"
# cargo compares modification times: make sure a source restored with an old time is noticed.
STAMP=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$TARGET/source.sha256" 2>/dev/null)" != "$STAMP" ]; then
  rm -rf "$TARGET"/release/.fingerprint/auto-palette-* 2>/dev/null
fi
LOG=$TARGET/build.log
if ! RUSTFLAGS="$FLAGS" cargo build --release --offline --manifest-path "$ROOT/harness/Cargo.toml" \
     --target-dir "$TARGET" --bin "$BIN" >"$LOG" 2>&1; then
  grep -E '^error' -A15 "$LOG" >&2 || tail -50 "$LOG" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$STAMP" > "$TARGET/source.sha256"
[ -n "$BUILD_ONLY" ] && exit 0
# Run-away allocations end the check's process, not the sandbox.
ulimit -v 20000000
exec "$TARGET/release/$BIN" "$@"
