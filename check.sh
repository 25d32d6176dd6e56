#!/bin/bash
# check.sh BIN ID quick|thorough : rebuild from /repo's working tree and run one check.
# exit 0 held, 1 VIOLATION, 2 could not build.
set -u
. "$(dirname "$0")/env.sh"
bin=$1 id=$2 tier=$3
echo "[check $id] target present: $([ -d "$CARGO_TARGET_DIR/debug" ] && echo yes || echo no); tree present: $([ -d "$VERIF_DIR/build/tree" ] && echo yes || echo no)" >&2
mkdir -p "$VERIF_DIR/build" "$VERIF_DIR/evidence"
t0=$(date +%s)
(
  flock 9
  python3 "$VERIF_DIR/tools/gentree.py" "$REPO_DIR" "$VERIF_DIR/build/tree" "$VERIF_DIR/shims" >&2 || exit 2
  cd "$VERIF_DIR/harness" && cargo build --offline --bin "$bin" $([ "$bin" = h_cli ] && echo --bin fc) >"$VERIF_DIR/build/build-$bin.log" 2>&1 || {
    grep -E -A12 '^error' "$VERIF_DIR/build/build-$bin.log" | head -60 >&2; exit 2; }
) 9>"$VERIF_DIR/build/lock" || exit 2
echo "[check $id] build took $(( $(date +%s) - t0 )) s" >&2
"$CARGO_TARGET_DIR/debug/$bin" check "$id" "$tier"
