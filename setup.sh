#!/bin/bash
# Generates the buildable tree from /repo and builds every check binary.
set -u
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF_DIR/build" "$VERIF_DIR/evidence"
python3 "$VERIF_DIR/tools/gentree.py" "$REPO_DIR" "$VERIF_DIR/build/tree" "$VERIF_DIR/shims" >&2 || exit 2
cd "$VERIF_DIR/harness" && cargo build --offline --bins >&2
