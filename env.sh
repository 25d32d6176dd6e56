# sourced by setup.sh and check.sh
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export REPO_DIR="${REPO_DIR:-/repo}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$VERIF_DIR/build/target"
export CARGO_TERM_COLOR=never
# what cli/build.rs would supply
export SNAPCHAIN_PROTO_VERSION="$(sed -n 's/^version = "\(.*\)"/\1/p' "$REPO_DIR/proto/Cargo.toml" | head -1)"
