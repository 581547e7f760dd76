#!/bin/bash
# run.sh ID            builds the harness against /repo's working tree and runs the check of ID
# run.sh build         builds only
# run.sh replay FILE   re-runs the case of a replay file
# VERIF_SEED / VERIF_TIER=quick|thorough are read from the environment.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$V/target" VH_DIR="$V" RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir -p "$V/target" "$V/evidence"
BIN="$V/target/debug/vharness"

content() { (cd "$1" && shift && find "$@" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.tl' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum; }

build() {
  # Freshness is decided by contents, not by time stamps
  local repo own
  repo=$(content /repo src Cargo.toml)
  own=$(content "$V/harness" src core Cargo.toml Cargo.lock)
  if [ -x "$BIN" ] && [ "$(cat "$V/target/stamp" 2>/dev/null)" = "$repo/$own" ]; then return 0; fi
  if [ "$(cat "$V/target/stamp.repo" 2>/dev/null)" != "$repo" ]; then
    (cd "$V/harness" && cargo clean --offline -p everscale-network >/dev/null 2>&1)
  fi
  rm -f "$V/target/stamp"
  if ! (cd "$V/harness" && cargo build --offline --locked > "$V/target/build.log" 2>&1); then
    grep -E '^error' -A 8 "$V/target/build.log" | head -60
    echo "the harness does not build against /repo"
    return 1
  fi
  echo "$repo" > "$V/target/stamp.repo"
  echo "$repo/$own" > "$V/target/stamp"
}

exec 9> "$V/target/.lock"
flock 9
build || exit 3
flock -u 9
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" "$1" ;;
esac
