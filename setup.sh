#!/usr/bin/env bash
# Builds every harness binary once (checks rebuild what changed in /repo themselves).
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-2024-09-05}" CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
STAMP="$("$HERE/tools/repo_stamp.sh")"
for c in mc mcc mcx; do
  [ -d "$HERE/$c" ] || continue
  mkdir -p "$HERE/$c/target"
  rm -f "$HERE/$c/target/.repo-stamp"
  (cd "$HERE/$c" && cargo build --offline --locked -q --bins)
  echo "$STAMP" > "$HERE/$c/target/.repo-stamp"
done
. "$HERE/tools/wasm.sh"
exit 0
