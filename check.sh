#!/usr/bin/env bash
# usage: check.sh <property id> [quick|thorough]
# Builds the harness against /repo's current working tree and decides the property.
set -u
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-2024-09-05}" CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export VERIF_DIR="$HERE" VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
case "$ID" in
  C01|C02)                 CRATE=mc;  BIN=erc20 ;;
  C03|C04)                 CRATE=mc;  BIN=erc20x ;;
  C05|C06|C07)             CRATE=mc;  BIN=vault ;;
  C08|C09|C10|C11|C12|C13|C15|C16|C17) CRATE=mc; BIN=nft ;;
  C14|C18|C29)             CRATE=mc;  BIN=meta ;;
  C19|C20|C21|C22)         CRATE=mc;  BIN=access ;;
  C23)                     CRATE=mc;  BIN=vesting ;;
  C24|C25|C26|C27|C28)     CRATE=mc;  BIN=utils ;;
  C30)                     CRATE=mc;  BIN=reent ;;
  C31|C32)                 CRATE=mcc; BIN=merkle ;;
  C33)                     CRATE=mcc; BIN=arith ;;
  C34)                     CRATE=mcc; BIN=field ;;
  C35)                     CRATE=mcc; BIN=curve ;;
  C36)                     CRATE=mcc; BIN=poseidon ;;
  C38)                     CRATE=mc;  BIN=errs ;;
  C37)                     CRATE=mcx; BIN=mcx ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
cd "$HERE/$CRATE" || exit 2
# Rebuild from the current contents of /repo whatever the timestamps say.
STAMP="$("$HERE/tools/repo_stamp.sh")"
mkdir -p target
exec 9>target/.verif-lock; flock 9
if [ "$(cat target/.repo-stamp 2>/dev/null)" != "$STAMP" ]; then
  rm -f target/.repo-stamp
  cargo clean --offline -q -p openzeppelin-crypto >/dev/null 2>&1
  [ "$CRATE" = mcx ] && cargo clean --offline -q -p mcx >/dev/null 2>&1
  if [ "$CRATE" != mcc ]; then cargo clean --offline -q -p openzeppelin-stylus -p openzeppelin-stylus-proc >/dev/null 2>&1; fi
fi
LOG="target/build-$BIN.log"
if ! cargo build --offline --locked -q --bin "$BIN" >"$LOG" 2>&1; then
  grep -E '^(error|warning: unused)' -A6 "$LOG" | head -60 >&2
  echo "error: the harness does not build against /repo" >&2
  exit 2
fi
echo "$STAMP" > target/.repo-stamp
unset VERIF_WASM
case "$ID" in C33|C34) . "$HERE/tools/wasm.sh" ;; esac
cp "target/debug/$BIN" "target/run-$BIN-$$"
flock -u 9
trap 'rm -f "$HERE/$CRATE/target/run-$BIN-$$"' EXIT
ERR="$HERE/$CRATE/target/run-$BIN-$$.err"
trap 'rm -f "$HERE/$CRATE/target/run-$BIN-$$" "$ERR"' EXIT
timeout -k 5 "${VERIF_TIMEOUT:-$([ "$TIER" = quick ] && echo 600 || echo 14400)}" "$HERE/$CRATE/target/run-$BIN-$$" "$ID" 2> >(tee "$ERR" >&2)
RC=$?
case $RC in
  101|124|134|139)
    # The code under test brought the exploration down (a panic where the
    # specification has none, endless recursion) or never came back.
    mkdir -p "$HERE/evidence"
    R="$HERE/evidence/$ID.replay.txt"
    { echo "property: $ID"; echo "the exploration was ended by the code under test: status $RC (101 panic, 124 no end, 134/139 crash)"; tail -n 20 "$ERR" | cut -c1-600; } > "$R"
    echo "VIOLATION property=$ID replay=$R"
    RC=1 ;;
esac
[ $RC -eq 0 ] || [ $RC -eq 1 ] || echo "error: check ended with $RC" >&2
exit $RC
