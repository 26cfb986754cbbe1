# Builds mcw, the arithmetic as WebAssembly, from /repo's current tree; sets VERIF_WASM.
# Where there is no WebAssembly target or no node, the variable stays unset.
if command -v node >/dev/null && [ -d "$(rustc --print sysroot 2>/dev/null)/lib/rustlib/wasm32-unknown-unknown" ]; then
  mkdir -p "$HERE/mcw/target"
  W="$HERE/mcw/target/wasm32-unknown-unknown/release/mcw.wasm"
  if [ "$(cat "$HERE/mcw/target/.repo-stamp" 2>/dev/null)" != "$STAMP" ]; then
    rm -f "$HERE/mcw/target/.repo-stamp"
    (cd "$HERE/mcw" && cargo clean --offline -q --release --target wasm32-unknown-unknown -p openzeppelin-crypto) >/dev/null 2>&1
    if (cd "$HERE/mcw" && cargo build --offline --locked -q --release --target wasm32-unknown-unknown) >"$HERE/mcw/target/build.log" 2>&1; then
      echo "$STAMP" > "$HERE/mcw/target/.repo-stamp"
    else
      echo "warning: no WebAssembly build of openzeppelin-crypto, see mcw/target/build.log" >&2
    fi
  fi
  if [ -f "$HERE/mcw/target/.repo-stamp" ]; then export VERIF_WASM="$W"; fi
fi
