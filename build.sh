#!/bin/bash
# Sourced by check.sh and run by setup: builds the harness, sets MC_BIN.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
# lints are no business of a check (the library denies warnings)
export RUSTFLAGS="--cap-lints warn -Awarnings"
mc_here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mc_features=
[ "$1" = C26 ] && mc_features="--features wasm"
mc_dir=${MC_TARGET_DIR:-$mc_here/mc/target}
mc_build() {
  cd "$mc_here/mc" || return 1
  # cargo goes by modification times; a copied or restored tree may have old ones, so go by content
  local now
  now=$(cd /repo && find src wasm/src Cargo.toml wasm/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$mc_dir/repo${mc_features:+-wasm}.sha" 2>/dev/null)" != "$now" ]; then
    rm -f "$mc_dir/repo${mc_features:+-wasm}.sha"
    [ -d "$mc_dir/release" ] && cargo clean --release --offline --locked --target-dir "$mc_dir" -p cesride $([ -n "$mc_features" ] && echo -p cesride-wasm) 2>/dev/null
  fi
  cargo build --release --offline --locked --target-dir "$mc_dir" $mc_features || return 1
  echo "$now" > "$mc_dir/repo${mc_features:+-wasm}.sha"
}
( mc_build ) >&2 || return 2 2>/dev/null || exit 2
MC_BIN=$mc_dir/release/mc
