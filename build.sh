#!/bin/bash
# build.sh [sim|c|py|js|all] : builds the simulator against /repo's current working tree. Offline.
#  sim  the scenarios on the Rust library; c, py, js  the same with the C interface, the Python or the JavaScript package on top
set -u
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=/verif/sim/rustc_wrap.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
one() { # package-folder binary target-folder what-to-watch...
  local dir=$1 bin=$2; export CARGO_TARGET_DIR=$3; shift 3
  cd /verif/"$dir" || exit 2
  mkdir -p "$CARGO_TARGET_DIR"
  exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
  # content, not time stamps, decides whether the code under test is compiled again
  h=$(cd /repo && find "$@" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$h" != "$(cat "$CARGO_TARGET_DIR/.repo-hash-$bin" 2>/dev/null)" ]; then
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/ms_toollib-* "$CARGO_TARGET_DIR"/debug/.fingerprint/ms_core_js-* "$CARGO_TARGET_DIR"/debug/.fingerprint/ms_wasm-* 2>/dev/null
  fi
  cargo build --offline -q --bin "$bin" 2>"$CARGO_TARGET_DIR/build-$bin.log" || { grep -E "^error" -A12 "$CARGO_TARGET_DIR/build-$bin.log" | head -80; exit 2; }
  echo "$h" >"$CARGO_TARGET_DIR/.repo-hash-$bin"
  exec 9>&-
}
what=${1:-all}
case $what in sim|all) one sim simcheck /verif/target base/src base/Cargo.toml ;; esac
case $what in c|all) one sim simc /verif/target base/src base/Cargo.toml c/src ;; esac
case $what in py|all) one simpy simpy /verif/target/py base/src base/Cargo.toml python_package/src python_package/Cargo.toml ;; esac
case $what in js|all) one simjs simjs /verif/target/js base/src base/Cargo.toml wasm/src wasm/Cargo.toml ;; esac
