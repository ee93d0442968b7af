#!/bin/bash
# check.sh build | check ID | replay FILE | any other dst command
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTC_WRAPPER=$here/sim/wrap.sh CARGO_TARGET_DIR=$here/target CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export VERIF_ROOT=$here
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.build.lock"
flock 9
# cargo decides by file times; decide by content as well, so that a change with an old time is seen
sum=$(cd /repo && { find src -type f -name '*.rs' -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
stamp=$CARGO_TARGET_DIR/.repo.sum
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  (cd "$here/sim" && cargo clean --release --offline -p rust-quantlib -q 2>/dev/null)
fi
log=$CARGO_TARGET_DIR/build.log
if ! (cd "$here/sim" && cargo build --release --offline --locked -q) >"$log" 2>&1; then
  cat "$log" >&2
  echo "BUILD-ERROR: the code under test does not build with the harness" >&2
  exit 3
fi
echo "$sum" >"$stamp"
bin=$CARGO_TARGET_DIR/release/dst
run=$CARGO_TARGET_DIR/dst.$$
cp "$bin" "$run"
flock -u 9
exec 9>&-
if [ "${1:-build}" = build ]; then rm -f "$run"; exit 0; fi
cd "$here" || exit 3
"$run" "$@"
rc=$?
rm -f "$run"
exit $rc
