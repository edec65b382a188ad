#!/bin/bash
# run.sh <property> <quick|thorough>   -- build the harness against /repo and run one check
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only OPENBLAS_NUM_THREADS=1 RUST_BACKTRACE=0
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$V/target"
mkdir -p "$V/target" "$V/evidence" "$V/replay"
(
  flock 9
  # start from the registry crates the repository's own build compiled, if they are there
  if [ ! -d "$V/target/debug" ] && [ -d /repo/target/debug/deps ]; then
    mkdir -p "$V/target/debug"
    for d in deps build .fingerprint; do cp -a "/repo/target/debug/$d" "$V/target/debug/" 2>/dev/null; done
  fi
  cd "$V/harness" && cargo build --offline >"$V/target/build.log" 2>&1
) 9>"$V/target/.lock"
if [ $? -ne 0 ]; then
  tail -60 "$V/target/build.log"; echo "harness build failed"; exit 2
fi
[ "$1" = build ] && exit 0
export GLMMC_FD=3 GLMMC_ROOT="$V"
cd "$V" && exec "$V/target/debug/glmmc" "$@" 3>&1 >/dev/null 2>&1
