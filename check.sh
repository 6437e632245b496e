#!/bin/bash
# check.sh <property> <quick|thorough> | build | replay <file> | one <property> <index>
# Rebuilds the simulator and the scenarios against /repo's working tree, then runs.
cd "$(dirname "$0")" || exit 2
root=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PYO3_PYTHON=/usr/bin/python3
export CARGO_TARGET_DIR=$root/.target RUSTC_WRAPPER=$root/sim/rustc-wrap.sh
unset RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" evidence out

build() {
  exec 9>"$root/.target/build.lock"
  flock 9
  # Content, not modification times, decides what is rebuilt.
  h=$(cd /repo && find crates Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  h="$h $(cd "$root/sim" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
  if [ -e .target/tree.hash ] && [ "$h" = "$(cat .target/tree.hash)" ] && [ -x .target/debug/dst ]; then
    return 0
  fi
  if [ -d .target/debug ]; then
    (cd sim && cargo clean --offline -p dst -p simrt $(sed -n 's/^\(RustQuant_[a-z]*\) = .*/-p \1/p' dst/Cargo.toml) -p RustQuant_error) >/dev/null 2>&1
  fi
  rm -f .target/tree.hash
  if ! (cd sim && cargo build --offline --locked) >.target/build.log 2>&1; then
    grep -E "^error" -A12 .target/build.log | head -60 >&2
    echo "build of the simulation failed; see $root/.target/build.log" >&2
    return 1
  fi
  echo "$h" >.target/tree.hash
  exec 9>&-
}

build || exit 2
export DST_ROOT=$root
case "$1" in
  build) exit 0 ;;
  replay|one) exec .target/debug/dst "$@" ;;
  *) exec .target/debug/dst check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
