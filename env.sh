# Sourced by setup.sh and run.sh: the environment, and the building of what the checks need.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VH_REPO:-/repo}"
BUILD="$VERIF/build"
export HOME=/root
export PATH="/usr/local/bin:/usr/bin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=1.85.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=0
export RUSTC_WRAPPER= NO_COLOR=true LC_ALL=C.UTF-8
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_BUILD_JOBS
export VH_HOME="$VERIF"
export VH_TYPICAL="$BUILD/typical/debug/typical"
export VH_VLIB="$BUILD/harness/release/libvlib.rlib"
export VH_TS_EXEC="$VERIF/harness/src/ts_exec.mjs"
mkdir -p "$BUILD"

# Cargo goes by modification times; these builds go by contents.
build_harness() {
  local stamp="$BUILD/harness.sha256" now
  now=$(cd "$VERIF/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum)
  if [ ! -x "$BUILD/harness/release/vh" ] || [ ! -f "$stamp" ] || [ "$now" != "$(cat "$stamp")" ]; then
    rm -rf "$BUILD"/harness/release/.fingerprint/vlib-*
    cargo build --quiet --release --locked --offline --manifest-path "$VERIF/harness/Cargo.toml" \
      --target-dir "$BUILD/harness" || return 1
    printf '%s\n' "$now" > "$stamp"
  fi
}
build_typical() {
  local stamp="$BUILD/typical.sha256" now
  now=$(cd "$REPO" && find . \( -path ./target -o -path ./.git -o -name node_modules \) -prune -o -type f \
    \( -path './src/*' -o -name 'Cargo.toml' -o -name 'Cargo.lock' -o -name 'build.rs' -o -path './.cargo/*' \) -print0 | sort -z | xargs -0 sha256sum)
  if [ ! -x "$VH_TYPICAL" ] || [ ! -f "$stamp" ] || [ "$now" != "$(cat "$stamp")" ]; then
    rm -f "$stamp"
    rm -rf "$BUILD"/typical/debug/.fingerprint/typical-*
    cargo build --quiet --locked --offline --manifest-path "$REPO/Cargo.toml" --bin typical \
      --target-dir "$BUILD/typical" || return 1
    printf '%s\n' "$now" > "$stamp"
  fi
}
prepare() {
  exec 9>"$BUILD/lock"
  flock 9
  build_harness && build_typical
  local code=$?
  flock -u 9
  exec 9>&-
  return $code
}
