#!/bin/bash
# usage: check.sh PROP | check.sh build | check.sh replay FILE
# Builds the monitors against /repo's current working tree and runs one property's campaign.
set -uo pipefail
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
[ "${1:-}" = replay ] && set -- replay "$(realpath "$2")"
here="$(cd "$(dirname "$0")" && pwd)"
export CYKMON_ROOT="$here"
cd "$here/harness" || exit 3
build() { # bin [extra cargo args]
  local log; log="$(mktemp)"
  if ! cargo build --release --offline --locked "$@" >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "check.sh: build failed" >&2; exit 3
  fi
  rm -f "$log"
}
asan() { # the monitors and the program under AddressSanitizer with the standard library's UB checks on
  RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes" CARGO_TARGET_DIR="$here/harness/target/asan" \
    build --bin cykmon --target x86_64-unknown-linux-gnu
}
export ASAN_OPTIONS=exitcode=99:detect_leaks=0
asan_bin=./target/asan/x86_64-unknown-linux-gnu/release/cykmon
bin_of() { case "$1" in C26|C27|C28|C29) echo libmon;; *) echo cykmon;; esac; }
case "${1:-}" in
  build) build --bins; asan; exit 0;;
  replay) grep -q '^camp .* sanitized$' "$2" && { asan; CYK_SAN=1 exec $asan_bin replay "$2"; }
    b=cykmon; grep -q '^lib ' "$2" && b=libmon; build --bin $b; exec ./target/release/$b replay "$2";;
  C33) asan; build --bin cykmon
    t=25; [ "${VERIF_TIER:-quick}" = thorough ] && t=1200
    CYK_SAN=1 CYK_SECONDS=$t $asan_bin check C33; rc=$?
    [ $rc -eq 0 ] || exit $rc
    exec ./target/release/cykmon check C33;;
  C*) b=$(bin_of "$1"); build --bin $b; exec ./target/release/$b check "$1";;
  *) echo "usage: check.sh PROP" >&2; exit 3;;
esac
