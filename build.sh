#!/bin/bash
# Brings .build up to date with /verif and with /repo's working tree.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
R="${SILVERFOX_REPO:-/repo}"
B="$V/.build"
mkdir -p "$B"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR

hash_of() { (cd "$1" && shift && find "$@" -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1); }

# the simulated libc
h=$(hash_of "$V/shim" .)
if [ ! -f "$B/shim.so" ] || [ "$(cat "$B/shim.stamp" 2>/dev/null)" != "$h" ]; then
  gcc -O2 -fPIC -shared -fvisibility=hidden -fno-delete-null-pointer-checks -U_FORTIFY_SOURCE -w -o "$B/shim.so.new" "$V/shim/shim.c" -ldl
  mv "$B/shim.so.new" "$B/shim.so"; echo "$h" > "$B/shim.stamp"
fi

# the simulator
h=$(hash_of "$V" sim/src sim/Cargo.toml sim/Cargo.lock)
if [ ! -x "$B/sim/release/sim" ] || [ "$(cat "$B/sim.stamp" 2>/dev/null)" != "$h" ]; then
  find "$V/sim/src" -name '*.rs' -exec touch {} +
  cargo build --release --offline --quiet --manifest-path "$V/sim/Cargo.toml" --target-dir "$B/sim" >"$B/sim.log" 2>&1 || { cat "$B/sim.log" >&2; exit 2; }
  echo "$h" > "$B/sim.stamp"
fi

# silverfox, from the working tree (content decides, not time stamps)
h=$(hash_of "$R" src Cargo.toml Cargo.lock)
if [ ! -x "$B/sut/debug/silverfox" ] || [ "$(cat "$B/sut.stamp" 2>/dev/null)" != "$h" ]; then
  rm -f "$B/sut.stamp"
  [ -d "$B/sut/debug/.fingerprint" ] && rm -rf "$B/sut/debug/.fingerprint/"silverfox-*
  cargo build --offline --locked --quiet --manifest-path "$R/Cargo.toml" --target-dir "$B/sut" >"$B/sut.log" 2>&1 \
    || { cat "$B/sut.log" >&2; exit 2; }
  echo "$h" > "$B/sut.stamp"
fi
