#!/bin/bash
# try.sh <name> <patch|-R commit> [ids...]: runs checks against a scratch copy of /repo with a change.
# Development aid only; the registered checks run against /repo itself.
V="$(cd "$(dirname "$0")/.." && pwd)"
name=$1; shift
T=/tmp/try.$name.$$
mkdir -p "$T/out"
git -C /repo worktree prune
git clone -q /repo "$T/repo" || exit 2
if [ "$1" = "-R" ]; then
  (cd "$T/repo" && git -c user.name=x -c user.email=x@x revert --no-commit "$2" >/dev/null 2>&1) || { echo "$name: does not revert"; rm -rf "$T"; exit 2; }
  shift 2
else
  git -C "$T/repo" apply "$(realpath "$1")" || { echo "$name: does not apply"; rm -rf "$T"; exit 2; }
  shift
fi
mkdir -p "$T/target"; cp -a "$V/.build/sut/debug" "$T/target/debug"
rm -rf "$T/target/debug/.fingerprint/"silverfox-*
(cd "$T/repo" && CARGO_NET_OFFLINE=true cargo build --offline --locked --quiet --target-dir "$T/target" 2>"$T/log") || { echo "$name: does not build"; tail -5 "$T/log"; rm -rf "$T"; exit 2; }
ids="${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}"
res=""
for id in $ids; do
  VERIF_ROOT="$T/out" SIM_SHIM="$V/.build/shim.so" SIM_BINARY="$T/target/debug/silverfox" SIM_SHRINK="${SIM_SHRINK:-0}" \
    "$V/.build/sim/release/sim" check $id >"$T/out/$id.log" 2>&1
  rc=$?
  n=$(grep -o "^$id quick seed [0-9]*: [0-9]*" "$T/out/$id.log" | awk '{print $NF}')
  res="$res $id=$rc($n)"
done
echo "$name:$res"
rm -rf "$T"
