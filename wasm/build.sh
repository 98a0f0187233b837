#!/bin/bash
# builds the crate under test for wasm32-unknown-unknown: build.sh BUILD_DIR -> BUILD_DIR/wasm/.../wasmrun.wasm
# The standard library for that target is compiled from the toolchain's own sources; the one crate it
# needs that is not on this machine (its allocator) is replaced by a stub, as the module has its own.
set -e
W=$(cd "$(dirname "$0")" && pwd)
B=$1
S=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library
if [ ! -e "$B/wsrc/done" ]; then
  rm -rf "$B/wsrc"
  mkdir -p "$B/wsrc"
  cp -r "$S" "$B/wsrc/library"
  cp -r "$W/dlmalloc-stub" "$B/wsrc/library/dlmalloc-stub"
  python3 - "$B/wsrc/library" <<'P'
import sys
d = sys.argv[1]
s = open(d + '/Cargo.lock').read()
a = s.index('[[package]]\nname = "dlmalloc"')
b = s.index('[[package]]', a + 5)
v = [l for l in s[a:b].splitlines() if l.startswith('version')][0]
s = s[:a] + '[[package]]\nname = "dlmalloc"\n' + v + '\ndependencies = [\n "rustc-std-workspace-core",\n]\n\n' + s[b:]
open(d + '/Cargo.lock', 'w').write(s)
c = open(d + '/Cargo.toml').read()
assert '[patch.crates-io]\n' in c
open(d + '/Cargo.toml', 'w').write(c.replace('[patch.crates-io]\n', "[patch.crates-io]\ndlmalloc = { path = 'dlmalloc-stub' }\n", 1))
f = d + '/dlmalloc-stub/Cargo.toml'
t = open(f).read()
open(f, 'w').write(t.replace('version = "0.2.14"', v))
P
  touch "$B/wsrc/done"
fi
cd "$W"
CARGO_TARGET_DIR=$B/wasm __CARGO_TESTS_ONLY_SRC_ROOT=$B/wsrc/library cargo +nightly build --release --offline --target wasm32-unknown-unknown -Zbuild-std=std,panic_abort
