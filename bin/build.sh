#!/bin/bash
# Builds the simulator and every configuration of the code under test from /repo's working tree.
# usage: build.sh OUTDIR   (modules land in OUTDIR/mods, the simulator in OUTDIR/sim)
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
out="$1"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-04-20 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_INCREMENTAL ENSURE_NO_PANIC
unset CARGO_PROFILE_DEV_DEBUG LD_PRELOAD LD_BIND_NOW
mkdir -p "$out/mods" "$out/log"
one() { # name profile-flag profile-dir features
    ( cd "$here/sut" && cargo build --offline --locked $2 --features "$4" --target-dir "$out/t-$1" ) >"$out/log/$1" 2>&1 || return 1
    cp "$out/t-$1/$3/libsut.so" "$out/mods/$1.so" && cp "$out/t-$1/$3/libsut.so" "$out/mods/$1.b.so"
}
# Instrumented build, for choosing operands only.
cov() {
    ( cd "$here/sut" && RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-prune-blocks=0 -Cllvm-args=-sanitizer-coverage-pc-table" \
        cargo build --offline --locked --profile cov --features "$2" --target x86_64-unknown-linux-gnu --target-dir "$out/t-$1" ) >"$out/log/$1" 2>&1 || return 1
    cp "$out/t-$1/x86_64-unknown-linux-gnu/cov/libsut.so" "$out/mods/cov/$1.so"
}
rm -f -- "$out"/mods/*.so "$out"/mods/*.odd "$out"/mods/cov/*.so
mkdir -p "$out/mods/cov"
( cd "$here/sim" && cargo build --offline --locked --release --target-dir "$out/t-sim" ) >"$out/log/sim" 2>&1 & psim=$!
one rel-arch "--release" release arch &
one rel-soft "--release" release arch,soft &
one rel-intr "--release" release arch,intrinsics &
one dbg-arch "" debug arch &
one chk-none "--profile chk" chk "" &
cov cov-arch arch,cov &
cov cov-soft soft,cov &
wait "$psim"; rc=$?
wait
made=0
for c in rel-arch rel-soft rel-intr dbg-arch chk-none; do
    if [ -s "$out/mods/$c.b.so" ]; then made=$((made + 1)); else
        rm -f -- "$out/mods/$c.so"
        echo "note: configuration $c does not build and is left out:"
        tail -n 5 "$out/log/$c"
    fi
done
for c in cov-arch cov-soft; do
    [ -s "$out/mods/cov/$c.so" ] || echo "note: the instrumented build $c is left out: $(tail -n 3 "$out/log/$c" | tr '\n' ' ')"
done
if [ $rc -ne 0 ] || [ $made -eq 0 ]; then
    echo "HARNESS ERROR: build failed" >&2
    tail -n 30 "$out"/log/* >&2
    exit 3
fi
cp "$out/t-sim/release/sim" "$out/sim"
"$out/sim" odd --mods "$out/mods" || exit 3
