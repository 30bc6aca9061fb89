#!/bin/bash
# check.sh ID                   run one check against /repo's working tree (VERIF_SEED, VERIF_TIER)
# check.sh build                build the harness only
# check.sh replay ID SEED IDX   run one recorded case again
cd "$(dirname "$0")" || exit 2
export VH_DIR="$PWD" VH_SHIM="$PWD/harness/target/drv.so" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET VH_EXTRA
T="$VH_DIR/harness/target"
mkdir -p "$T"
die() { tail -40 "$1"; echo "$2"; exit 2; }
harness() { # stable release build
    (cd harness && cargo build --release --offline --bins) >"$T/build.log" 2>&1
}
shim() { # the C side of C09, against the header of the tree
    rm -f "$T/drv.so"
    gcc -O1 -fPIC -shared -I../repo/c harness/c/drv.c -o "$T/drv.so" >"$T/drv.log" 2>&1
}
cli() { # the command line tool, with checked arithmetic
    CARGO_TARGET_DIR="$T/cli" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
        cargo build --release --offline --bin divans --manifest-path ../repo/Cargo.toml >"$T/cli.log" 2>&1
}
feat() { # the codec with the given features; a set that does not build is left out and named
    local n="${1//,/+}"
    rm -f "$T/feat/$n/release/feat"
    (cd harness/feat && CARGO_TARGET_DIR="$T/feat/$n" cargo build --release --offline --locked --no-default-features --features "$1") >"$T/feat-$n.log" 2>&1 ||
        echo "note: the feature set $1 does not build: $T/feat-$n.log"
}
tsan() { # everything, the standard library included, under ThreadSanitizer
    (cd harness && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread" CARGO_TARGET_DIR="$T/tsan" \
        cargo build --release --offline -Zbuild-std --target x86_64-unknown-linux-gnu --bin vh) >"$T/tsan.log" 2>&1
}
asan() { # the same under AddressSanitizer
    (cd harness && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$T/asan" \
        cargo build --release --offline --target x86_64-unknown-linux-gnu --bin vh) >"$T/asan.log" 2>&1
}
feats() {
    local f p=
    mkdir -p "$T/feat"
    for f in std std,avoid-divide std,uncached_frequentist std,findspeed std,billing std,safe std,no-inline std,portable-simd,avx2; do feat "$f" & p="$p $!"; done
    wait $p
}
withasan() { # $1: cases under the sanitizer
    asan & p=$!
    build
    wait $p || die "$T/asan.log" "the sanitizer build does not work"
    ASAN_OPTIONS=exitcode=66:detect_leaks=0 "$T/asan/x86_64-unknown-linux-gnu/release/vh" oob 2>/dev/null
    [ $? = 66 ] || { echo "the sanitizer does not report a bad access"; exit 2; }
    n=$1; [ "$VERIF_TIER" = thorough ] && n=$((n * 40))
    export VH_EXTRA="asan|$T/asan/x86_64-unknown-linux-gnu/release/vh|$n|ASAN_OPTIONS=exitcode=66:detect_leaks=0:allocator_may_return_null=1"
}
build() {
    harness || die "$T/build.log" "harness does not build"
}
case "$1" in
build) # everything any check needs, so that the checks only rebuild what changed
    build; shim; cli; tsan; asan; feats; exit 0 ;;
replay) build; shim; shift; exec "$T/release/vh" replay "$@" ;;
esac
id="$1"
case "$id" in
C05) withasan 1500 ;;
C09) shim; withasan 300 ;;
C16) withasan 4000 ;;
C21) cli & p=$!; build; wait $p || die "$T/cli.log" "the tool does not build" ;;
C24)
    feats & p=$!
    build
    wait $p
    ;;
C19)
    tsan & p=$!
    build
    wait $p || die "$T/tsan.log" "the sanitizer build does not work"
    TSAN_OPTIONS=exitcode=66 "$T/tsan/x86_64-unknown-linux-gnu/release/vh" race 2>/dev/null
    [ $? = 66 ] || { echo "the sanitizer does not report a race"; exit 2; }
    n=1500; [ "$VERIF_TIER" = thorough ] && n=60000
    export VH_EXTRA="tsan|$T/tsan/x86_64-unknown-linux-gnu/release/vh|$n|TSAN_OPTIONS=halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    ;;
esac
build
"$T/release/vh" check "$id"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
