#!/bin/bash
# check.sh ID                        run one property's check (VERIF_SEED, VERIF_TIER)
# check.sh replay ID SEED TIER CASE  re-run one case, printing its input
# check.sh build [ID]                build only
# Exit 0 held, 1 violation (with a VIOLATION line), 2 could not decide.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
# the program that holds a property's monitor
bin_of() {
    f=$(grep -l "id: \"$1\"" mon/src/bin/*.rs | head -1)
    [ -n "$f" ] || { echo "no such property: $1" >&2; exit 2; }
    basename "$f" .rs
}
build() {
    if ! cargo build --release --offline --manifest-path mon/Cargo.toml "$@" >mon/build.log 2>&1; then
        tail -40 mon/build.log >&2
        echo "the monitored build failed" >&2
        exit 2
    fi
}
# One probe program per feature set of the crate. One that only fails to
# compile inside the crate itself, while the default set compiles, is a
# violation of C34.
probes() {
    mkdir -p probe/target
    for f in std,pregenerated "" pregenerated std std,pregenerated,tracing pregenerated,tracing; do
        n=$(echo "${f:-none}" | tr , -)
        (
            cargo build --offline --manifest-path probe/Cargo.toml --no-default-features --features "$f" \
                --target-dir "probe/target/$n" >"probe/target/$n.log" 2>&1
            echo $? >"probe/target/$n.rc"
        ) &
    done
    wait
    for n in std-pregenerated none pregenerated std std-pregenerated-tracing pregenerated-tracing; do
        [ "$(cat "probe/target/$n.rc")" = 0 ] && continue
        tail -40 "probe/target/$n.log" >&2
        if [ $n != std-pregenerated ] && grep -q 'could not compile `mapping-algorithms`' "probe/target/$n.log"; then
            mkdir -p replays
            cp "probe/target/$n.log" "replays/C34-build-$n.txt"
            echo "the crate does not compile with the feature set $n"
            echo "VIOLATION property=C34 replay=$PWD/replays/C34-build-$n.txt"
            exit 1
        fi
        echo "the probe for $n failed to build" >&2
        exit 2
    done
}
# The sanitizer builds (nightly; ThreadSanitizer with an instrumented std).
sanitizers() {
    mkdir -p mon/target/asan mon/target/tsan probe/target/miri
    T=x86_64-unknown-linux-gnu
    (
        RUSTUP_TOOLCHAIN=nightly-$T RUSTFLAGS=-Zsanitizer=address cargo build --release --offline --bins \
            --manifest-path mon/Cargo.toml --target $T --target-dir mon/target/asan >mon/target/asan.log 2>&1
        echo $? >mon/target/asan.rc
    ) &
    (
        RUSTUP_TOOLCHAIN=nightly-$T RUSTFLAGS=-Zsanitizer=thread cargo build -Zbuild-std --offline --bin meta \
            --manifest-path mon/Cargo.toml --target $T --target-dir mon/target/tsan >mon/target/tsan.log 2>&1
        echo $? >mon/target/tsan.rc
    ) &
    (
        RUSTUP_TOOLCHAIN=nightly-$T MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows" cargo miri run --offline \
            --no-default-features --features std,pregenerated --manifest-path probe/Cargo.toml \
            --target-dir probe/target/miri -- 1 0 >mon/target/miri.log 2>&1
        echo $? >mon/target/miri.rc
    ) &
    wait
    for n in asan tsan miri; do
        [ "$(cat mon/target/$n.rc)" = 0 ] && continue
        tail -40 mon/target/$n.log >&2
        echo "the $n build failed" >&2
        exit 2
    done
}
run() { # ID ARGS...: the program of ID
    b=$(bin_of "$1") || exit 2
    [ "$1" = C34 ] && probes
    [ "$1" = C35 ] && sanitizers
    shift
    build --bin "$b"
    exec "mon/target/release/$b" "$@"
}
case "${1:-}" in
    build) if [ $# -gt 1 ]; then build --bin "$(bin_of "$2")"; else build; fi ;;
    replay) run "$2" single "$2" "$3" "$4" "$5" ;;
    *) run "$1" run "$1" ;;
esac
