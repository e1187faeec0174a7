#!/bin/bash
# run.sh setup | check PROPERTY [quick|thorough] | replay FILE
# Builds the simulator against the working tree of /repo and runs it. Everything it writes is in git-ignored
# folders of /verif (sim/target, miri/target, evidence, replay).
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export VERIF_DIR=$PWD
export HOME=${HOME:-/root}
export PATH=$PATH:${CARGO_HOME:-$HOME/.cargo}/bin:/root/.cargo/bin:/usr/local/cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC CARGO_BUILD_RUSTFLAGS
tier=${3:-${VERIF_TIER:-quick}}

# both builds of the simulator at once: with debug assertions, and without them as the crate ships
build() {
    mkdir -p sim/target
    local p pids=() bad=
    for p in sim simrel; do
        (cd sim && RUSTFLAGS="--cfg sherman_sim" cargo build --offline --profile $p >target/build.$p.log 2>&1) &
        pids+=($!)
    done
    for p in "${pids[@]}"; do
        wait "$p" || bad=1
    done
    if [ -n "$bad" ]; then
        cat sim/target/build.*.log | grep -E "^error" -A 12 | head -60
        echo "harness error: the simulator does not build against /repo"
        exit 2
    fi
}

case "${1:-}" in
setup) build ;;
check)
    if [ "$2" != C03 ]; then
        build
        sim/target/sim/shersim check "$2" "$tier" || exit $?
    fi
    case "$2" in
    C03 | C06 | C11) exec python3 tools/miri.py check "$2" "$tier" ;;
    esac
    ;;
replay)
    if grep -q '"kind": "miri"' "$2"; then
        exec python3 tools/miri.py replay "$2"
    fi
    build
    exec sim/target/sim/shersim replay "$2"
    ;;
*)
    echo "usage: run.sh setup | check PROPERTY [quick|thorough] | replay FILE"
    exit 2
    ;;
esac
