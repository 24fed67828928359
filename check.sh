#!/bin/bash
# ./check.sh <property> [quick|thorough]     runs the check of a property
# ./check.sh <property> replay <file>        runs one saved case again
# Everything is built from /repo's current working tree; nothing is written outside /verif/build,
# /verif/evidence, /verif/replays and two scratch directories that are removed again.
set -u
root=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}
mode=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export VERIF_SEED=$seed CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true FFCHECK_ROOT=$root
export FFCHECK_DRIVERS=$root/build/drv
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
case $mode in quick|thorough) export VERIF_TIER=$mode ;; esac
mkdir -p "$root/build/drv" "$root/evidence"

fail() { echo "$1" >&2; exit 3; }

log=$root/build/harness.log
if ! (cd "$root/harness" && cargo build --release --offline --target-dir "$root/build/harness") >"$log" 2>&1; then
    tail -n 40 "$log" >&2
    fail "$id: the crate or the harness does not build"
fi
bin=$root/build/harness/release/ffcheck

# Other configurations of the crate that this check compares with, each in a process of its own.
readers="asf cfb ebml exe id3v2 mp4 pdf rm sqlite3 txt xml zip"
umbrella=$(echo $readers | tr ' ' ',')
drivers=$("$bin" drivers "$id")
if [ "$drivers" = "*" ]; then
    drivers="none umbrella all umbrella-release"
    for r in $readers; do drivers="$drivers $r no-$r"; done
    RANDOM=$(( (seed * 7919 + 11) % 32768 ))
    subsets=""
    n=6; [ "$mode" = thorough ] && n=40
    for _ in $(seq $n); do
        s=""
        for r in $readers; do [ $((RANDOM / 64 % 2)) = 1 ] && s="$s+$r"; done
        s=${s#+}
        case $s in *+*) subsets="$subsets $s" ;; esac
    done
    export FFCHECK_SUBSETS=$subsets
    drivers="$drivers $subsets"
fi
build_driver() {
    local name=$1 feats= profile=--profile=dev out=debug
    case $name in
        none) ;;
        umbrella) feats=umbrella ;;
        umbrella-release) feats=umbrella; profile=--release; out=release ;;
        all) feats=$umbrella ;;
        no-*) feats=$(for r in $readers; do [ "no-$r" = "$name" ] || echo "$r"; done | paste -sd,) ;;
        *) feats=${name//+/,} ;;
    esac
    cd "$root/driver" || return 1
    cargo build --offline $profile --target-dir "$root/build/d/$name" --features "$feats" \
        >"$root/build/drv/$name.log" 2>&1 || { tail -n 15 "$root/build/drv/$name.log" >"$root/build/drv/$name.failed"; return 1; }
    cp -f "$root/build/d/$name/$out/ffdrv" "$root/build/drv/$name.new" && mv -f "$root/build/drv/$name.new" "$root/build/drv/$name"
}
export -f build_driver
export root readers umbrella
if [ -n "$drivers" ]; then
    rm -f "$root"/build/drv/*.failed
    # Cargo may write the lock file: once, before the parallel builds.
    (cd "$root/driver" && cargo metadata --offline --format-version 1 >/dev/null 2>&1)
    echo $drivers | tr ' ' '\n' | sort -u | xargs -P 8 -I{} bash -c 'build_driver "$1"' _ {}
    for f in "$root"/build/drv/*.failed; do
        [ -e "$f" ] || continue
        name=$(basename "$f" .failed)
        if [ "$id" = C11 ]; then
            export FFCHECK_BUILD_FAILURE="the configuration '$name' of the crate does not build: $(head -c 600 "$f")"
            exec "$bin" check "$id"
        fi
        cat "$f" >&2
        fail "$id: configuration $name does not build"
    done
fi

# Other machines: WebAssembly has 32 bits and is fast; Miri emulates big-endian ones (and others), slowly.
if [ "$id" = C29 ]; then
    export FFCHECK_TARGETS="wasm32-unknown-unknown powerpc-unknown-linux-gnu"
    [ "$mode" = quick ] || FFCHECK_TARGETS="$FFCHECK_TARGETS i686-unknown-linux-gnu s390x-unknown-linux-gnu"
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"
    build_machine() {
        local t=$1 log=$root/build/drv/machine-$1.log run dir=$root/build/e/$1
        mkdir -p "$dir"
        cd "$root/portable" || return 1
        case $t in
        wasm32-*)
            # The standard library is built from its source, the dependencies of which lie beside it.
            local std
            std=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library
            cargo +nightly build --example wasm --release --offline -q -Zbuild-std=std,panic_abort --target "$t" --target-dir "$dir" \
                --config 'source.crates-io.replace-with="std"' --config "source.std.directory=\"$std/vendor\"" >"$log" 2>&1 &&
                run="node $root/portable/wasm.mjs $dir/$t/release/examples/wasm.wasm"
            ;;
        *)
            export XDG_CACHE_HOME=$dir/sysroot
            mkdir -p "$XDG_CACHE_HOME"
            run="cargo +nightly miri run --offline -q --target $t --target-dir $dir"
            { cargo +nightly miri setup --target "$t" && $run </dev/null; } >"$log" 2>&1
            ;;
        esac || { cp "$log" "$root/build/drv/machine-$t.failed"; return 1; }
        printf '#!/bin/sh\nexport XDG_CACHE_HOME=%s\ncd %s && exec %s\n' "$dir/sysroot" "$root/portable" "$run" >"$root/build/drv/machine-$t"
        chmod +x "$root/build/drv/machine-$t"
    }
    export -f build_machine
    export root
    rm -f "$root"/build/drv/machine-*.failed
    echo $FFCHECK_TARGETS | tr ' ' '\n' | xargs -P 4 -I{} bash -c 'build_machine "$1"' _ {}
    for f in "$root"/build/drv/machine-*.failed; do
        [ -e "$f" ] || continue
        if grep -q -- "--> /repo/src/" "$f" && grep -q "^error" "$f"; then
            export FFCHECK_BUILD_FAILURE="the crate does not build for $(basename "$f" .failed): $(grep -A4 '^error' "$f" | head -c 600)"
            exec "$bin" check "$id"
        fi
        tail -n 20 "$f" >&2
        fail "$id: a machine is not available"
    done
fi

if [ "$mode" = replay ]; then
    export FFCHECK_ALL_MACHINES=1
    exec "$bin" replay "${3:?replay file}"
fi
exec "$bin" check "$id"
