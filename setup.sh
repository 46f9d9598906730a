#!/bin/bash
# Builds everything the checks need under build/: TLC's integer classes, the lookup-table crates
# (their sources are not part of /repo), a workspace that shows cargo /repo's current sources
# together with those crates, and the harness.  Safe to run again and in parallel.
#   setup.sh [release|checked ...]      profiles of the harness to build (default: release)
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
mkdir -p "$B" "$V/evidence"
exec 9>"$B/.lock"
flock 9
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
J=$(cat $(find "$V/java" -name '*.java' | sort) | sha256sum)
if [ "$(cat "$B/java.stamp" 2>/dev/null)" != "$J" ]; then
    mkdir -p "$B/java"
    javac -cp /opt/veriftools/tla/tla2tools.jar -d "$B/java" $(find "$V/java" -name '*.java')
    echo "$J" > "$B/java.stamp"
fi
L=$(cat "$V/tools/gen_luts.py" | sha256sum)
if [ "$(cat "$B/luts.stamp" 2>/dev/null)" != "$L" ]; then
    python3 "$V/tools/gen_luts.py" "$B/luts.new"
    mkdir -p "$B/luts"
    for d in pow10_div_pow2_lut pow2_div_pow10_lut pow2_div_pow5_lut pow5_div_pow2_lut; do
        [ -d "$B/luts/$d" ] && rm -r "$B/luts/$d"
        mv "$B/luts.new/$d" "$B/luts/$d"
    done
    rmdir "$B/luts.new"
    echo "$L" > "$B/luts.stamp"
fi
R=${REPO:-/repo}
mkdir -p "$B/ws"
for e in src Cargo.toml README.md; do ln -sfn "$R/$e" "$B/ws/$e"; done
for d in pow10_div_pow2_lut pow2_div_pow10_lut pow2_div_pow5_lut pow5_div_pow2_lut; do
    if [ -e "$R/$d/src" ]; then ln -sfn "$R/$d" "$B/ws/$d"; else ln -sfn "../luts/$d" "$B/ws/$d"; fi
done
# never trust time stamps: a changed source file means a new build
S=$(cd "$R" && find -L src Cargo.toml -type f | sort | xargs sha256sum | sha256sum)
if [ "$(cat "$B/src.stamp" 2>/dev/null)" != "$S" ]; then
    find "$B/target" -maxdepth 3 -type d -path '*/.fingerprint/f256-*' -exec rm -r {} + 2>/dev/null || true
    echo "$S" > "$B/src.stamp"
fi
for p in "${@:-release}"; do
    (cd "$V/harness" && cargo build --offline --quiet --profile "$p" --target-dir "$B/target" 2> "$B/cargo.log") || { cat "$B/cargo.log" >&2; exit 2; }
done
