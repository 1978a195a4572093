#!/bin/bash
# check.sh build            build the explorer in all its variants (setup)
# check.sh ID TIER          decide property ID on /repo's working tree
# check.sh replay FILE      run the one case a replay file names
cd "$(dirname "$0")" || exit 2
here=$PWD
export PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_RELEASE_DEBUG
export MC_VERIF=$here
mkdir -p "$here/evidence"
exec 9>"$here/evidence/.lock"
flock 9
trap wait EXIT

guards='--cfg http_ntlm_verif --cfg http_ntlm_verif="session"'

# build NAME PROFILE [FEATURES]: the explorer with /repo's current tree, in target-NAME
build() {
    local dir=$here/target-$1 profile=$2 features=${3:-} out=$2
    [ "$profile" = release ] || out=$profile
    # Cargo judges by mtime: forget the freshness of what is built from /repo
    rm -rf "$dir/$out/.fingerprint/"{http-ntlm,mc}-* 2>/dev/null
    local log=$here/evidence/.build-$1-$2.log
    local cmd=(cargo build --manifest-path "$here/harness/Cargo.toml" --profile "$profile" --offline --locked)
    [ -z "$features" ] || cmd+=(--features "$features")
    CARGO_TARGET_DIR=$dir RUSTFLAGS=$guards "${cmd[@]}" >"$log" 2>&1 9>&- && return 0
    # The look into a client's session depends on its private state: do without it
    CARGO_TARGET_DIR=$dir RUSTFLAGS='--cfg http_ntlm_verif' "${cmd[@]}" >"$log" 2>&1 9>&- && return 0
    # A tree whose responses know no proof, as before its repair
    CARGO_TARGET_DIR=$dir RUSTFLAGS="$guards --cfg http_ntlm_no_proof" "${cmd[@]}" >"$log" 2>&1 9>&- && return 0
    grep -A12 -E '^error' "$log" | head -60 >&2
    echo "ERROR: the explorer does not build against /repo (profile $profile, features '$features')"
    return 1
}

# race: the explorer with every access to shared memory instrumented, in target-race
race() {
    local dir=$here/target-race host=x86_64-unknown-linux-gnu log=$here/evidence/.build-race.log flags
    mkdir -p "$dir" && gcc -O2 -fPIC -c "$here/harness/rt/tsanrt.c" -o "$dir/tsanrt.o" 9>&- || return 1
    rm -rf "$dir/$host/release/.fingerprint/"{http-ntlm,mc}-* 2>/dev/null
    local tsan="--cfg mc_race -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=$dir/tsanrt.o"
    for flags in "$guards" "--cfg http_ntlm_verif" "$guards --cfg http_ntlm_no_proof"; do
        CARGO_TARGET_DIR=$dir RUSTFLAGS="$flags $tsan" RUSTUP_TOOLCHAIN=nightly-$host cargo build \
            --manifest-path "$here/harness/Cargo.toml" --release --offline --locked --target $host >"$log" 2>&1 9>&- && return 0
    done
    grep -A12 -E '^error' "$log" | head -40 >&2
    return 1
}

case "$1" in
build)
    build base release && build plain plain && build unopt unopt && build strict release strict && build win release win && { race || true; }
    exit $?
    ;;
replay)
    id=$(sed -n 's/^property=//p' "$2") tier=$(sed -n 's/^tier=//p' "$2") run=(replay "$2")
    ;;
*)
    id=$1 tier=$2 run=(check "$1" "$2")
    ;;
esac
case "$tier" in quick | thorough) ;; *) echo "usage: check.sh build | ID quick|thorough | replay FILE"; exit 2 ;; esac

bin=$here/target-base/release/mc
case "$id" in
C27 | C33)
    build win release win || exit 2
    bin=$here/target-win/release/mc
    ;;
C24)
    build strict release strict & strict=$!
    build base release || exit 2
    wait $strict || exit 2
    export MC_STRICT=$here/target-strict/release/mc
    ;;
*)
    # As users build it: no debug assertions, wrapping arithmetic
    build plain plain & plain=$!
    # As `cargo build` makes it: the deepest stacks
    if [ "$id" = C01 ]; then
        build unopt unopt & unopt=$!
        export MC_UNOPT=$here/target-unopt/unopt/mc
    fi
    # Stopped at every access to shared memory
    if [ "$id" = C26 ]; then
        race & race=$!
        export MC_RACE=$here/target-race/x86_64-unknown-linux-gnu/release/mc
    fi
    build base release || exit 2
    wait $plain || exit 2
    export MC_PLAIN=$here/target-plain/plain/mc
    [ -z "${unopt:-}" ] || wait $unopt || exit 2
    if [ -n "${race:-}" ] && ! wait $race; then
        echo "NOTE: no instrumented build of this tree: no preemption at shared memory"
        unset MC_RACE
    fi
    ;;
esac
"$bin" "${run[@]}" 2>"$here/evidence/.stderr.log" 9>&-
rc=$?
tail -c 2000 "$here/evidence/.stderr.log" | grep -a -v '^\[src\|^\[/repo' | tail -5 >&2
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
