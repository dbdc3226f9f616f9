# Sourced by the scripts of /verif.
export VERIF_ROOT=${VERIF_ROOT:-$PWD}
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export CARGO_TARGET_DIR=$VERIF_ROOT/build/target

# content hash of everything the build of the crate and of the bindings depends on
repo_hash() {
    (cd "$VERIF_REPO" && find src python Cargo.toml \( -name '*.rs' -o -name '*.toml' -o -name '*.py' \) -type f \
        -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# Makes cargo rebuild the crate whenever the contents of its sources changed, whatever the file times say.
refresh() {
    local h stamp=$CARGO_TARGET_DIR/repo.hash
    mkdir -p "$CARGO_TARGET_DIR"
    h=$(repo_hash)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
        find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/*' \
            \( -name 'sparseglm*' -o -name 'harness*' \) -exec rm -rf {} +
        echo "$h" >"$stamp"
    fi
}

build_harness() {
    mkdir -p "$VERIF_ROOT/build"
    (
        flock 9
        refresh
        cd "$VERIF_ROOT/harness" && cargo build --offline --release "$@" >"$VERIF_ROOT/build/cargo.log" 2>&1
    ) 9>"$VERIF_ROOT/build/lock" || {
        echo "ERROR: the harness does not build against the repository"
        tail -30 "$VERIF_ROOT/build/cargo.log"
        return 1
    }
}
