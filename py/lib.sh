# Sourced after env.sh.
PYLIBS=$VERIF_ROOT/build/pylibs
PKG=$VERIF_ROOT/build/pkg
PYBIN=/opt/vp/venv/bin/python
export PYO3_PYTHON=/usr/bin/python3.12

build_py() {
    build_harness --bin core || return 1
    (
        flock 9
        if [ ! -e "$PYLIBS/ok" ]; then
            rm -rf "${VERIF_ROOT:?}/build/pylibs"
            mkdir -p "$PYLIBS"
            for w in hypothesis-*-cp312-*x86_64*.whl sortedcontainers-*.whl attrs-*.whl; do
                for f in /opt/veriftools/wheels/$w; do
                    [ -f "$f" ] && /usr/bin/python3 -m zipfile -e "$f" "$PYLIBS" || exit 1
                done
            done
            touch "$PYLIBS/ok"
        fi
        export CARGO_TARGET_DIR=$VERIF_ROOT/build/pytarget
        export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true
        export CARGO_PROFILE_RELEASE_OPT_LEVEL=2
        refresh
        (cd "$VERIF_REPO" && cargo build --offline --release -p sparseglmpy --features pyo3/abi3-py37) \
            >"$VERIF_ROOT/build/cargo-py.log" 2>&1 || exit 1
        # the package: the repository's Python files next to the module just built
        rm -rf "${VERIF_ROOT:?}/build/pkg"
        mkdir -p "$PKG/sparseglm"
        for f in "$VERIF_REPO"/python/sparseglm/*; do
            case $f in *.so | */__pycache__) continue ;; esac
            ln -s "$f" "$PKG/sparseglm/"
        done
        cp "$CARGO_TARGET_DIR/release/libsparseglmpy.so" "$PKG/sparseglm/_lib.abi3.so"
    ) 9>"$VERIF_ROOT/build/lock" || {
        echo "ERROR: the extension module does not build from the repository"
        tail -30 "$VERIF_ROOT/build/cargo-py.log"
        return 1
    }
}
