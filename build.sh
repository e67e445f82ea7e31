#!/bin/bash
# Sourced by check.sh / replay.sh / setup.sh: builds the working tree of $VERIF_REPO
# (default /repo) with the flags of /opt/vp/build.sh, and copies the resulting package into
# a private directory ($VERIF_SITE) from which the checks import it.
_here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
VERIF_SEED="${VERIF_SEED:-1}"
VERIF_REPO="${VERIF_REPO:-/repo}"
. /opt/vp/env.sh
export VERIF_REPO VERIF_SEED
export VERIF_SITE="${VERIF_SITE:-$_here/.build/site}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 RUST_BACKTRACE=0
mkdir -p "$_here/.build" "$_here/out" "$_here/evidence"
_build() (
    flock 9
    cd "$VERIF_REPO" || exit 1
    log="$_here/.build/build.log"
    # keep stdout clean: only VIOLATION / KNOWN-FINDING / summary lines go there
    if ! maturin develop --skip-install --offline >"$log" 2>&1; then
        tail -40 "$log" >&2; exit 1
    fi
    so="$(ls python/pydantic_core/_pydantic_core*.so 2>/dev/null | head -1)"
    [ -n "$so" ] || { echo "no extension built" >&2; exit 1; }
    mkdir -p "$VERIF_SITE/pydantic_core"
    if ! cmp -s "$so" "$VERIF_SITE/pydantic_core/$(basename "$so")"; then
        cp "$so" "$VERIF_SITE/pydantic_core/.new.so" &&
        mv "$VERIF_SITE/pydantic_core/.new.so" "$VERIF_SITE/pydantic_core/$(basename "$so")" || exit 1
    fi
    cp python/pydantic_core/*.py python/pydantic_core/*.pyi python/pydantic_core/py.typed "$VERIF_SITE/pydantic_core/" || exit 1
) 9>"$_here/.build/lock"
_build || return 1 2>/dev/null || exit 1
export PYTHONPATH="$VERIF_SITE"
