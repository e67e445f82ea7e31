#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Rebuilds the extension from the working tree of $VERIF_REPO (default /repo) and runs the
# bounded exhaustive exploration that decides the property.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
. "$here/build.sh" || { echo "check.sh: build failed" >&2; exit 3; }
cd "$here" || exit 3
exec "$VENV/bin/python" -m mc.main run "$id" "$tier"
