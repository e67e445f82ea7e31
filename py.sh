#!/bin/bash
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/build.sh" || exit 3
cd "$here"; PYTHONPATH="$VERIF_SITE:$here" exec "$VENV/bin/python" "$@"
