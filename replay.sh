#!/bin/bash
# usage: replay.sh <artefact.json>: re-runs exactly the group of cases of a recorded violation, twice.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
f="$(realpath "$1")"
. "$here/build.sh" || exit 3
cd "$here" || exit 3
exec "$VENV/bin/python" -m mc.main replay "$f"
