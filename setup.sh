#!/bin/bash
# One-off build of everything the checks use (they also build it themselves when needed).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/build.sh" || exit 1
cd "$here" && "$VENV/bin/python" -m mc.main selftest
