#!/bin/sh
# Re-run a recorded counterexample against the current sources: engine/replay.sh evidence/replay/<file>.json
exec python3-vt "$(dirname "$0")/check.py" --replay "$1"
