#!/bin/bash
# Builds the framework: TLC overrides and the harness crates' dependencies.
# Checks build whatever is missing themselves, so a failure here is not fatal.
cd "$(dirname "$0")/.."
python3 - <<'PY'
import sys; sys.path.insert(0, "tools")
import vlib
vlib.classes()
PY
python3 tools/warm.py || true
