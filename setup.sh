#!/bin/bash
# builds the drivers once so that the checks only rebuild what changed
cd "$(dirname "$0")/engine" || exit 1
python3 - <<'P' || exit 1
import core
for p in ("dev", "asan", "portable"):
    print(core.build(p))
P
