#!/bin/bash
# Nothing to download or to build ahead: every check compiles what it needs from
# /repo. This only makes sure that the tools the checks rely on are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
command -v gcc >/dev/null || { echo "gcc is missing"; exit 2; }
/opt/venv/bin/python - <<'P' || exit 2
import sys
sys.path.insert(0, "lib")
import numpy, pandas, xarray, scipy, sklearn, astropy, matplotlib  # noqa
import build
print("engine builds:", build.build_engine())
P
