#!/bin/sh
# Nothing to build: Python only. Shows that what the checks need is there.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec "${VF_PYTHON:-/opt/venv/bin/python}" -c '
import numpy, scipy, pandas, pygfunction, cv2, matplotlib
from vf import target
print("target", target.REPO)'
