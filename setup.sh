#!/bin/bash
# Nothing to compile: check that the interpreter, the libraries and the harness load.
cd "$(dirname "$0")" || exit 1
chmod +x check.sh
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.insert(0, "."); sys.path.insert(0, "/repo")
import numpy, scipy, pandas, joblib, sklearn
from mc import core, env, gen, ref_stats
import mlpaper
print("setup ok", numpy.__version__, pandas.__version__, joblib.__version__)
P
