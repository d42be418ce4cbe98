#!/bin/bash
# Unpacks Hypothesis from the offline wheelhouse into .deps (checks fall back to a scratch copy).
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c '
import sys
sys.path.insert(0, ".")
from pbt import env
env.extract_wheels(env.DEPS)
env.prepare(False)
import hypothesis
print("hypothesis", hypothesis.__version__)'
