#!/bin/bash
# Nothing to build: verify that the interpreter, the code under test and Hypothesis can be imported offline.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "
from pbt import boot, simio, model, gen
import hypothesis, numpy, yaml
print('ready: hypothesis', hypothesis.__version__)"
