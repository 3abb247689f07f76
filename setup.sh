#!/bin/bash
# Nothing to compile: verify that the interpreter and the monitors work.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo')
import numpy, scipy, networkx, pytspl
import mon.common, mon.gen, mon.oracles
print('ok', numpy.__version__)"
