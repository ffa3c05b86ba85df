#!/bin/bash
# nothing to build: check that the interpreter, the solver and the engine load
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, sklearn.preprocessing
from mc import explore, loader, env
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
P
