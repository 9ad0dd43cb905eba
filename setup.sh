#!/bin/bash
# Nothing is compiled: the library is pure Python and is imported from /repo/src.
# Confirm that the interpreter, the library and the search engine load.
HERE=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python - "$HERE" <<'PY'
import sys
sys.path.insert(0, sys.argv[1])
from harness import core
import numpy, basix, gmsh, meshio, mesh.mesh, spaces.product_space
print("hypothesis", core.hypothesis.__version__, "numpy", numpy.__version__)
PY
