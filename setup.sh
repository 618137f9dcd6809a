#!/bin/bash
# Nothing is built: the checks import the sources of /repo. Verify the tools they need.
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import sys
import cantera, networkx, numpy, h5py, yaml
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis
print("cantera", cantera.__version__, "hypothesis", hypothesis.__version__)
P
