#!/bin/bash
# Nothing to build: the checks import /repo's working tree.  Only verify that the tools are there.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${OE_REPO:-/repo}:$here/pbt" "${OE_PYTHON:-/opt/venv/bin/python}" -c '
import core, hypothesis, numpy, opt_einsum
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "opt_einsum from", opt_einsum.__file__)'
