#!/bin/sh
# nothing to build: the framework is Python and loads /repo's sources on every run. Check the tools are there.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3, cvc5, yaml; import vf.sym, vf.symnp, vf.solve, vf.explore; print('ok', z3.get_version_string())"
