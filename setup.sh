#!/bin/bash
# Nothing to build: check that the interpreter, the solvers and the framework load.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c 'import pyvc, z3, pyvc.contract; print("z3", z3.get_version_string())' && command -v cvc5
