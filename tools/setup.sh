#!/bin/bash
# nothing to build: check that the interpreter, solvers and the code under test are there
set -e
PY=/opt/veriftools/pyvenv/bin/python
[ -x $PY ] || PY=python3-vt
PYTHONPATH=/verif:/opt/venv/lib/python3.12/site-packages PYTHONDONTWRITEBYTECODE=1 $PY -W ignore -c '
import z3, twisted, zope.interface, six
import pyded.prover, pyded.searcher
print("z3", z3.get_version_string())'
cvc5 --version | head -1 || true
