#!/bin/sh
# nothing to build: the checks import /repo directly; verify the tools are there
cd "$(dirname "$0")" && /opt/veriftools/pyvenv/bin/python3 -c "import z3, sys; sys.path.append('/opt/venv/lib/python3.12/site-packages'); import pydot"
