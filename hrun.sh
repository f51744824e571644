#!/bin/bash
# runs a replay harness with the interpreter and libraries backy itself uses
here=$(dirname "$(realpath "$0")")
export PYTHONPATH=${BACKY_REPO:-/repo}/src:$here/harness/meta PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 LANG=C.UTF-8
unset PYTHONSTARTUP PYTHONHOME
exec /opt/venv/bin/python "$here/harness/run.py" "$@"
