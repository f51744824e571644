#!/bin/bash
# nothing to build; checks that the tools are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3" && command -v cvc5 >/dev/null && /opt/venv/bin/python -c "import lzo, mmh3, yaml" && echo ok
