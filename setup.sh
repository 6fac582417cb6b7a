#!/bin/bash
# nothing to build ahead: every check extracts /repo's IR itself. Only make sure the tools are there.
set -e
clang-18 --version >/dev/null; opt-18 --version >/dev/null
python3-vt -c 'import z3'
cvc5 --version >/dev/null
mkdir -p /verif/out /verif/evidence
