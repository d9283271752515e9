#!/bin/bash
# nothing to build: the checks import the code from /repo/src; make sure the tools are there
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import mpmath, numpy, sympy' && mkdir -p evidence replay
