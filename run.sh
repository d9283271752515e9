#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=
exec python3-vt -c 'import sys; sys.path.insert(0, "vlib"); import core; sys.exit(core.main())' "$@"
