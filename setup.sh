#!/bin/bash
# nothing to compile: check that the interpreter, the target and the oracle's library are there
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
mkdir -p evidence
/opt/venv/bin/python -c "
from miemon import core, oracle
core.import_target()
import mpmath, scipy, torch
print('ok', torch.__version__, mpmath.__version__)"
