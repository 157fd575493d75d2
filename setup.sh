#!/bin/bash
# nothing to compile: checks import /repo/src; only verify that the interpreter and libraries are there
cd "$(dirname "$0")" && mkdir -p evidence/replay && exec "${MC_PYTHON:-/opt/venv/bin/python}" -c "import jax, numpy, scipy, VBMicrolensing; print('ok', jax.__version__)"
