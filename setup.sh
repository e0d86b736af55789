#!/bin/bash
# nothing to compile: check that the interpreter and the code under test load
cd "$(dirname "$0")" || exit 2
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c 'import rv.core, numpy, scipy, jax; print("ok", jax.__version__)'
