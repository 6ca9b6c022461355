#!/bin/sh
# Nothing to build: check that the interpreter and the library import.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays .scratch
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import jax, numpy, h5py, scipy, PIL; print('ok')"
