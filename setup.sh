#!/bin/bash
# Nothing to compile: verify that the interpreter and the packages are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
exec env PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 \
  /opt/venv/bin/python -c "import jax, numpy, h5py, ujson; print('ok', jax.__version__)"
