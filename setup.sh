#!/bin/bash
# nothing to compile: check that the tools the checks need are there
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
mkdir -p evidence/replay
exec /opt/venv/bin/python -c "import dv.run, dv.props, dv.prover; import z3, jax; print('z3', z3.get_version_string(), 'jax', jax.__version__)"
