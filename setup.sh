#!/bin/bash
# Nothing to build: bijx is pure Python and imported from /repo/src. Verifies the interpreter and libraries.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3)
mkdir -p evidence
JAX_PLATFORMS=cpu "$PY" -B -c "import hypothesis, jax, flax, numpy, scipy; print('ok')"
