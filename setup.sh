#!/bin/bash
# Nothing to compile: checks that the worker environment imports.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=$PWD:/repo PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python -c '
from dst import intercept; intercept.install()
import dst.run, swirl_fem.communication.crystal_router
print("ok")'
