#!/bin/bash
# Nothing to build: the checks import the package from /repo. Verify the tools.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence replays
"${PY:-/opt/venv/bin/python}" -B -c "import numpy, scipy, pandas, bilby, jax, numpyro, wcosmo, cached_interpolate"
