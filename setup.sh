#!/bin/bash
# Nothing to build: check that the vendored Hypothesis and the code import.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
. /opt/vp/env.sh
export PYTHONPATH="/repo:$PWD/vendor:$PWD"
exec "$PY" -W ignore -c "import hypothesis, IMTreatment, harness.main; print('ok')"
