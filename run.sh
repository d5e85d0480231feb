#!/bin/bash
# Usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs one check against /repo's current working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. /opt/vp/env.sh
REPO_DIR="${VERIF_REPO:-/repo}"
export PYTHONPATH="$REPO_DIR:$PWD/vendor:$PWD"
export HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent-hypothesis
export PYTHONDONTWRITEBYTECODE=1
export VERIF_REPO="$REPO_DIR"
prop="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
exec "$PY" -W ignore -m harness.main "$prop" "$tier" "$@"
