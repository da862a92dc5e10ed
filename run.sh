#!/bin/bash
# usage: run.sh CNN [quick|thorough]   |   run.sh replay FILE
# Explores the real code of /repo's working tree (pure Python: importing the
# sources is the build). No bytecode of /repo is read or written.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1
SCRATCH=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" MC_SCRATCH="$SCRATCH"
trap 'rm -rf "$SCRATCH"' EXIT
unset COVERAGE_PROCESS_START
"$PY" -W ignore -m mc "$@"
