#!/bin/bash
# usage: run.sh <property> [--replay FILE] [--tier quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
if [ "$1" = --setup ]; then
  mkdir -p "$here/evidence" "$here/replays"
  cd "${VERIF_REPO:-/repo}" && exec /opt/venv/bin/python -c \
    'import extensisq, scipy, numpy; print(extensisq.__file__, numpy.__version__, scipy.__version__)'
fi
cd "$here" && exec /opt/venv/bin/python -c \
  'import sys; from vlib.core import main; import vlib.core; sys.exit(main(sys.argv[1:]))' "$@"
