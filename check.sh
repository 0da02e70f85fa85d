#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--only FAMILY] [--scale X]
# Runs one property's monitors against the working tree of /repo (RV_REPO overrides, for development).
cd "$(dirname "$0")" || exit 4
PY=/opt/pvenv/bin/python
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PATH=/opt/pvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYTHONPATH="${RV_REPO:-/repo}:$PWD" MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
if [ "$1" = --self-test ]; then   # setup: the interpreter, the libraries and the code under test import
  cd / && exec "$PY" -c "import alipy, numpy, scipy, sklearn; print('ok', alipy.__file__)"
fi
exec "$PY" -m rv.main "$@"
