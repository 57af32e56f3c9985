#!/bin/bash
# bash run.sh <ID>: run one check against /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
VENV=/opt/qugar-venv
export CXX=/opt/vp/cxx
export LD_LIBRARY_PATH=$VENV/lib/python3.12/site-packages/fenics_basix.libs
export PYTHONPATH=$here/lib PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1
unset QUGAR_SHIM_CACHE
cd "$here" || exit 3
exec $VENV/bin/python "$here/checks/$1.py"
