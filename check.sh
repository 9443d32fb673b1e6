#!/bin/bash
# check.sh ID [quick|thorough]            explore property ID on the code in /repo
# check.sh --replay FILE                  re-run one recorded execution, without the explorer
# check.sh --setup                        only build the tree
HERE=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
. "$HERE/tools/build_tree.sh" || { echo "error: /repo could not be built" >&2; exit 2; }
export PYTHONPATH=/opt/vp/py3/compat:$VTREE/src:$HERE
export LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib
[ "$1" = --setup ] && exit 0
cd "$HERE" || exit 2
export LD_PRELOAD=$VBUILD/shim.so   # fault injector, inactive until a harness arms it
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
