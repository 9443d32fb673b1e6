#!/bin/bash
# mkseed.sh NAME PROPERTY NEEDS BREAKS < demo.py : turn the change made in the worktree /tmp/wt into seeded/NAME, try demo and check on it
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
D=$HERE/seeded/$1
mkdir -p "$D"
git -C /tmp/wt diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
cat > "$D/demo.py"
cat > "$D/demo.sh" <<'S'
#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
SRC=${EUSTACE_SRC:-/opt/eustace-py3/src}
export PYTHONPATH=/opt/vp/py3/compat:$SRC LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 TZ=UTC
SCRATCH=$(mktemp -d) && cd "$SRC" && cd "$SCRATCH" || exit 99
timeout 250 /opt/venv/bin/python -W ignore "$HERE/demo.py"
RC=$?
cd / && rm -rf "$SCRATCH"
exit $RC
S
python3 - "$D" "$2" "$3" "$4" <<'P'
import json, sys
json.dump(dict(property=sys.argv[2], needs=sys.argv[3], what_it_breaks=sys.argv[4]), open(sys.argv[1] + '/meta.json', 'w'), indent=1)
P
bash $HERE/check.sh --setup; EUSTACE_SRC=$HERE/build/py3/src bash "$D/demo.sh" >/tmp/demo0.log 2>&1; echo "demo unchanged: $?"
VERIF_REPO=/tmp/wt bash $HERE/check.sh --setup; EUSTACE_SRC=$HERE/build/py3/src bash "$D/demo.sh" >/tmp/demo1.log 2>&1; echo "demo changed: $?"; tail -3 /tmp/demo1.log
if [ -f $HERE/mc/props/$(echo $2 | tr A-Z a-z).py ]; then VERIF_REPO=/tmp/wt bash $HERE/check.sh $2 quick > /tmp/seedcheck.log 2>&1; echo "check: $?"; grep -B3 VIOLATION /tmp/seedcheck.log | cut -c1-400 | head; fi
git -C /tmp/wt checkout -q -- .
