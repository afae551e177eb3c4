#!/bin/bash
# runs demo.py (beside this file) in the built yade of /repo; the script prints DEMO-OK when the behaviour is as documented
D=$(cd "$(dirname "$0")" && pwd)
B=/repo/_build/inst
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py3compat/modules:$B/lib/x86_64-linux-gnu/yade/py OMP_NUM_THREADS=${DEMO_THREADS:-1}
T=$(mktemp -d); cd "$T" || exit 2
timeout 250 /usr/bin/python3 $B/bin/yade -n -x -j${DEMO_THREADS:-1} "$D/demo.py" > "$T/log" 2>&1 < /dev/null
grep -v '^$' "$T/log" | tail -15
if grep -q '^DEMO-OK' "$T/log"; then rc=0; else rc=1; fi
rm -rf "$T"; exit $rc
