#!/bin/bash
# check.sh <property>: explore the code in /repo's working tree (pure Python: nothing to build)
# check.sh replay <file>: run a recorded counterexample again
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
py=/opt/pypyvenv/bin/python
if [ "$1" = replay ]; then exec $py -B mc/replay.py "$2"; fi
exec $py -B mc/run.py "$@"
