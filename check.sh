#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/repo LANG=C.UTF-8 TZ=UTC PYTHONWARNINGS=ignore
# PyPy 3.9's loop unroller aborts on some traces (an assertion of the JIT, in getptrinfo): it stays off;
# should the interpreter itself die all the same, the check runs again without any JIT
/opt/venv/bin/python --jit enable_opts=intbounds:rewrite:virtualize:string:pure:earlyforce:heap -m mc.run "$@" 2>/dev/null
rc=$?
if [ $rc -ge 128 ]; then
    /opt/venv/bin/python --jit off -m mc.run "$@" 2>/dev/null
    rc=$?
fi
exit $rc
