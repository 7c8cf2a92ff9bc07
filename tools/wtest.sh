#!/bin/bash
# wtest.sh DIR : run tests in a copy DIR, compare with stable list
cd $1 || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONPATH=$1:/opt/vp/pytest_plugins
tmp=$(mktemp -d)
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=300 -o junit_family=xunit2 --junitxml=$tmp/j.xml tests > $tmp/log 2>&1
tail -12 $tmp/log
/usr/bin/python3 /opt/vp/results.py $tmp/o.json junit:$tmp/j.xml
/usr/bin/python3 - $tmp/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(d):
    for k in ('stable','tests','passed','pass'):
        if k in d: return d[k]
    return d
print({k:type(v).__name__ for k,v in b.items()}, {k:type(v).__name__ for k,v in o.items()})
P

