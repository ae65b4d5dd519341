#!/bin/bash
# bugcheck.sh ID [PROP]: run the property's check on a scratch copy of /repo with seeded/ID applied
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1
prop=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
w=/tmp/bugcheck; mkdir -p $w
git -C /repo diff --quiet || { echo "/repo not clean"; exit 3; }
git -C /repo apply "$V/seeded/$id/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
( cd $V && python3-vt check.py $prop 2>&1 | tail -${LINES_OUT:-6} | cut -c1-300 )
