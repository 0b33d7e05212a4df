#!/bin/bash
# tools/tryseed.sh ID [--demo]: applies a planted bug to /repo, runs the check of its property (and the demo), and undoes it.
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" = --demo ]; then (cd /repo && bash $D/demo.sh >/tmp/demo.out 2>&1; echo "$1 demo clean: $?"); fi
git -C /repo apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" = --demo ]; then (cd /repo && bash $D/demo.sh >/tmp/demo.out 2>&1; echo "$1 demo patched: $?"; tail -3 /tmp/demo.out); fi
cd $V; python3 engine/check.py $P | tail -4 | cut -c1-250; 
