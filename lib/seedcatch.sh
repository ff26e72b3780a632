#!/bin/bash
# seedcatch.sh <seed>...: apply each planted bug to a private worktree and run its property's check there (LV_REPO)
cd /verif
for n in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])"); W=/tmp/catch_$n/repo; mkdir -p /tmp/catch_$n; git -C /repo worktree add -qf --detach $W HEAD; git -C $W apply /verif/seeded/$n/patch.diff; cp -r evidence /tmp/catch_$n/ev 2>/dev/null; LV_REPO=$W timeout 880 python3 lvcheck.py $p > /tmp/catch_$n/out 2>&1; echo "$n $p exit=$? $(grep -m1 -A1 VIOLATION /tmp/catch_$n/out | tail -1 | cut -c1-160) $(tail -1 /tmp/catch_$n/out | cut -c1-150)"; git -C /repo worktree remove --force $W; rm -rf /tmp/catch_$n; done
