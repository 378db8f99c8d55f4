#!/bin/bash
# mkseed.sh ID PROP "needs" "what": take the diff of /tmp/wt (a worktree of
# /repo with the planted change) and /verif/seeded/ID/demo.c, verify it all.
set -e
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p $d
[ -f $d/demo.c ] || { echo no demo.c; exit 1; }
cp -n /verif/seedlib/demo.sh $d/ 2>/dev/null || true
grep -q peer.h $d/demo.c && cp /verif/seedlib/peer.h $d/ || true
git -C /tmp/wt diff > $d/patch.diff
python3 - "$prop" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
/verif/checkseed.sh $id
