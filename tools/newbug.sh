#!/bin/bash
# newbug.sh ID PROP "needs" "breaks": records /repo's working-tree diff as seeded/ID and undoes it (demo.rs is written by hand)
B=/verif/seeded/$1; mkdir -p $B
git -C /repo diff > $B/patch.diff; git -C /repo checkout -- .
cp /verif/tools/demo.sh $B/demo.sh
python3 - "$1" "$2" "$3" "$4" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
PY
[ -s $B/patch.diff ] || echo EMPTY
