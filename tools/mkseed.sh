#!/bin/bash
# Developer aid: mkseed.sh NAME PROP "needs" "breaks"   (takes the diff of /tmp/sw, resets it)
set -eu
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/sw diff > $d/patch.diff
git -C /tmp/sw checkout -q -- .
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
wc -l $d/patch.diff
