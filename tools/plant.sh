#!/bin/bash
# plant.sh ID PROPERTY NEEDS BREAKS: saves /repo's uncommitted change as seeded/ID (demo.py on stdin) and undoes it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo checkout -q -- .
cp /verif/tools/kit/* $d/
cat > $d/demo.py
printf '. "$(dirname "$0")/kit.sh"\nkit_build\nkit_run demo.py\n' > $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/"+sys.argv[1]+"/meta.json","w"),indent=1)
P
