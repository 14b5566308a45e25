#!/bin/bash
# Usage: new_plant.sh ID PROPERTY: takes /repo's uncommitted change as patch, undoes it; demo.rs is
# read from stdin; meta from $NEEDS and $BREAKS.
set -eu
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cat > $d/demo.rs
cp /verif/bin/plant_tmpl/* $d/
python3 - "$d" "$2" <<P
import json,sys,os
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
