#!/bin/bash
# mkplant.sh ID PROP NEEDS BREAKS : take the uncommitted change in /repo as planted bug ID; demo.sh body on stdin
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo checkout -q -- .
{ echo '#!/bin/bash'; cat; } > $d/demo.sh
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
/verif/lib/plant.sh $1
