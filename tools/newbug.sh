# newbug.sh ID PROP NEEDS BREAKS  (demo.py on stdin)
d=/verif/seeded/$1; mkdir -p $d; cp /verif/tools/clmini.py $d/
cat > $d/demo.py
printf '#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh
python3 - "$@" <<'P'
import sys,json
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
