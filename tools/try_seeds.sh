#!/bin/bash
# Runs the property's check against each planted bug given (default all) on a scratch copy.
cd /verif
for d in ${@:-seeded/*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=/tmp/seed/try.$id; mkdir -p $t; git -C /repo archive HEAD | tar x -C $t
  (cd $t && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; rm -r "$t"; continue; }
  VP_REPO=$t timeout 890 python3 check.py $p > /tmp/seed/out.$id 2>&1; rc=$?
  echo "$id $p exit=$rc $(grep -c VIOLATION /tmp/seed/out.$id) $(grep -m1 -i 'violated\|VP ' /tmp/seed/out.$id | cut -c1-150)"
  rm -r "$t"
  python3 - "$id" "$p" "$rc" /tmp/seed/out.$id <<'X'
import json,sys,re
f='/verif/tools/seed_results.json'
try: r=json.load(open(f))
except OSError: r={}
i,p,rc,o=sys.argv[1:]
m=re.search(r'^  (h_\w+): (VP )?([^\[\n]*)', open(o).read(), re.M)
r[i]=("%s %s: %s"%(p,m.group(1),m.group(3).strip()) if m else p) if rc=='1' else 'missed (%s exit %s)'%(p,rc)
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
X
done
