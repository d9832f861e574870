#!/bin/bash
# tryall.sh [id...]: runs the check of each planted bug's property against it and notes in caught.json what it did.
cd /verif
for d in ${@:-$(ls seeded)}; do
	out=$(bash tools/try.sh $d); echo "$out"
	python3 - "$d" "$out" <<'P'
import json,sys,os
f='/verif/tools/caught.json'
d=json.load(open(f)) if os.path.exists(f) else {}
i,o=sys.argv[1:]
w=o.split()
p=w[1]
h=w[5] if len(w)>5 and 'rc=1' in o else ''
d[i]=f"caught by `{h}`" if 'rc=1' in o else 'missed'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
done
