#!/bin/bash
# prints the classes of the last run of the given properties
for i in "$@"; do python3 - "$i" <<'P'
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for k,v in e['coverage']['checks'].items(): print(sys.argv[1],k,v['cases'],'ev',v['evaluations'],'nontriv',v['distinct_nontrivial'],'%.1fs'%v['wall_s'],v['classes'])
P
done
