#!/bin/bash
# run the repository tests and compare with the baseline
out=$(mktemp); bash /opt/vp/test.sh $out >/dev/null 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
p=set(o.get('passed',[]))
bad=[x for x in b if x not in p]
print('baseline passing:', len(b)-len(bad), 'of', len(b)); print(*bad, sep='\n')
sys.exit(bool(bad))
P
rc=$?; rm -f $out; exit $rc
