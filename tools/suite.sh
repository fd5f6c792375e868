#!/bin/bash
# tools/suite.sh: run the repository's suite and print the baseline tests that do not pass
O=$(mktemp); bash /opt/vp/test.sh $O >/tmp/suite.log 2>&1
/opt/venv/bin/python - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
miss=sorted(set(b['stable'])-set(t['passed']))
print(len(t['passed']),'passed; missing from the baseline:',miss)
P
rm -f $O
