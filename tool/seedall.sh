#!/bin/bash
# runs every planted bug's check on a scratch copy and records the outcome in tool/caught.json
cd "$(dirname "$0")/../seeded" && ls | xargs -P 6 -n 1 bash ../tool/seedcheck.sh | tee /tmp/seedall.out | cut -c1-200
python3 - <<'P'
import json,re
d={}
for l in open('/tmp/seedall.out'):
    m=re.match(r'(\S+) (C\d+) rc=(\d+)',l)
    if m: d[m[1]]={'1':'caught','0':'missed'}.get(m[3],'error')
json.dump(dict(sorted(d.items())),open('/verif/tool/caught.json','w'),indent=1)
P
