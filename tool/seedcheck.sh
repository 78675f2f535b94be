#!/bin/bash
# seedcheck.sh ID...: run the property's check on the seeded copy
for id in "$@"; do
p=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
d=/tmp/sc.$$; cp -a /repo $d; (cd $d && git apply $p/patch.diff) || echo NOAPPLY
s=$(date +%s.%N)
timeout 900 /tmp/gq -prop $prop -repo $d -verif /tmp/scv.$$ > /tmp/sco.$$ 2>&1; rc=$?
echo "$id $prop rc=$rc $(echo "$(date +%s.%N)-$s"|bc|cut -c1-5)s :: $(grep -v '^property' /tmp/sco.$$ | head -2 | tr '\n' ' ' | cut -c1-230)"
rm -rf $d /tmp/scv.$$ /tmp/sco.$$
done
