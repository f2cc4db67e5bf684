#!/bin/bash
# onbug.sh ID [CHECK...] : run the check(s) of a planted bug on a scratch source copy with the bug applied
for b in $1; do
P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
rm -rf /tmp/bugrepo; mkdir /tmp/bugrepo; (cd /repo && tar cf - --exclude=./_build --exclude=./.git .) | (cd /tmp/bugrepo && tar xf -; patch -s -p1 < /verif/seeded/$b/patch.diff)
for p in ${P//,/ }; do WF_REPO=/tmp/bugrepo python3 /verif/check.py $p >/tmp/onbug.out 2>&1; echo "$b $p rc=$? $(grep -v '  rule' /tmp/onbug.out | grep -m1 '\[' | cut -c1-170)"; done; done
