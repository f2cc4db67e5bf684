#!/bin/bash
# mut.sh PROP FILE PYEXPR : apply a textual mutation (python: s -> new s) to a scratch copy and run the check on it.
# usage: mut.sh C11 components/core/wf/derivative.cc "s.replace('a','b',1)"
M=/tmp/mutrepo
rsync -a --delete --exclude _build --exclude .git /repo/ $M/ 2>/dev/null || { mkdir -p $M; (cd /repo && tar cf - --exclude=./_build --exclude=./.git .) | (cd $M && tar xf -); }
python3 - "$M/$2" "$3" <<'P'
import sys
f=sys.argv[1]; s=open(f).read(); n=eval(sys.argv[2])
if n==s: print("NO CHANGE"); sys.exit(1)
open(f,'w').write(n)
P
[ $? = 0 ] || exit 9
for p in ${1//,/ }; do WF_REPO=$M python3 /verif/check.py $p | grep -v "^  rule\|^KNOWN" | cut -c1-300 | head -${N:-5}; done
