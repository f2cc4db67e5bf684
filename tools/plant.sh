#!/bin/bash
# plant.sh ID... : validates planted bugs in a scratch mirror of /repo (bind-mounted over /repo in a private namespace):
# clean demo passes; the patch applies, builds, passes all stable tests, and the demo fails. Results in /tmp/plant.log
M=/tmp/plant
[ -d $M ] || cp -a /repo $M
if [ -z "$IN_NS" ]; then
  IN_NS=1 exec unshare -Urm bash -c 'mount --bind /tmp/plant /repo; exec "$0" "$@"' "$0" "$@"
fi
cd /repo
for id in "$@"; do
  D=/verif/seeded/$id
  git checkout -q -- . ; git fetch -q /verif 2>/dev/null
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "$id: CLEAN BUILD FAILS"; continue; }
  if [ -z "$SKIPCLEAN" ]; then timeout 300 bash $D/demo.sh >/tmp/plant.demo0 2>&1; echo "$id clean demo rc=$?"; fi
  git apply $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "$id: BUILD FAILS: $(grep -m1 error /tmp/plant.build | cut -c1-200)"; git checkout -q -- .; continue; }
  timeout 300 bash $D/demo.sh >/tmp/plant.demo1 2>&1; echo "$id patched demo rc=$? : $(tail -1 /tmp/plant.demo1 | cut -c1-150)"
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
  echo "$id tests: $(python3 /tmp/cmp.py /tmp/plant.json | cut -c1-200 | tail -2 | tr '\n' ' ')"
  git checkout -q -- .
done
