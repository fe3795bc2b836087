#!/bin/bash
# plant.sh ID...: confirms planted bugs in a scratch copy of /repo (build, stable tests, demo with and without the patch)
# and reports which quick checks catch them.   plant.sh -d ID: demo and tests only.   plant.sh -c ID: check only
set -u
V=/verif; MODE=all
case "${1:-}" in -d) MODE=demo; shift;; -c) MODE=check; shift;; esac
S=/tmp/plant; rm -rf /tmp/plant; cp -a /repo $S
for id in "$@"; do
  D=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  if [ $MODE != check ]; then
  unshare -Urm bash -c "
    mount --bind $S /repo || exit 9; cd /repo
    bash /opt/vp/build.sh > /tmp/plant.b0 2>&1 || echo 'build of the unchanged tree failed'
    cp -r $D /tmp/plantdemo; timeout 300 bash /tmp/plantdemo/demo.sh > /tmp/plant.d0 2>&1; echo \"$id demo unchanged: \$? (want 0)\"
    git apply $D/patch.diff || { echo 'patch does not apply'; exit 1; }
    bash /opt/vp/build.sh > /tmp/plant.b1 2>&1 || { echo 'build failed'; tail -5 /tmp/plant.b1; }
    timeout 300 bash /tmp/plantdemo/demo.sh > /tmp/plant.d1 2>&1; echo \"$id demo patched: \$? (want nonzero)\"
    bash /opt/vp/test.sh /tmp/plant.t.json 2>&1 | tail -1
    git checkout -q -- . ; rm -rf /tmp/plantdemo"
  fi
  if [ $MODE != demo ]; then
    (cd $S && git checkout -q -- . && git apply $D/patch.diff) || echo 'patch does not apply'
    for p in ${PROPS:-$prop}; do
      out=$(cd $V && SIM_REPO=$S SIM_BUILD=/tmp/plantbuild VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p quick 2>&1); rc=$?
      echo "$id check $p: exit $rc  $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | tail -1)"
      echo "$out" | grep "^violation" | cut -c1-220
    done
    (cd $S && git checkout -q -- .)
  fi
done
rm -rf /tmp/plant /tmp/plantbuild
