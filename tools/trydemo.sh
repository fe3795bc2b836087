#!/bin/bash
# trydemo.sh ID: runs the demo of a planted bug with the patch applied in a persistent scratch copy /tmp/plant2
S=/tmp/plant2; [ -d $S ] || cp -a /repo $S
D=/verif/seeded/$1
(cd $S && git checkout -q -- . && git apply $D/patch.diff) || exit 1
rm -rf /tmp/plantdemo2; cp -r $D /tmp/plantdemo2
(cd /repo; bash /tmp/plantdemo2/demo.sh; echo "$1 unpatched: $?")
unshare -Urm bash -c "mount --bind $S /repo; cd /repo/_build && make V=0 -j8 >/tmp/plant2.log 2>&1 && make V=0 install >/tmp/plant2.log 2>&1; cd /repo; bash /tmp/plantdemo2/demo.sh; echo \"$1 patched: \$?\""
