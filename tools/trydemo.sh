#!/bin/bash
# trydemo.sh ID: demo on the unchanged tree and with the patch (applied to /repo and undone)
d=/verif/seeded/$1
bash $d/demo.sh > /tmp/demo.$1.clean 2>&1; a=$?
git -C /repo apply $d/patch.diff || exit 9
bash $d/demo.sh > /tmp/demo.$1.bug 2>&1; b=$?
git -C /repo checkout -- .
echo "$1 clean=$a bug=$b"
