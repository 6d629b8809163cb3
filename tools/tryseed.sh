#!/bin/bash
# tryseed.sh ID...: demo on clean tree and with the patch (scratch clone), tests optional (TESTS=1)
for i in "$@"; do
 S=/tmp/seed/try; rm -rf /tmp/seed/try; git clone -q /repo $S
 (cd $S && bash /verif/seeded/$i/demo.sh >/tmp/seed/$i.clean.log 2>&1); a=$?
 git -C $S apply /verif/seeded/$i/patch.diff || { echo "$i patch does not apply"; continue; }
 (cd $S && bash /verif/seeded/$i/demo.sh >/tmp/seed/$i.patched.log 2>&1); b=$?
 echo "$i clean=$a patched=$b $(tail -1 /tmp/seed/$i.patched.log | cut -c1-160)"
done
