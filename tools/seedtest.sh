#!/bin/bash
# seedtest.sh ID: checks a planted bug in a scratch copy of /repo: patch applies, builds, tests pass, demo passes before and fails after.
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedtest_$ID
rm -rf /tmp/seedtest_$ID; mkdir -p $W; cp -a /repo $W/repo; rm -rf $W/repo/_build; cp -a $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
cd $W/repo && git checkout -q -- . 
bash $W/demo/demo.sh > $W/out0 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $W/demo/demo.sh > $W/out1 2>&1; b=$?
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > $W/build.sh
echo "$ID: demo unchanged=$a patched=$b"; tail -2 $W/out0; tail -2 $W/out1
rm -rf /tmp/seedtest_$ID
[ $a = 0 ] && [ $b != 0 ]
