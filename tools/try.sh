#!/bin/bash
# try.sh ID [CHECK...]: confirm a planted bug in a scratch copy and say whether the checks catch it
id=$1; shift
S=/verif/seeded/$id
C=/tmp/try.$$; mkdir -p $C; trap 'rm -rf /tmp/try.'$$ EXIT
cp -a /repo $C/repo
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
chk() { for k in ${@:-$P}; do (cd /verif && PSV_REPO=$C/repo timeout 900 python3 check.py $k 2>&1 | tail -4 | cut -c1-300); done; }
cd $C/repo
mkdir $C/d; cp -r $S/. $C/d/; rm -f $C/d/*.diff $C/d/meta.json
if [ -z "$FAST" ]; then bash $C/d/demo.sh > $C/o1 2>&1; echo "demo clean: $?"; fi
git apply $S/patch.diff || exit 1
if [ -z "$FAST" ]; then
  (. /opt/vp/env.sh; cargo nextest run --workspace --offline --locked --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp) > $C/o2 2>&1; echo "tests: $? $(grep 'Summary' $C/o2)"
  bash $C/d/demo.sh > $C/o3 2>&1; echo "demo bug: $?"; tail -3 $C/o3 | cut -c1-200
fi
chk "$@"
