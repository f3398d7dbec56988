#!/bin/bash
# trybug.sh ID [--notest] [--check PROP]: applies seeded/ID to /repo, confirms tests and demo, runs the property's check, undoes it.
ID=$1; shift
B=/verif/seeded/$ID
NOTEST=; [ "$1" = --notest ] && NOTEST=1
PROP=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
trap 'git -C /repo checkout -- .; rm -rf /tmp/demo_$ID' EXIT
rm -rf /tmp/demo_$ID; mkdir /tmp/demo_$ID; cp -a $B/. /tmp/demo_$ID/; rm -f /tmp/demo_$ID/*.diff /tmp/demo_$ID/meta.json
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "clean build failed"; exit 9; }
timeout 300 bash /tmp/demo_$ID/demo.sh >/tmp/demo_clean.log 2>&1; echo "demo clean: $?"
fi
git apply $B/patch.diff || { echo "does not apply"; exit 9; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "build failed"; tail -20 /tmp/tb.log; exit 9; }
timeout 300 bash /tmp/demo_$ID/demo.sh >/tmp/demo_bug.log 2>&1; echo "demo bug: $?"
bash /opt/vp/test.sh /tmp/tt.json >/dev/null 2>&1; basecmp /tmp/tt.json
fi
bash /verif/check.sh $PROP quick > /tmp/check_bug.log 2>&1; echo "check $PROP: $?"; grep -a VIOLATION /tmp/check_bug.log | head -3
