#!/bin/bash
# tools/trybug.sh ID: demo and check of a planted bug, on the clean tree and with the patch (applied to /repo, undone afterwards).
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.log 2>&1; echo "$id demo clean: $? (want 0)"
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
[ -n "$BUILD" ] && { bash /opt/vp/build.sh >/tmp/build.log 2>&1; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 -c "import json;d=json.load(open('/tmp/t.json'));print('tests passed',len(d['passed']))"; }
timeout 300 bash $d/demo.sh >/tmp/demo2.log 2>&1; echo "$id demo patched: $? (want nonzero)"; tail -2 /tmp/demo2.log
cd /verif; ALSO="$ALSO $p"
for q in $ALSO; do /opt/venv/bin/python checks/$q.py --tier quick > /tmp/chk.log 2>&1; echo "$id check $q: $? (want 1)"; grep -E "^  \[|VIOLATION|INCONC" /tmp/chk.log | cut -c1-260 | head -4; done
