#!/bin/bash
# tools/seedtest.sh <id> [prop ...]: confirms a planted bug in a scratch copy mounted over /repo in a private namespace, then runs the checks of the given properties (default: its own) against it
id=$1; shift; S=/verif/seeded/$id; C=${SEEDREPO:-/tmp/seedrepo}; [ -d $C ] || cp -a /repo $C
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C $C fetch -q /repo && git -C $C reset -q --hard $(git -C /repo rev-parse HEAD) && git -C $C clean -fdq
git -C $C apply $S/patch.diff || exit 9
unshare -Urm bash -c "mount --bind $C /repo; cd /repo
[ -n \"$SKIPTEST\" ] || { bash /opt/vp/build.sh > /tmp/sb.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/sb.log; exit 8; }
D=\$(mktemp -d); cp -a $S/. \$D; rm -f \$D/*.diff \$D/meta.json; bash \$D/demo.sh; echo \"demo with patch: \$?\"
bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1; python3 - <<X
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/st.json')); b=b.get('passed') or b.get('tests') or b.get('stable') or b; print('tests lost:', sorted(set(b)-set(t['passed']))[:5])
X
}
for p in $P; do VERIF_BUILD=${SEEDBUILD:-/tmp/vbseed} python3 /verif/tools/run.py \$p quick | grep -v '^  inputs' | cut -c1-300 | tail -5; echo \"check \$p: \${PIPESTATUS[0]}\"; done"
git -C $C checkout -q -- .
[ -n "$SKIPTEST" ] || unshare -Urm bash -c "mount --bind $C /repo; cd /repo; bash /opt/vp/build.sh > /tmp/sb.log 2>&1; D=\$(mktemp -d); cp -a $S/. \$D; bash \$D/demo.sh; echo \"demo without patch: \$?\""
