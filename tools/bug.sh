#!/bin/bash
# tools/bug.sh ID [check...]: confirm a planted bug in /repo and run checks on it; always undone.
id=$1; shift
d=/verif/seeded/$id
[ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
if [ -z "$SKIP_CONFIRM" ]; then
  bash $d/demo.sh >/tmp/demo.clean 2>&1; echo "$id demo clean: $?"
  git apply $d/patch.diff || { echo APPLY FAILED; exit 9; }
  bash /opt/vp/test.sh /tmp/bug.json >/tmp/bug.test 2>&1
  python3 - <<'P'
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/bug.json'))['passed'])
print("missing stable:", sorted(s-p))
P
  bash $d/demo.sh >/tmp/demo.bug 2>&1; echo "$id demo bug: $?"
else
  git apply $d/patch.diff || { echo APPLY FAILED; exit 9; }
fi
cd /verif
for c in ${@:-$prop}; do bin/check $c > /tmp/bug.$c.out 2>&1; echo "$id check $c: $? $(grep -c VIOLATION /tmp/bug.$c.out) $(grep -v '^\[' /tmp/bug.$c.out | head -1)"; tail -4 /tmp/bug.$c.out | cut -c1-220 | sed 's/^/    /'; done
