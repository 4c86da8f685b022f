#!/bin/bash
# plant.sh ID CHECK...: with the planted change in /repo's working tree and
# seeded/ID/{demo.rs,meta.json} written, confirms it and says which checks see it.
# plant.sh -r ID CHECK...: the same for a change already recorded in patch.diff.
here=$(cd "$(dirname "$0")/.." && pwd)
if [ "$1" = -r ]; then shift; git -C /repo apply "$here/seeded/$1/patch.diff" || exit 2; skip=1; fi
id=$1; shift
s=$here/seeded/$id
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
if [ -z "${skip:-}" ]; then
    git -C /repo diff >"$s/patch.diff"
    [ -s "$s/patch.diff" ] || { echo "no change"; exit 2; }
    sed "s/PROFILE/${PROFILE:-}/" "$here/tools/demo.template.sh" >"$s/demo.sh"; chmod +x "$s/demo.sh"
    bash /opt/vp/build.sh >/tmp/pl/build.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/pl/build.log; exit 2; }
    bash /opt/vp/test.sh /tmp/pl/o.json >/tmp/pl/test.log 2>&1
    python3 - <<'P' || exit 2
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/pl/o.json'))
m=sorted(b-set(o['passed']))
print('tests lost:',m[:6],len(m)); raise SystemExit(1 if m else 0)
P
    (cd /repo && bash "$s/demo.sh" >/tmp/pl/demo1.log 2>&1); echo "demo patched: $?"; tail -3 /tmp/pl/demo1.log
fi
for c in "$@"; do
    timeout 900 bash "$here/check.sh" "$c" >/tmp/pl/$id.$c.log 2>&1; echo "check $c: $? $(grep -h VIOLATION /tmp/pl/$id.$c.log | head -2 | cut -c1-150)"
done
undo
if [ -z "${skip:-}" ]; then
    (cd /repo && bash "$s/demo.sh" >/tmp/pl/demo0.log 2>&1); echo "demo unpatched: $?"; tail -3 /tmp/pl/demo0.log
fi
git -C /repo status --short
