#!/bin/bash
# seed.sh <id> [check...]: confirms one planted bug: patch applies, builds, passes the stable tests, the demo passes
# without and fails with it; then runs its property's check (and any others given) against it.
id=$1; shift; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP_CLEAN" ]; then bash $d/demo.sh >/tmp/seed.demo0 2>&1; echo "demo clean: $?"; fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
if [ -z "$SKIP_TESTS" ]; then
  TERM=dumb NO_COLOR=1 bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('passed','stable'):
        if isinstance(x.get(k),list): return set(x[k])
    return set()
base=names(b); ok=names(r)
print('tests: stable',len(base),'missing',sorted(base-ok)[:5])
P
  git -C /repo status --porcelain | grep -v '^ M prost-reflect' 
fi
if [ -z "$SKIP_DEMO" ]; then bash $d/demo.sh >/tmp/seed.demo1 2>&1; echo "demo patched: $?"; tail -2 /tmp/seed.demo1; fi
for p in $prop "$@"; do
  /verif/check.sh $p >/tmp/seed.chk 2>&1; echo "check $p: exit $?"; grep -a VIOLATION /tmp/seed.chk | head -2; grep -a "^  " /tmp/seed.chk|head -3
done
