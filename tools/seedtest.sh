#!/bin/bash
# tools/seedtest.sh ID... -- apply each planted bug to /repo, see that it builds, passes
# the stable tests, that its demo tells it apart, and whether its property's check catches it.
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d)
  cp "$d"/* "$t"/; rm -f "$t"/*.diff "$t"/meta.json
  (cd /repo && timeout 300 bash "$t/demo.sh" >"$t/clean.log" 2>&1); clean=$?
  if git -C /repo apply "$d/patch.diff"; then
    bash /opt/vp/build.sh >"$t/build.log" 2>&1; build=$?
    (cd /tmp && bash /opt/vp/test.sh "$t/out.json" >/dev/null 2>&1)
    lost=$(python3 - "$t/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open(sys.argv[1]))
passed=set(o.get('passed') or [k for k,v in o.items() if v in('pass','passed',True)])
print(len([x for x in b if x not in passed]), *[x for x in b if x not in passed][:3])
P
)
    (cd /repo && timeout 300 bash "$t/demo.sh" >"$t/bug.log" 2>&1); bug=$?
    VERIF_SEED=1 ./check.sh "$p" quick >"/tmp/plant/$id.log" 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$p " "/tmp/plant/$id.log")
    git -C /repo checkout -q -- .
    ok=BAD; [ $clean = 0 ] && [ $build = 0 ] && [ "${lost%% *}" = 0 ] && [ $bug != 0 ] && ok=good
    c=MISSED; [ $rc = 1 ] && [ $v -gt 0 ] && c=caught
    echo "$id $p $ok demo-clean=$clean build=$build lost-tests=$lost demo-bug=$bug $c rc=$rc: $(grep -m1 '^violated' /tmp/plant/$id.log | cut -c1-160)"
  fi
  [ "$ok" = BAD ] && { tail -5 "$t/clean.log"; tail -3 "$t/build.log"; }
  rm -rf "$t"
done
