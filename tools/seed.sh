#!/bin/bash
# development: tools/seed.sh ID...   for each seeded bug: apply it to a scratch copy of /repo, confirm it (builds,
# stable tests pass, demo fails there and passes on the clean tree) and run the property's check against the copy
# (NOCHECK=1: skip the check; CHECK=ID: another property's check)
S=$(mktemp -d /tmp/seed.XXXXXX)
fin() { rm -rf "$S"; }
trap fin EXIT
[ -x /repo/_build/PseudoEngine2 ] || bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && timeout 300 bash $d/demo.sh >$S/demo.out 2>&1); c=$?
  rm -rf "$S/repo"; mkdir "$S/repo"
  (cd /repo && git archive HEAD) | tar -x -C "$S/repo"
  git -C "$S/repo" init -q 2>/dev/null
  (cd "$S/repo" && git apply $d/patch.diff) || { echo "$id: patch does not apply"; continue; }
  if ! (cd $S/repo && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build) >$S/build.out 2>&1; then echo "$id: BUILD FAILS"; tail -5 $S/build.out; continue; fi
  if ctest --test-dir $S/repo/_build -j8 --timeout 60 </dev/null >$S/ct.out 2>&1; then t="tests ok"; else
    t=$(python3 - "$S/ct.out" <<'PY'
import json,re,sys
f=set(re.findall(r"- (\S+) \(",open(sys.argv[1]).read()))
b=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if any(x.endswith(y) for y in f)]
print('TESTS FAIL %s'%b if b else 'tests ok')
PY
); fi
  (cd $S/repo && timeout 300 bash $d/demo.sh >/tmp/demo-$id.out 2>&1); m=$?
  if [ -z "$NOCHECK" ]; then (cd ${VC:-/verif} && PE2_REPO=$S/repo PE2_EVID=$S/evid VERIF_SEED=1 timeout 900 python3 harness/check.py ${CHECK:-$prop} >/tmp/seed-$id.log 2>&1); k=$?; else k=-; fi
  echo "$id ($prop): demo clean=$c mutated=$m, $t, check exit=$k $(grep -c VIOLATION /tmp/seed-$id.log 2>/dev/null) $(grep -A1 -m1 VIOLATION /tmp/seed-$id.log | tail -1 | cut -c1-100)"
done
