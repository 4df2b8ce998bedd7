#!/usr/bin/env bash
# plant.sh ID...: confirm planted bugs in a scratch copy (/tmp/pl/repo): they apply, build, pass the
# stable tests, and the demo passes without and fails with them. Then run the property's check
# (or CHECK=...) from a copy of the simulator built against the scratch copy.  Development aid; no check uses it.
set -u
. /opt/vp/env.sh
R=/tmp/pl/repo
[ -d $R ] || { mkdir -p /tmp/pl; cp -a /repo $R; }
export DEMO_TARGET=/tmp/pl/demo-target
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $R checkout -q -- . ; git -C $R pull -q /repo HEAD 2>/dev/null || git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ "${ONLY:-}" != check ]; then
  (cd $R && bash $d/demo.sh >/tmp/pl/demo.clean 2>&1) ; c=$?
  git -C $R apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $R && bash $d/demo.sh >/tmp/pl/demo.bug 2>&1) ; b=$?
  (cd $R && timeout 780 cargo test --workspace --no-fail-fast --offline -- --include-ignored --test-threads 8 >/tmp/pl/test.log 2>&1)
  python3 /opt/vp/results.py /tmp/pl/out.json cargo:/tmp/pl/test.log >/dev/null 2>&1
  t=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/pl/out.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x: return set(x[k])
    return set()
s=names(b); p=names(o)
miss=sorted(s-p)
print(f"{len(s)-len(miss)}/{len(s)} " + ' '.join(miss[:4]))
PY
)
  git -C $R checkout -q -- .
  echo "$id: demo clean=$c bug=$b tests=$t"
  fi
  git -C $R apply $d/patch.diff
  rm -rf /tmp/pl/sim/src; mkdir -p /tmp/pl/sim /tmp/pl/root/evidence
  cp -a /verif/sim/src /verif/sim/Cargo.toml /verif/sim/Cargo.lock /tmp/pl/sim/
  sed -i "s#path = \"/repo\"#path = \"$R\"#" /tmp/pl/sim/Cargo.toml
  cp /verif/known-findings.txt /tmp/pl/root/
  (cd /tmp/pl/sim && cargo build --offline -q 2>/tmp/pl/simbuild.$id) || echo "$id: the simulator does not build"
  (cd /tmp/pl/sim && COMPOSIM_ROOT=/tmp/pl/root VERIF_SEED=${SEED:-1} VERIF_TIER=quick target/debug/composim check ${CHECK:-$prop} >/tmp/pl/check.$id 2>&1); k=$?
  git -C $R checkout -q -- .
  echo "$id: check ${CHECK:-$prop} exit=$k $(grep -m1 VIOLATION /tmp/pl/check.$id)"
done
