#!/bin/bash
# developer helper: hit.sh [ID...]  run the check of each planted bug's property against a scratch copy
# of /repo (/tmp/hw/repo) with the bug applied, using a scratch copy of the harness; /repo is not touched
mkdir -p /tmp/hw/v /tmp/hw/repo
rsync -a --delete --exclude target /repo/ /tmp/hw/repo/ 2>/dev/null || { rm -rf /tmp/hw/repo; cp -a /repo /tmp/hw/repo; }
rm -rf /tmp/hw/v/harness; cp -a /verif/harness /tmp/hw/v/; cp /verif/known_findings.txt /tmp/hw/v/
sed -i 's#path = "/repo"#path = "/tmp/hw/repo"#' /tmp/hw/v/harness/Cargo.toml
grep -rl '/repo/tests' /tmp/hw/v/harness/src | xargs -r sed -i 's#"/repo/tests#"/tmp/hw/repo/tests#'
mkdir -p /tmp/hw/v/evidence /tmp/hw/v/replays
export here=/tmp/hw/v VERIF_DIR=/tmp/hw/v VERIF_SEED=1 VERIF_TIER=quick; . /verif/env.sh
cd /verif/seeded
for i in ${@:-*}; do
  p=$(python3 -c "import json,sys;print(json.load(open('$i/meta.json'))['property'])")
  git -C /tmp/hw/repo apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  s=$(date +%s)
  find /tmp/hw/repo/src -name '*.rs' -newermt '-1 hour' -exec touch {} +
  (cd $here/harness && cargo build --release --offline > /tmp/hw/build.log 2>&1 || cargo build --release --offline --no-default-features >> /tmp/hw/build.log 2>&1) || { echo "$i: build fails"; tail -5 /tmp/hw/build.log; }
  out=$(timeout 900 $CARGO_TARGET_DIR/release/vh run ${P:-$p} quick 2>&1); rc=$?
  echo "$i ${P:-$p} rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
  [ -z "$P" ] && python3 - "$i" "$p" "$rc" <<'PY'
import json,sys
f='/verif/tools/caught.json'
try: d=json.load(open(f))
except Exception: d={}
i,p,rc=sys.argv[1:]
d[i]=p+' (quick)' if rc=='1' else 'missed (rc=%s)'%rc
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
PY
  git -C /tmp/hw/repo checkout -q -- .
  find /tmp/hw/repo/src -name '*.rs' -exec touch {} +
done
