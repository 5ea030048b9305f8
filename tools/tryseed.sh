#!/bin/bash
# tryseed.sh ID [-t] : in the scratch copies ${M:-/tmp/m}/{repo,verif}, apply seeded/ID, build,
# run the stable tests (-t), the demo on both trees, and the property's check.
ID=$1; S=/verif/seeded/$ID
. ${M:-/tmp/m}/env.sh
git checkout -q -- . && git clean -fdq -e target; git fetch -q /repo HEAD 2>/dev/null && git checkout -q FETCH_HEAD
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p ${M:-/tmp/m}/demo; cp $S/* ${M:-/tmp/m}/demo/; rm -f ${M:-/tmp/m}/demo/*.diff ${M:-/tmp/m}/demo/meta.json
git apply $S/patch.diff || { echo "$ID PATCH-FAILS"; exit 1; }
cargo test --workspace --no-run --offline > ${M:-/tmp/m}/build.log 2>&1 || { echo "$ID BUILD-FAILS"; tail -20 ${M:-/tmp/m}/build.log; exit 1; }
bash ${M:-/tmp/m}/demo/demo.sh > ${M:-/tmp/m}/demo.log 2>&1; D=$?
if [ "$2" = -t ]; then
  L=${M:-/tmp/m}/log; mkdir -p $L out
  timeout 400 cargo test --no-fail-fast --offline --lib --test bool --test bv-bool --test exponential --test maxmin --test nat --test pos --test szalinski -- --test-threads 8 > $L/1.log 2>&1
  timeout 450 cargo test --no-fail-fast --offline --test rational --test trig -- --test-threads 8 --skip test::run --skip test::lifting_phases > $L/2.log 2>&1
  python3 /opt/vp/results.py ${M:-/tmp/m}/res.json "cargo:$L/*.log" >/dev/null 2>&1
  python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('${M:-/tmp/m}/res.json'))
ok=set(r.get('passed',r.get('pass',[])))
bad=[x for x in b if x not in ok]
print("$ID tests:", "all pass" if not bad else "BROKEN "+str(bad))
X
fi
rsync -a --delete --exclude target --exclude out --exclude seeded --exclude .git /verif/ ${M:-/tmp/m}/verif/ 2>/dev/null || { cp -a /verif/*.py /verif/spec ${M:-/tmp/m}/verif/; cp -a /verif/harness/src ${M:-/tmp/m}/verif/harness/; cp /verif/harness/Cargo.* /verif/harness/build.sh ${M:-/tmp/m}/verif/harness/; }
for Q in $P ${CHECKS:-}; do
  T=$(date +%s); (cd ${M:-/tmp/m}/verif && VERIF_SEED=1 timeout 900 python3 check.py $Q > ${M:-/tmp/m}/check-$ID-$Q.log 2>&1); C=$?
  echo "$ID $Q demo-patched=$D check=$C $(grep -c VIOLATION ${M:-/tmp/m}/check-$ID-$Q.log) $(( $(date +%s) - T ))s"
done
git checkout -q -- .
if [ "$2" = -t ]; then
  cargo test --workspace --no-run --offline > ${M:-/tmp/m}/build.log 2>&1; bash ${M:-/tmp/m}/demo/demo.sh > ${M:-/tmp/m}/demo0.log 2>&1; echo "$ID demo-clean=$?"
fi
rm -rf ${M:-/tmp/m}/demo
