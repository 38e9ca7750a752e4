# tryseed.sh ID... : demo on clean, apply in /repo, stable tests, demo, the property's check, undo
cd /repo; git status --short | grep . && exit 1
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  bash /verif/seeded/$id/demo.sh >/tmp/w/demo0.log 2>&1; r0=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id no apply"; continue; }
  t="-"; [ -z "$NOTEST" ] && t=$(bash /tmp/w/rt.sh 2>&1 | grep missing)
  bash /verif/seeded/$id/demo.sh >/tmp/w/demo1.log 2>&1; r1=$?
  (cd /verif; python3-vt -m vc.main $prop >/tmp/w/check_$id.log 2>&1); rc=$?
  git checkout -- .
  echo "$id $prop demo $r0/$r1 tests: $t check rc=$rc $(grep -c VIOLATION /tmp/w/check_$id.log) $(grep VIOLATION /tmp/w/check_$id.log | head -2 | tr '\n' ' ')"
done
