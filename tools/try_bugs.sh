# usage: [V=verif copy] try_bugs.sh id...   in the scratch copy /tmp/wt (cp -a of /repo): does the bug pass the tests, does its demo fail, does the check see it
for id in "$@"; do
  d=${V:-/verif}/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /tmp/wt && git checkout -q -- . && git apply $d/patch.diff || { echo "$id: PATCH FAILS"; continue; }
    (cd /tmp/wt; PYTHONPATH=/tmp/wt timeout 300 bash $d/demo.sh >/tmp/demo_bad.txt 2>&1); b=$?
  t=$(cd /tmp/wt; HOME=/root PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg env -u DSPS_DRN PYTHONPATH=/tmp/wt /opt/venv/bin/python -m pytest -q -n 4 -p no:cacheprovider dsps 2>&1 | tail -1)
  c=$(cd ${V:-/verif}; VERIF_REPO=/tmp/wt timeout 600 python3 dst/check.py $p 2>&1 | tail -6 | cut -c1-600)
  git -C /tmp/wt checkout -q -- .
  (cd /tmp/wt; PYTHONPATH=/tmp/wt timeout 300 bash $d/demo.sh >/tmp/demo_good.txt 2>&1); g=$?
  echo "=== $id ($p) demo good=$g bad=$b tests: $t"; echo "$c" | grep -E "violation:|VIOLATION|quick:" 
done
