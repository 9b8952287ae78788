#!/bin/bash
# tools/seed.sh ID [check module]: does /verif/seeded/ID count, and does the check catch it? Works in a copy of /repo.
# demo: 0 on the tree, non-zero with the patch; stable tests pass with the patch; check exits 1 with the patch.
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/demo" "$W/run"; cp -a /repo "$W/repo"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
export PYTHONDONTWRITEBYTECODE=1
cd "$W/repo"; git checkout -q -- .
find . -name __pycache__ -prune -exec rm -rf {} +
(PYTHONPATH="$W/repo" timeout 300 bash "$W/demo/demo.sh") > "$W/d0" 2>&1; a=$?
git apply --check "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
git apply "$S/patch.diff"
(PYTHONPATH="$W/repo" timeout 300 bash "$W/demo/demo.sh") > "$W/d1" 2>&1; b=$?
[ $a = 0 ] && [ $b != 0 ] && echo "$ID: demo ok ($b)" || { echo "$ID: DEMO BAD clean=$a patched=$b"; tail -5 "$W/d0" "$W/d1"; }
if [ "$NOTEST" = "" ]; then
  tar -C "$W/repo" --exclude=./.git --exclude=./openptv_python -cf - . | tar -C "$W/run" -xf -
  cd "$W/run"; PYTHONPATH="$W/repo:/opt/vp/plugin" timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_isolate --rootdir=. --timeout=300 --continue-on-collection-errors > "$W/t" 2>&1
  tail -4 "$W/t" | grep -v test_dumbbell | grep -E "FAILED|ERROR|passed"
fi
if [ "$2" ]; then
  cd /verif; cp -r /verif/evidence "$W/ev" 2>/dev/null
  SYMX_REPO="$W/repo" timeout 900 python3-vt symx/run.py $2 quick > "$W/c" 2>&1; r=$?
  echo "$ID: check $2 exit $r: $(grep -m1 '^  case' "$W/c" | cut -c1-200)"
  [ $r = 1 ] || tail -5 "$W/c" | cut -c1-200
fi
