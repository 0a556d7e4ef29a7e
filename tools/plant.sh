#!/bin/bash
# plant.sh ID [RUNARGS]: confirm a planted bug in a scratch copy of /repo and run its check on it.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
dir=$here/seeded/$id
tmp=$(mktemp -d /tmp/plantXXXX)
trap 'rm -rf "$tmp"' EXIT
git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$tmp"
cp -r /repo/tests/cts "$tmp/repo/tests/" 2>/dev/null
cp -r "$dir" "$tmp/demo"
export PYTHONDONTWRITEBYTECODE=1
cd "$tmp/repo" || exit 3
bash "$tmp/demo/demo.sh" >/dev/null 2>&1 || { echo "$id: demo fails on the unchanged tree"; exit 3; }
git init -q . && git apply "$dir/patch.diff" || { echo "$id: patch does not apply"; exit 3; }
rm -rf .git
bash "$tmp/demo/demo.sh" >"$tmp/demo.log" 2>&1 && { echo "$id: demo passes with the patch"; exit 3; }
t=$(PYTHONHASHSEED=0 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONPYCACHEPREFIX=$tmp/pyc \
    /opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=300 \
    --ignore=tests/test_nts.py --basetemp="$tmp/t" 2>&1 | tail -1)
case $t in *failed*|*error*) echo "$id: tests: $t"; exit 3;; esac
prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$dir/meta.json")
VERIF_REPO=$tmp/repo VERIF_OUT=$tmp/out /opt/venv/bin/python "$here/run.py" "$prop" "$@" >"$tmp/log" 2>&1
rc=$?
echo "$id: demo ok, tests ok ($t), check exit $rc: $(grep -E 'kind:|found:|run [0-9]+,' "$tmp/log" | tr '\n' ' ' | cut -c1-200)"
[ "$rc" = 1 ]
