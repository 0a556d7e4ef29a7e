#!/bin/sh
# Determinism: the same runs, with other worker counts and other string hash seeds,
# leave the same event logs and schedules.  Usage: selftest.sh [RUNS]
here=$(cd "$(dirname "$0")" && pwd)
n=${1:-400}
tmp=$(mktemp -d)
bad=0
for p in C08 C09 C11 C12 C15 C18; do
    DST_HASHSEED=0 /opt/venv/bin/python "$here/run.py" $p --runs "$n" --workers 8 --digests "$tmp/a"
    DST_HASHSEED=77 /opt/venv/bin/python "$here/run.py" $p --runs "$n" --workers 3 --digests "$tmp/b"
    if cmp -s "$tmp/a" "$tmp/b"; then
        echo "$p: $(wc -l < "$tmp/a") runs identical"
    else
        echo "$p: DIFFER"
        diff "$tmp/a" "$tmp/b" | head -5
        bad=1
    fi
done
rm -r "$tmp"
exit $bad
