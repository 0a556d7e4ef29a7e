#!/bin/sh
# Nothing is built: the checks are Python and read the package from /repo's working
# tree.  Make sure that they start here, with a few runs of each.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
for py in /opt/venv/bin/python /usr/bin/python3 python3; do
    if "$py" -c 'import sys; sys.exit(sys.version_info < (3, 12))' 2>/dev/null; then
        for p in C08 C09 C11 C12 C15 C18; do
            "$py" "$here/run.py" "$p" --runs 8 --digests /dev/null || exit 1
        done
        echo "ready: $("$py" --version)"
        exit 0
    fi
done
echo "no Python 3.12 found" >&2
exit 1
