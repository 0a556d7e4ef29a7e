#!/bin/sh
# check.sh PROPERTY quick|thorough: explore simulated runs of /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
for py in /opt/venv/bin/python /usr/bin/python3 python3; do
    if "$py" -c 'import sys; sys.exit(sys.version_info < (3, 12))' 2>/dev/null; then
        exec "$py" "$here/run.py" "$1" --tier "$2"
    fi
done
echo "no Python 3.12 found" >&2
exit 2
