#!/bin/bash
# Runs demo.py (beside this script) against the zielen package of the current
# directory, as an unprivileged user, inside a scratch directory on tmpfs.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
BASE=/dev/shm; [ -d $BASE ] && [ -w $BASE ] || BASE=/tmp
D=$(mktemp -d "$BASE/zdemo.XXXXXX") || exit 3
trap 'chmod -R u+rwx "$D" 2>/dev/null; rm -rf "$D"' EXIT
mkdir "$D/home" "$D/tmp" "$D/code"
cp "$HERE"/*.py "$D/code/"
chown -R nobody:nogroup "$D"
cd "$D/tmp" || exit 3
timeout -k 5 200 setpriv --reuid nobody --regid nogroup --clear-groups --no-new-privs \
    env -i HOME="$D/home" XDG_CONFIG_HOME="$D/home/.config" TMPDIR="$D/tmp" LANG=C.UTF-8 LC_ALL=C.UTF-8 \
    PATH=/usr/local/bin:/usr/bin:/bin PYTHONPATH="$REPO:$D/code" REPO="$REPO" \
    PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
    /opt/pypyvenv/bin/python "$D/code/demo.py" "$@" </dev/null
