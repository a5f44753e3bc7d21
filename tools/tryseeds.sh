#!/bin/bash
# Runs the checks of each planted bug's property (or those in $PROPS) on a
# scratch copy with the bug applied, and prints which of them report it.
HERE=$(cd "$(dirname "$0")/.." && pwd)
cd "$HERE"
one() {
  d=seeded/$1; p=${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  t=$(mktemp -d /dev/shm/ts.XXXXXX); cp -r /repo/zielen "$t"; (cd "$t" && git init -q . && git apply "$HERE/$d/patch.diff") || echo "no apply $1"
  for q in $p; do
    o=$(python3 -m zcheck "$q" --root "$t" 2>&1); rc=$?
    printf "%-30s %s rc=%d %s\n" "$1" "$q" $rc "$(echo "$o" | grep '^  ' | head -1 | cut -c1-220)"
  done
  rm -rf "$t"
}
export -f one; export HERE PROPS
ls seeded | { [ -n "$1" ] && cat <(printf "%s\n" "$@") || cat; } | xargs -P 6 -I{} bash -c 'one {}'
